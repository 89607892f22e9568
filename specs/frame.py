"""The part of each replacement's result that must not change: flagged samples are masked out."""
import numpy as np
from proadv.filtration.replacement import replacements as rp
from specs import repl


def _mask(x, S, r):
    f = np.zeros(len(x), dtype=bool)
    f[S] = True
    return len(r), np.where(f, 0.0, r)


def mean_value(x, S):
    return _mask(x, S, rp.mean_value(x, S))


def median_value(x, S):
    return _mask(x, S, rp.median_value(x, S))


def last_valid_data(x, S):
    return _mask(x, S, rp.last_valid_data(x, S))


def linear_interpolation(x, S, d):
    return _mask(x, S, rp.linear_interpolation(x, S, d))


def cubic_12points_polynomial(x, S, d):
    return _mask(x, S, rp.cubic_12points_polynomial(x, S, d))


def simple_moving_average(x, S, w):
    return _mask(x, S, rp.simple_moving_average(x, S, w))


def exponential_moving_average(x, S, a):
    return _mask(x, S, rp.exponential_moving_average(x, S, a))


def weighted_moving_average(x, S, w):
    return _mask(x, S, rp.weighted_moving_average(x, S, w))


def ssa(x, S, fs, f):
    return _mask(x, S, rp.ssa(x, S, fs, f))


def kalman_filter(x, S, s0, p0, q, r):
    return _mask(x, S, rp.kalman_filter(x, S, s0, p0, q, r))


def polynomial_replacement(x, S, w, deg, d):
    return _mask(x, S, rp.polynomial_replacement(x, S, w, deg, d))


def same(x, S, *rest):
    f = np.zeros(len(x), dtype=bool)
    f[S] = True
    return len(x), np.where(f, 0.0, x)


def linear(x, S, d):
    return _mask(x, S, repl.linear(x, S, d))


def cubic(x, S, d):
    return _mask(x, S, repl.cubic(x, S, d))


def polynomial(x, S, w, deg, d):
    return _mask(x, S, repl.polynomial(x, S, w, deg, d))


def rounded3(x, S, d):
    f = np.zeros(len(x), dtype=bool)
    f[S] = True
    return len(x), np.where(f, 0.0, np.around(x, d))
