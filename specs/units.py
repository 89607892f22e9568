"""The same data in other units: results for s*x+b against results for x."""
import numpy as np
from proadv.statistics.descriptive import mean as _mean, median as _median, min as _min, max as _max
from proadv.statistics.spread import variance as _variance, std as _std
from proadv.statistics.moment import skewness as _skewness, kurtosis as _kurtosis
from proadv.statistics import series as _series
from proadv.filtration.replacement import replacements as _r
from proadv.statistics.signal import fluid as _fluid
from proadv.filtration.detection.acceleration import acceleration_thresholding as _acc


def mean_a(x, s, b):
    return _mean(s * x + b)


def mean_b(x, s, b):
    return s * _mean(x) + b


def median_a(x, s, b):
    return _median(s * x + b)


def median_b(x, s, b):
    return s * _median(x) + b


def min_a(x, s, b):
    return _min(s * x + b)


def min_b(x, s, b):
    return s * _min(x) + b


def max_a(x, s, b):
    return _max(s * x + b)


def max_b(x, s, b):
    return s * _max(x) + b


def variance_a(x, s, b):
    return _variance(s * x + b)


def variance_b(x, s, b):
    return s * s * _variance(x)


def std_a(x, s, b):
    return _std(s * x + b)


def std_b(x, s, b):
    return s * _std(x)


def skewness_a(x, s, b):
    return _skewness(s * x + b)


def skewness_b(x, s, b):
    return _skewness(x)


def kurtosis_a(x, s, b):
    return _kurtosis(s * x + b)


def kurtosis_b(x, s, b):
    return _kurtosis(x)


def sma_a(x, s, b, w):
    return _series.moving_average(s * x + b, w)


def sma_b(x, s, b, w):
    return s * _series.moving_average(x, w) + b


def ema_a(x, s, b, w):
    return _series.exponential_moving_average(s * x + b, w)


def ema_b(x, s, b, w):
    return s * _series.exponential_moving_average(x, w) + b


def wma_a(x, s, b, w):
    return np.asarray(_series.weighted_moving_average(s * x + b, w), dtype=float)


def wma_b(x, s, b, w):
    return s * np.asarray(_series.weighted_moving_average(x, w), dtype=float) + b


def rmean_a(x, s, b, i):
    return _r.mean_value(s * x + b, i)


def rmean_b(x, s, b, i):
    return s * _r.mean_value(x, i) + b


def rmedian_a(x, s, b, i):
    return _r.median_value(s * x + b, i)


def rmedian_b(x, s, b, i):
    return s * _r.median_value(x, i) + b


def rlast_a(x, s, b, i):
    return _r.last_valid_data(s * x + b, i)


def rlast_b(x, s, b, i):
    return s * _r.last_valid_data(x, i) + b


def rsma_a(x, s, b, i, w):
    return _r.simple_moving_average(s * x + b, i, w)


def rsma_b(x, s, b, i, w):
    return s * _r.simple_moving_average(x, i, w) + b


def rema_a(x, s, b, i, w):
    return _r.exponential_moving_average(s * x + b, i, w)


def rema_b(x, s, b, i, w):
    return s * _r.exponential_moving_average(x, i, w) + b


def rwma_a(x, s, b, i, w):
    return _r.weighted_moving_average(s * x + b, i, w)


def rwma_b(x, s, b, i, w):
    return s * _r.weighted_moving_average(x, i, w) + b


def tke_a(u, v, w, s, b, c, d):
    return _fluid.kinetic_turbulent_energy(s * u + b, s * v + c, s * w + d)


def tke_b(u, v, w, s, b, c, d):
    return s * s * _fluid.kinetic_turbulent_energy(u, v, w)


def rey_a(u, v, w, s, b, c, d):
    return _fluid.reynolds_stresses(s * u + b, s * v + c, s * w + d)


def rey_b(u, v, w, s, b, c, d):
    r = _fluid.reynolds_stresses(u, v, w)
    return s * s * r[0], s * s * r[1], s * s * r[2], s * s * r[3], s * s * r[4], s * s * r[5]


def acc_a(x, s, fs, tag, g, kg, ks):
    return _acc(s * x, fs, tag, s * g, kg, ks)


def acc_b(x, s, fs, tag, g, kg, ks):
    return _acc(x, fs, tag, g, kg, ks)
