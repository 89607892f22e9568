"""Adapters: results of the library in the plain form the reference uses."""
import numpy as np
from proadv.statistics import series


def kalman(x, s0, p0, q, r):
    res = series.kalman_filter(x, s0, p0, q, r)
    return np.array(res).reshape(-1)


from proadv.statistics.signal.butter import butterworth


def design(order, w, kind, analog, fs):
    return butterworth(order, w, kind, analog, 'zps', fs)


def design_default(order, w, kind):
    return butterworth(order, w, kind, output='zps')
