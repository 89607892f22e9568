"""Reference functions: what the documentation promises, in plain formulas."""
import numpy as np
import math
from proadv.statistics.descriptive import mean as _mean_code


def minimum(x):
    if len(x) == 0:
        raise ValueError
    return np.min(x)


def maximum(x):
    if len(x) == 0:
        raise ValueError
    return np.max(x)


def mean(x):
    n = len(x)
    if n == 0:
        raise ValueError
    return sum(x[i] for i in range(n)) / n


def median(x):
    if len(x) == 0:
        raise ValueError
    return np.median(x)


def _m(x, k):
    n = len(x)
    mu = sum(x[i] for i in range(n)) / n
    return sum((x[i] - mu) ** k for i in range(n)) / n


def variance(x):
    if len(x) == 0:
        raise NotImplementedError
    return _m(x, 2)


def std(x):
    if len(x) == 0:
        raise NotImplementedError
    return math.sqrt(_m(x, 2))


def skewness(x):
    if len(x) == 0:
        raise NotImplementedError
    s = math.sqrt(_m(x, 2))
    return _m(x, 3) / s ** 3


def kurtosis(x):
    if len(x) == 0:
        raise NotImplementedError
    return _m(x, 4) / _m(x, 2) ** 2


def moving_average(x, window):
    n = len(x)
    if window <= 0 or window > n:
        raise ValueError
    out = np.zeros(n)
    for i in range(n):
        lo = max(0, i - window + 1)
        out[i] = sum(x[j] for j in range(lo, i + 1)) / (i + 1 - lo)
    return out


def exponential_moving_average(x, alpha):
    if alpha <= 0 or alpha > 1:
        raise ValueError
    n = len(x)
    out = np.zeros(n)
    out[0] = x[0]
    for i in range(1, n):
        out[i] = alpha * x[i] + (1 - alpha) * out[i - 1]
    return out


def weighted_moving_average(x, period):
    n = len(x)
    if period <= 0 or period > n:
        raise ValueError
    out = np.zeros(n - period)
    for k in range(n - period):
        out[k] = sum((j + 1) * x[k + j] for j in range(period)) / (period * (period + 1) / 2)
    return out


def kinetic(u, v, w):
    return (_m(u, 2) + _m(v, 2) + _m(w, 2)) / 2


def _cov(x, y):
    n = len(x)
    a = sum(x[i] for i in range(n)) / n
    b = sum(y[i] for i in range(n)) / n
    return sum((x[i] - a) * (y[i] - b) for i in range(n)) / n


def reynolds(u, v, w):
    return _cov(u, u), _cov(v, v), _cov(w, w), _cov(u, v), _cov(u, w), _cov(v, w)


def kalman(x, s0, p0, q, r):
    n = len(x)
    out = np.zeros(n)
    s = s0
    p = p0
    for i in range(n):
        pp = p + q
        g = pp / (pp + r)
        s = s + g * (x[i] - s)
        p = (1 - g) * pp
        out[i] = s
    return out


def _mobility(v):
    m = len(v)
    d = math.sqrt(sum((v[i + 1] - v[i]) ** 2 for i in range(m - 1))) / (m - 1)
    r = round(math.sqrt(sum(v[i] ** 2 for i in range(m))) / m, 4)
    return d / r


def ssa(x, fs, f):
    n = len(x)
    w = int(math.ceil(fs / f))
    k = n - w + 1
    if w < 2:
        raise ValueError
    X = np.zeros((w, k))
    for i in range(w):
        for j in range(k):
            X[i, j] = x[i + j]
    _, E = np.linalg.eigh(X @ X.T)
    s = np.zeros(w)
    for i in range(w):
        s[i] = math.sin(2 * math.pi * i * f / fs)
    limit = _mobility(s)
    keep = [i for i in range(w) if _mobility(E[:, i]) <= limit]
    P = E[:, keep] @ E[:, keep].T @ X
    out = np.zeros(n)
    for t in range(n):
        lo = max(0, t - k + 1)
        hi = min(t, w - 1)
        out[t] = round(sum(P[i, t - i] for i in range(lo, hi + 1)) / (hi - lo + 1), 4)
    return out


def mode(x):
    n = len(x)
    counts = np.array([sum(1 if x[j] == x[i] else 0 for j in range(n)) for i in range(n)])
    top = max(counts)
    return np.min([x[i] for i in range(n) if counts[i] == top]), top


def same(x):
    return x


def mean_two(p, q):
    return (p + q) / 2


def mean_three(p, q, r):
    return (p + q + r) / 3


def mean_of_pair(p, q):
    return _mean_code([p, q])


def mean_of_text(p, q):
    return _mean_code([p, '2', q])


def mean_text(p, q):
    return (p + 2 + q) / 3


def mean_of_words(p, q):
    return _mean_code([p, 'word', q])


def mean_nothing(x):
    return 'Invalid input.'
