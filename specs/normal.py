"""Reference for the normal distribution and the normality tests."""
import math
import numpy as np
from specs.stats import skewness, kurtosis


def _check(x):
    if len(x) == 0:
        raise ValueError
    if np.isnan(x).any():
        raise TypeError


def phi(z):
    return (1 + math.erf(z / math.sqrt(2))) / 2


def pdf(x, std=1, mean=0):
    _check(x)
    out = np.zeros(len(x))
    for i in range(len(x)):
        out[i] = math.exp(-(x[i] - mean) ** 2 / (2 * std ** 2)) / (std * math.sqrt(2 * math.pi))
    return out


def log_pdf(x, std=1, mean=0):
    _check(x)
    out = np.zeros(len(x))
    for i in range(len(x)):
        out[i] = np.log(math.exp(-(x[i] - mean) ** 2 / (2 * std ** 2)) / (std * math.sqrt(2 * math.pi)))
    return out


def cdf(x):
    _check(x)
    out = np.zeros(len(x))
    for i in range(len(x)):
        out[i] = phi(x[i])
    return out


def log_cdf(x):
    _check(x)
    out = np.zeros(len(x))
    for i in range(len(x)):
        out[i] = np.log(phi(x[i]))
    return out


def sf(x):
    _check(x)
    out = np.zeros(len(x))
    for i in range(len(x)):
        out[i] = 1 - phi(x[i])
    return out


def log_sf(x):
    _check(x)
    out = np.zeros(len(x))
    for i in range(len(x)):
        out[i] = np.log(1 - phi(x[i]))
    return out


def cdf0(x):
    return phi(x)


def sf0(x):
    return 1 - phi(x)


def log_cdf0(x):
    return np.log(phi(x))


def log_sf0(x):
    return np.log(1 - phi(x))


def pdf0(x, std=1, mean=0):
    return math.exp(-(x - mean) ** 2 / (2 * std ** 2)) / (std * math.sqrt(2 * math.pi))


def log_pdf0(x, std=1, mean=0):
    return np.log(pdf0(x, std, mean))


def cdf2(x):
    m, k = x.shape
    out = np.zeros((m, k))
    for i in range(m):
        for j in range(k):
            out[i, j] = phi(x[i, j])
    return out


def sf2(x):
    return 1 - cdf2(x)


def log_cdf2(x):
    return np.log(cdf2(x))


def log_sf2(x):
    return np.log(sf2(x))


def pdf2(x, std=1, mean=0):
    m, k = x.shape
    out = np.zeros((m, k))
    for i in range(m):
        for j in range(k):
            out[i, j] = pdf0(x[i, j], std, mean)
    return out


def log_pdf2(x, std=1, mean=0):
    return np.log(pdf2(x, std, mean))


def _p(z, alternative):
    if alternative == 'two-sided':
        return 2 * (1 - phi(abs(z)))
    if alternative == 'greater':
        return 1 - phi(z)
    if alternative == 'less':
        return phi(z)
    raise ValueError


def skewtest(x, alternative='two-sided'):
    n = len(x)
    if n == 0:
        raise NotImplementedError
    if n < 8:
        raise ValueError
    if _same(x):
        raise NotImplementedError
    y = skewness(x) * math.sqrt((n + 1) * (n + 3) / (6 * (n - 2)))
    b = 3 * (n ** 2 + 27 * n - 70) * (n + 1) * (n + 3) / ((n - 2) * (n + 5) * (n + 7) * (n + 9))
    w = math.sqrt(2 * (b - 1)) - 1
    d = 1 / math.sqrt(math.log(math.sqrt(w)))
    a = math.sqrt(2 / (w - 1))
    if y == 0:
        y = 1
    z = d * math.log(y / a + math.sqrt((y / a) ** 2 + 1))
    return z, _p(z, alternative)


def _same(x):
    n = len(x)
    mu = sum(x[i] for i in range(n)) / n
    return sum((x[i] - mu) ** 2 for i in range(n)) == 0


def kurtotest(x, alternative='two-sided'):
    n = len(x)
    if n < 5:
        raise ValueError
    if _same(x):
        raise NotImplementedError
    k = kurtosis(x)
    e = 3 * (n - 1) / (n + 1)
    v = 24 * n * (n - 2) * (n - 3) / ((n + 1) ** 2 * (n + 3) * (n + 5))
    y = (k - e) / math.sqrt(v)
    b = 6 * (n ** 2 - 5 * n + 2) / ((n + 7) * (n + 9)) * math.sqrt(6 * (n + 3) * (n + 5) / (n * (n - 2) * (n - 3)))
    a = 6 + 8 / b * (2 / b + math.sqrt(1 + 4 / b ** 2))
    q = 1 + y * math.sqrt(2 / (a - 4))
    if q <= 0:
        raise NotImplementedError
    z = ((1 - 2 / (9 * a)) - ((1 - 2 / a) / q) ** (1 / 3)) / math.sqrt(2 / (9 * a))
    return z, _p(z, alternative)
