"""Reference functions for the spike replacements.  S lists the flagged samples in ascending order."""
import numpy as np
from scipy.interpolate import interp1d
from sklearn.preprocessing import PolynomialFeatures
from sklearn.linear_model import LinearRegression
from specs import stats
from proadv.filtration.replacement.replacements import linear_interpolation as _linear_code


def _flags(n, S):
    f = np.zeros(n, dtype=bool)
    f[S] = True
    return f


def mean_value(x, S):
    f = _flags(len(x), S)
    return np.where(f, stats.mean(x), x)


def median_value(x, S):
    f = _flags(len(x), S)
    return np.where(f, np.median(x), x)


def last_valid(x, S):
    n = len(x)
    f = _flags(n, S)
    mu = stats.mean(x)
    out = np.zeros(n)
    last = mu
    for i in range(n):
        if not f[i]:
            last = x[i]
        out[i] = last
    return out


def sma(x, S, window):
    s = stats.moving_average(x, window)
    return np.where(_flags(len(x), S), s, x)


def ema(x, S, alpha):
    s = stats.exponential_moving_average(x, alpha)
    return np.where(_flags(len(x), S), s, x)


def wma(x, S, period):
    n = len(x)
    s = stats.weighted_moving_average(x, period)
    mu = stats.mean(x)
    full = np.zeros(n)
    for i in range(n):
        if i < period:
            full[i] = mu
        else:
            full[i] = s[i - period]
    return np.where(_flags(n, S), full, x)


def linear(x, S, decimals):
    """each run of flagged samples, in order: the line between its unflagged neighbours; the mean when it reaches the end;
    the following sample when it starts the record"""
    n = len(x)
    out = x.copy()
    if len(S) == 0:
        return np.around(out, decimals)
    out[S] = np.nan
    mu = np.mean(x[~np.isnan(x)])
    gap = np.diff(S)
    starts = S[np.append(True, gap > 1)]
    ends = S[np.append(gap > 1, True)]
    for s, e in zip(starts, ends):
        a = out[s - 1] if s > 0 else np.nan
        b = out[e + 1] if e < n - 1 else np.nan
        if np.isnan(b):
            for i in range(s, e + 1):
                out[i] = mu
        elif np.isnan(a):
            for i in range(s, e + 1):
                out[i] = b
        else:
            for i in range(s, e + 1):
                out[i] = a + (b - a) * (i - s + 1) / (e - s + 2)
    return np.around(out, decimals)


def linear_pointwise(x, S, decimals):
    n = len(x)
    out = x.copy()
    if len(S) == 0:
        return np.around(out, decimals)
    bad = np.zeros(n, dtype=bool)
    bad[S] = True
    mu = np.mean(x)
    for i in range(n):
        if bad[i]:
            before = np.where(~bad[:i])[0]
            after = np.where(~bad[i:])[0]
            if len(after) == 0:
                out[i] = mu
            elif len(before) == 0:
                out[i] = x[i + after[0]]
            else:
                s = before[-1]
                e = i + after[0]
                out[i] = x[s] + (x[e] - x[s]) * (i - s) / (e - s)
    return np.around(out, decimals)


def cubic(x, S, decimals):
    """cubic through the 12 (already repaired) samples before and the next 12 unflagged ones, at positions 1..12 and 14..25,
    evaluated at 13; near the ends of the record the mean of the previous sample and the next unflagged one"""
    n = len(x)
    out = x.copy()
    out[S] = np.nan
    where = np.array([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25])
    for i in S:
        after = out[i:][~np.isnan(out[i:])]
        if i <= 30 or i >= n - 30 or len(after) < 12:
            out[i] = np.mean(np.append(out[i - 1:i], after[0:1]))
        else:
            g = interp1d(where, np.append(out[i - 12:i], after[0:12]), 3)
            out[i] = g(13)
    return np.around(out, decimals)


def _fit(y, t, at, degree):
    features = PolynomialFeatures(degree=degree)
    a = features.fit_transform(t.reshape(-1, 1))
    m = LinearRegression()
    m.fit(a, y)
    b = features.fit_transform(at.reshape(-1, 1))
    return m.predict(b)


def polynomial(x, S, window, degree, decimals):
    """sample 0: the mean; samples 1..10: all of them by linear interpolation; later ones: the fitted polynomial of the
    samples before, at most `window` of them"""
    out = x.copy()
    early_done = 0
    for i in S:
        if i == 0:
            out[i] = np.mean(out)
        elif i <= 10:
            if early_done == 0:
                out = linear(out, S[np.where((S >= 1) & (S <= 10))[0]], decimals)
                early_done += 1
        elif i < window:
            out[i] = _fit(out[:i], np.arange(i), i, degree).squeeze()
        else:
            out[i] = _fit(out[i - window:i], np.arange(i - window, i), i, degree).squeeze()
    return np.around(out, decimals)


def polynomial_flag(x, S, window, degree, decimals):
    out = x.copy()
    done = False
    for i in S:
        if i == 0:
            out[i] = np.mean(out)
        elif i <= 10:
            if not done:
                out = linear(out, S[np.where((S >= 1) & (S <= 10))[0]], decimals)
                done = True
        else:
            s = max(0, i - window)
            out[i] = _fit(out[s:i], np.arange(s, i), i, degree).squeeze()
    return np.around(out, decimals)


def polynomial_phases(x, S, window, degree, decimals):
    out = x.copy()
    if len(S) > 0 and S[0] == 0:
        out[0] = np.mean(out)
    early = S[(S >= 1) & (S <= 10)]
    if len(early) > 0:
        out = linear(out, early, decimals)
    for i in S[S > 10]:
        s = max(0, i - window)
        out[i] = _fit(out[s:i], np.arange(s, i), i, degree).squeeze()
    return np.around(out, decimals)


def polynomial_calls(x, S, window, degree, decimals):
    """sample 0: the mean; samples 1..10: all of them by linear interpolation; later ones: the fitted polynomial of the
    samples before, at most `window` of them"""
    out = x.copy()
    early_done = 0
    for i in S:
        if i == 0:
            out[i] = np.mean(out)
        elif i <= 10:
            if early_done == 0:
                out = _linear_code(out, S[np.where((S >= 1) & (S <= 10))[0]], decimals)
                early_done += 1
        elif i < window:
            out[i] = _fit(out[:i], np.arange(i), i, degree).squeeze()
        else:
            out[i] = _fit(out[i - window:i], np.arange(i - window, i), i, degree).squeeze()
    return np.around(out, decimals)


def kalman(x, S, s0, p0, q, r):
    return np.where(_flags(len(x), S), stats.kalman(x, s0, p0, q, r), x)


def ssa(x, S, fs, f):
    return np.where(_flags(len(x), S), stats.ssa(x, fs, f), x)
