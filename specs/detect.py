"""Reference detectors: which samples are flagged, sample by sample."""
import math
import numpy as np


def _mean(x):
    n = len(x)
    return sum(x[i] for i in range(n)) / n


def _std(x):
    n = len(x)
    mu = _mean(x)
    return math.sqrt(sum((x[i] - mu) ** 2 for i in range(n)) / n)


def acceleration(x, fs, tag, g=980, kg=1.5, ks=1):
    n = len(x)
    if tag != 1 and tag != 2:
        raise ValueError
    mu = _mean(x)
    s = _std(x)
    out = []
    for i in range(n):
        a = (x[i] - x[i - 1]) * fs if i > 0 else 0
        up = a > kg * g and x[i] > mu + ks * s
        down = a < -kg * g and x[i] < mu - ks * s
        if (tag == 1 and up) or (tag == 2 and down):
            out.append(i)
    return np.array(out)


def axes(s1, s2, theta, lam):
    """semi-axes of the rotated ellipse from its two projections; a huge ellipse when there is none"""
    c = math.cos(theta) ** 2
    s = math.sin(theta) ** 2
    f = math.cos(theta) ** 4 - math.sin(theta) ** 4
    a2 = ((lam * s1) ** 2 * c - (lam * s2) ** 2 * s) / f
    b2 = ((lam * s2) ** 2 * c - (lam * s1) ** 2 * s) / f
    if a2 > 0 and b2 > 0:
        return math.sqrt(a2), math.sqrt(b2)
    return 1e10, 1e10


def outside(x, y, theta, a, b):
    p = x * math.cos(theta) + y * math.sin(theta)
    q = y * math.cos(theta) - x * math.sin(theta)
    return (p / a) ** 2 + (q / b) ** 2


def rho(x, y, theta, a, b):
    n = len(x)
    out = np.zeros(n)
    for i in range(n):
        out[i] = outside(x[i], y[i], theta, a, b)
    return out


def _angle(x, y):
    n = len(x)
    return math.atan(sum(x[i] * y[i] for i in range(n)) / sum(x[i] * x[i] for i in range(n)))


def derivatives(x):
    n = len(x)
    d = np.zeros(n)
    e = np.zeros(n)
    for i in range(1, n - 1):
        d[i] = round((x[i + 1] - x[i - 1]) / 2, 4)
    for i in range(1, n - 1):
        e[i] = round((d[i + 1] - d[i - 1]) / 2, 4)
    return d, e


def phasespace_parameters(x, d, e):
    lam = math.sqrt(2 * math.log(len(x)))
    s0 = _std(x)
    s1 = _std(d)
    s2 = _std(e)
    th = _angle(x, e)
    a, b = axes(s0, s2, th, lam)
    return s0, s1, s2, lam, th, lam * s0, lam * s1, lam * s1, lam * s2, a, b


def phasespace(x):
    n = len(x)
    d, e = derivatives(x)
    lam = math.sqrt(2 * math.log(n))
    s0 = _std(x)
    s1 = _std(d)
    s2 = _std(e)
    th = _angle(x, e)
    a, b = axes(s0, s2, th, lam)
    out = []
    for i in range(n):
        if outside(x[i], d[i], 0, lam * s0, lam * s1) > 1 or outside(d[i], e[i], 0, lam * s1, lam * s2) > 1 or outside(x[i], e[i], th, a, b) > 1:
            out.append(i)
    return np.array(out)


def correlation(u, v, w):
    n = len(u)
    u = u - _mean(u)
    v = v - _mean(v)
    w = w - _mean(w)
    lam = math.sqrt(2 * math.log(n))
    su = _std(u)
    sv = _std(v)
    sw = _std(w)
    t1 = _angle(u, v)
    t2 = _angle(u, w)
    t3 = _angle(v, w)
    a1, b1 = axes(su, sv, t1, lam)
    a2, b2 = axes(su, sw, t2, lam)
    a3, b3 = axes(sv, sw, t3, lam)
    out = []
    for i in range(n):
        if outside(u[i], v[i], t1, a1, b1) > 1 or outside(u[i], w[i], t2, a2, b2) > 1 or outside(v[i], w[i], t3, a3, b3) > 1:
            out.append(i)
    return np.array(out)


def correlation_parameters(u, v, w):
    return math.sqrt(2 * math.log(len(u))), _std(u), _std(v), _std(w)


def premodification(x, c1=1.5, c2=1.35):
    n = len(x)
    med = np.median(x)
    mad = np.median([abs(x[i] - med) for i in range(n)])
    lim = c2 * mad * math.sqrt(2 * math.log(n))
    out = np.zeros(n)
    for i in range(n):
        out[i] = x[i]
    for i in range(n):
        if x[i] > lim or x[i] < -lim:
            if i == 0:
                out[i] = med
            else:
                out[i] = out[i - 1]
    keep = [i for i in range(n) if -c1 * mad <= x[i] <= c1 * mad]
    return out, np.array(keep)


def pollution(x, f, k):
    n = len(x)
    s = _std(x)
    c = sum(1 if x[i] > f[i] + k * s or x[i] < -f[i] - k * s else 0 for i in range(n))
    return 100 * c / n


def spherical(x, iteration, xm):
    n = len(x)
    m = np.nanmean(x)
    c = np.around(x - m, 4)
    d = np.gradient(c)
    e = np.gradient(d)
    th = np.around(math.atan2(np.sum(c * d), np.sum(e ** 2)), 4)
    if th == 0:
        p, q, r = c, d, e
    else:
        co = np.around(math.cos(th), 4)
        si = np.around(math.sin(th), 4)
        p = np.around(c * co + e * si, 4)
        q = np.around(d, 4)
        r = np.around(e * co - c * si, 4)
    lam = np.around(math.sqrt(2 * math.log(n)), 4)
    A = np.around(lam * np.nanstd(p), 4)
    B = np.around(lam * np.nanstd(q), 4)
    C = np.around(lam * np.nanstd(r), 4)
    out = []
    for i in range(n):
        den = np.sqrt((A * C * q[i]) ** 2 + B ** 2 * (C ** 2 * p[i] ** 2 + A ** 2 * r[i] ** 2))
        x2 = np.around(A * B * C * p[i] / den, 4)
        y2 = np.around(A * B * C * q[i] / den, 4)
        zz = np.around(C ** 2 * (1 - (x2 / A) ** 2 - (y2 / B) ** 2), 4)
        z2 = 0 if r[i] == 0 else np.around(np.sqrt(zz), 4)
        if x2 ** 2 + y2 ** 2 + z2 ** 2 - (p[i] ** 2 + q[i] ** 2 + r[i] ** 2) < 0:
            out.append(i)
    return np.array(out)
