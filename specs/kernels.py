"""Reference for the kernel-density detectors."""
import math
import numpy as np
from scipy.stats import gaussian_kde
from .detect import _std


def _angle(x, y):
    n = len(x)
    sx = sum(x[i] for i in range(n))
    sy = sum(y[i] for i in range(n))
    sxy = sum(x[i] * y[i] for i in range(n))
    sxx = sum(x[i] * x[i] for i in range(n))
    return math.atan2(n * sxy - sx * sy, n * sxx - sx * sx)


def _cut(f, v, top, c, k, grid):
    """grid values on both sides of the peak k of the density profile f where ratio and normalised change are at or below c"""
    m = len(f)

    def small(i):
        return f[i] / f[k] <= c and abs((f[i] - f[i - 1]) * grid / top) <= c
    lo = 1
    for i in range(1, k):
        if small(k - i):
            lo = k - i
            break
    hi = m - 1
    for i in range(k + 1, m - 1):
        if small(i):
            hi = i
            break
    return v[lo], v[hi]


def _far(x, y, grid):
    """squared distance of every sample, 1 on the ellipse"""
    n = len(x)
    th = _angle(x, y)
    p = np.array([x[i] * math.cos(th) + y[i] * math.sin(th) for i in range(n)])
    q = np.array([y[i] * math.cos(th) - x[i] * math.sin(th) for i in range(n)])
    gx, gy = np.mgrid[np.min(p):np.max(p):grid * 1j, np.min(q):np.max(q):grid * 1j]
    d = np.reshape(gaussian_kde(np.vstack([p, q]))(np.vstack([gx.ravel(), gy.ravel()])), gx.shape)
    top = np.max(d)
    if np.isnan(top):
        raise NotImplementedError('density without values')
    i0 = np.where(d == top)[0][0]
    j0 = np.where(d == top)[1][0]
    lam = math.sqrt(2 * math.log(n))
    cx = lam * _std(x) / math.sqrt(n)
    cy = lam * _std(y) / math.sqrt(n)
    xl, xu = _cut(d[:, j0], gx[:, 0], top, cx, i0, grid)
    yl, yu = _cut(d[i0, :], gy[0, :], top, cy, j0, grid)
    return [((p[i] - (xu + xl) / 2) / ((xu - xl) / 2)) ** 2 + ((q[i] - (yu + yl) / 2) / ((yu - yl) / 2)) ** 2 for i in range(n)]


def kernel(x, y, grid):
    r = _far(x, y, grid)
    return np.array([i for i in range(len(x)) if r[i] > 1])


def _slope(x):
    n = len(x)
    return np.array([(x[i + 1] - x[i - 1]) / 2 if 0 < i < n - 1 else 0.0 for i in range(n)])


def three(x, grid):
    d = _slope(x)
    e = _slope(d)
    r1 = _far(x, d, grid)
    r2 = _far(x, e, grid)
    r3 = _far(d, e, grid)
    return np.array([i for i in range(len(x)) if r1[i] > 1 or r2[i] > 1 or r3[i] > 1])


from proadv.filtration.detection.trivariatekernel import kernel as _kernel


def code_pair(x, y, grid):
    return _kernel(x, y, grid)[0]


def three_calls(x, grid):
    d = _slope(x)
    e = _slope(d)
    r = [np.isin(np.arange(len(x)), _kernel(p, q, grid)[0]) for p, q in ((x, d), (x, e), (d, e))]
    return np.array([i for i in range(len(x)) if r[0][i] or r[1][i] or r[2][i]])
