"""Reference for the bivariate density: binning, damping and the coordinate meshes."""
import math
import numpy as np


def _cosine(a):
    """type-2 cosine transform along the first axis, from one fft per row of the even rows followed by the odd rows in reverse"""
    m = len(a)
    w = np.array([1.0 if k == 0 else 2 * np.exp(-1j * k * np.pi / (2 * m)) for k in range(m)])
    y = np.vstack((a[::2, :], a[::-2, :]))
    f = np.fft.fft(y)
    return np.array([[np.real(w[i] * f[i, j]) for j in range(m)] for i in range(m)])


def cell(v, lo, scale, grid):
    """number of cell edges strictly below the scaled value, at most grid - 1"""
    u = (v - lo) / scale
    c = sum(1 if k / grid < u else 0 for k in range(grid + 1))
    return min(c, grid - 1)


def masses(data, grid):
    n = data.shape[1]
    lo = [np.min(data[0]), np.min(data[1])]
    sc = [np.max(data[0]) - np.min(data[0]), np.max(data[1]) - np.min(data[1])]
    return np.array([[sum(1 / n if cell(data[0][i], lo[0], sc[0], grid) == a and cell(data[1][i], lo[1], sc[1], grid) == b else 0 for i in range(n))
                      for b in range(grid)] for a in range(grid)])


def meshes(data, hx, hy, grid):
    x0, x1 = np.min(data[0]), np.max(data[0])
    y0, y1 = np.min(data[1]), np.max(data[1])
    xs = np.array([x0 + i * (x1 - x0) / (grid - 1) for i in range(grid)])
    ys = np.array([y0 + i * (y1 - y0) / (grid - 1) for i in range(grid)])
    return np.array([[xs[j] for j in range(grid)] for i in range(grid)]), np.array([[ys[i] for j in range(grid)] for i in range(grid)])


from proadv.kernel.bivariate import bivariate_kernel as _code


def code_meshes(data, hx, hy, grid):
    r = _code(data, hx, hy, grid)
    return r[1], r[2]


def _transform(a):
    return _cosine(_cosine(a).T).T


def density(data, hx, hy, grid):
    lo = [np.min(data[0]), np.min(data[1])]
    sc = [np.max(data[0]) - np.min(data[0]), np.max(data[1]) - np.min(data[1])]
    d = _transform(masses(data, grid))
    e = np.array([[math.exp(-i ** 2 * math.pi ** 2 * hx ** 2 / 2) * math.exp(-j ** 2 * math.pi ** 2 * hy ** 2 / 2) * d[i, j] for j in range(grid)] for i in range(grid)])
    f = _transform(e)
    eps = 2.0 ** -52
    g = grid * grid / (sc[0] * sc[1])
    return np.array([[eps if f[i, j] * g < 0 else f[i, j] * g for i in range(grid)] for j in range(grid)])


def code_density(data, hx, hy, grid):
    return _code(data, hx, hy, grid)[0]
