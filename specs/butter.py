"""Reference Butterworth design: zeros, poles and gain."""
import math
import numpy as np


def _gap(z, p):
    if len(p) < len(z):
        raise ValueError
    return len(p) - len(z)


def _split(a, c):
    """both roots of s -> (s^2 + c^2) / s = 2 a"""
    r = np.sqrt(a ** 2 - c ** 2)
    return np.concatenate((a + r, a - r))


def _gain(z, p):
    return np.real(np.prod(-z) / np.prod(-p))


def prototype(order):
    if order != int(order) or order < 0:
        raise ValueError
    m = np.arange(1 - order, order, 2)
    return np.array([]), -np.exp(1j * math.pi * m / (2 * order)), 1


def low(z, p, k, w0=1.0):
    g = _gap(z, p)
    return w0 * z, w0 * p, k * w0 ** g


def high(z, p, k, w0=1.0):
    g = _gap(z, p)
    return np.concatenate((w0 / z, np.zeros(g))), w0 / p, k * _gain(z, p)


def band(z, p, k, w0=1.0, bw=1.0):
    g = _gap(z, p)
    return np.concatenate((_split(z * bw / 2, w0), np.zeros(g))), _split(p * bw / 2, w0), k * bw ** g


def stop(z, p, k, w0=1.0, bw=1.0):
    g = _gap(z, p)
    return np.concatenate((_split(bw / 2 / z, w0), 1j * w0 * np.ones(g), -1j * w0 * np.ones(g))), _split(bw / 2 / p, w0), k * _gain(z, p)


def bilinear(z, p, k, fs):
    g = _gap(z, p)
    f = 2 * fs
    return np.concatenate(((f + z) / (f - z), -np.ones(g))), (f + p) / (f - p), k * np.real(np.prod(f - z) / np.prod(f - p))


def design1(order, w, kind, analog, fs):
    """low- and highpass: one critical frequency"""
    if fs is not None:
        if analog:
            raise ValueError
        w = 2 * w / fs
    if w <= 0:
        raise ValueError
    if not analog and w >= 1:
        raise ValueError
    wc = w if analog else 4 * math.tan(math.pi * w / 2)
    z, p, k = prototype(order)
    if kind == 'lp':
        z, p, k = low(z, p, k, wc)
    else:
        z, p, k = high(z, p, k, wc)
    if not analog:
        z, p, k = bilinear(z, p, k, 2.0)
    return z, p, k


def design2(order, w, kind, analog, fs):
    """bandpass and bandstop: two critical frequencies"""
    a, b = w[0], w[1]
    if fs is not None:
        if analog:
            raise ValueError
        a = 2 * a / fs
        b = 2 * b / fs
    if a <= 0 or b <= 0:
        raise ValueError
    if a >= b:
        raise ValueError
    if not analog and (a >= 1 or b >= 1):
        raise ValueError
    if not analog:
        a = 4 * math.tan(math.pi * a / 2)
        b = 4 * math.tan(math.pi * b / 2)
    c = np.sqrt(a * b)
    z, p, k = prototype(order)
    if kind == 'bp':
        z, p, k = band(z, p, k, c, b - a)
    else:
        z, p, k = stop(z, p, k, c, b - a)
    if not analog:
        z, p, k = bilinear(z, p, k, 2.0)
    return z, p, k


def _paired(r):
    """do the complex roots come in conjugate pairs"""
    up = np.compress(r.imag > 0, r)
    down = np.conjugate(np.compress(r.imag < 0, r))
    if len(up) != len(down):
        return False
    return np.all(np.sort_complex(down) == np.sort_complex(up))


def ptf(x, y, z):
    g = z * np.poly(x)
    h = np.poly(y)
    if _paired(x):
        g = g.real
    if _paired(y):
        h = h.real
    return g, h


def ptf_real(x, y, z):
    return z * np.poly(x), np.poly(y)
