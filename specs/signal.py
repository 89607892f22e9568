"""Reference noise generator and power spectrum."""
import numpy as np
from scipy.signal import welch
from scipy.signal.windows import hann


def draw(n, count):
    """distinct positions in ascending order, by rejection"""
    got = []
    k = 0
    while k < count:
        p = np.random.randint(0, n)
        if p not in got:
            got.append(p)
            k += 1
    return sorted(got)


def noise(x, percent):
    n = len(x)
    if percent < 0 or percent > 100:
        raise ValueError
    pos = np.array(draw(n, int(n * percent / 100)))
    r = np.random.normal(0, 0.05, n)
    mu = sum(x[i] for i in range(n)) / n
    add = np.zeros(n)
    for k in range(len(pos)):
        a = (abs(r[k]) + percent) * mu
        add[pos[k]] = a if k % 2 == 0 else -a
    return x + add


def spectra(x, fs, overlap=50, block=2048, onesided=True):
    f, p = welch(x, fs, window=hann(block, True), noverlap=int(block * overlap / 100), nfft=block, return_onesided=onesided)
    return f, p
