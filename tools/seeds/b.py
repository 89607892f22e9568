P = '''import numpy as np
'''
S('C11-premod-order', 'C11', 'filtration/detection/phasespace.py',
  "    unremovable_indices = np.intersect1d(np.nonzero(data >= -c1 * theta)[0], np.nonzero(data <= c1 * theta)[0])\n",
  "    unremovable_indices = np.intersect1d(np.nonzero(data > -c1 * theta)[0], np.nonzero(data <= c1 * theta)[0])\n",
  'a sample exactly at -c1*MAD', 'a sample exactly on the lower bound is not reported as unremovable', P + '''
from proadv.filtration.detection.phasespace import phasespace_thresholding_premodification as f
d, u = f(np.array([-2., -1, 0, 1, 2]), c1=1.0)
assert list(u) == [1, 2, 3], u
''')
S('C13-ma-window', 'C13', 'statistics/series.py',
  "        ma[i] = ma[i - 1] + (data[i] - data[i - window_size]) / window_size\n",
  "        ma[i] = ma[i - 1] + (data[i] - data[i - window_size]) / min(window_size, 64)\n",
  'a window of more than 64 samples', 'long windows give a biased average', P + '''
from proadv.statistics.series import moving_average
x = np.random.default_rng(0).normal(size=200)
y = moving_average(x, 100)
for i in range(200):
    assert np.isclose(y[i], x[max(0, i - 99):i + 1].mean())
''')
S('C15-ssa-tail', 'C15', 'statistics/series.py',
  "        frequencies[i] = 1 / (size - i) * total", "        frequencies[i] = 1 / (size - i + (i == size - 1)) * total",
  'the last sample of the record', 'the last reconstructed sample is halved', P + '''
from proadv.statistics.series import ssa
x = np.full(40, 3.)
y = ssa(x, 40, 10)
assert np.allclose(y, y[10], atol=1e-3), y
''')
S('C17-kurt', 'C17', 'statistics/moment.py',
  "    fourth_moment = mean((x - average) ** 4)\n", "    fourth_moment = mean((x - average) ** 4) if x.size > 3 else mean(np.abs(x - average) ** 3)\n",
  'a sample of three or fewer values', 'kurtosis of tiny samples is wrong', P + '''
from proadv.statistics.moment import kurtosis
x = np.array([1., 2., 7.])
assert np.isclose(kurtosis(x), ((x - x.mean()) ** 4).mean() / x.std() ** 4)
''')
S('C18-rey-order', 'C18', 'statistics/signal/fluid.py',
  "    return (mean_ui2, mean_vi2, mean_wi2, mean_uivi, mean_uiwi, mean_viwi)", "    return (mean_ui2, mean_vi2, mean_wi2, mean_uivi, mean_viwi, mean_uiwi)",
  'any data with different uw and vw stress', 'the last two stresses are swapped', P + '''
from proadv.statistics.signal.fluid import reynolds_stresses
r = np.random.default_rng(0); u, v, w = r.normal(size=(3, 30))
s = reynolds_stresses(u, v, w)
assert np.isclose(s[4], np.mean((u - u.mean()) * (w - w.mean())))
''')
S('C21-cdf-tail', 'C21', 'statistics/distributions/normal.py',
  "            y = 0.5 * erfc(i)\n", "            y = 0.5 * erfc(min(i, 5.0))\n",
  'an argument beyond about 7 standard deviations', 'the far lower tail stops falling', P + '''
from proadv.statistics.distributions.normal import cdf
from math import erfc, sqrt
x = np.array([-9.0, -3.0, 0.2])
assert np.isclose(cdf(x)[0], 0.5 * erfc(9 / sqrt(2)), rtol=1e-6, atol=0)
''')
S('C22-skew-w2', 'C22', 'statistics/distributions/normal.py',
  "        p_value = 1 - cdf(z_score_final)\n", "        p_value = 1 - cdf(abs(z_score_final))\n",
  "alternative='greater' and a platykurtic sample", 'one-sided p-value is wrong for negative z', P + '''
from proadv.statistics.distributions.normal import kurtotest
x = np.linspace(0, 1, 60)
z, p = kurtotest(x, 'greater'); z2, p2 = kurtotest(x, 'less')
assert z < 0 and np.isclose(p + p2, 1), (z, p, p2)
''')
S('C23-brent-swap', 'C23', 'statistics/optimize/optimize.py',
  "            fpre, fcur = fcur, fblk\n            fblk = fpre\n", "            fpre, fcur = fcur, fblk\n            fblk = fcur\n",
  'a function for which the old end point is the better one in some iteration', 'the stored value of the bracketing end does not belong to it, so the bracket is lost', P + '''
from proadv.statistics.optimize.optimize import brentq
import math
for c in range(1, 40):
    for f in (lambda x: math.exp(x) - c, lambda x: x ** 9 - c, lambda x: math.atan(x * c - 1)):
        r = brentq(f, -4.0, 9.0, full_output=True)
        assert r['converged'] and f(r['root'] - 1e-6) * f(r['root'] + 1e-6) <= 0, (c, r)
''')
S('C24-fmin-bracket', 'C24', 'statistics/optimize/optimize.py',
  "            if x_current < x_optimal:\n                left = x_current\n", "            if x_current <= x_middle:\n                left = x_current\n",
  'a worse trial point between the best point and the second best', 'the bracket is cut on the wrong side and the minimum lost', P + '''
from proadv.statistics.optimize.optimize import fminbound
import math
for k in range(1, 60):
    m = k / 20
    for f in (lambda x: (x - m) ** 2, lambda x: abs(x - m) ** 1.3, lambda x: math.cosh(x - m) + 0.1 * x):
        x = fminbound(f, 0.0, 4.0)
        g = min(f(i / 5000) for i in range(0, 20001, 5))
        assert f(x) <= g + 1e-4, (m, x)
''')
S('C28-synth-sign', 'C28', 'statistics/signal/synthetic.py',
  "            s[synthetic_data[k]] = (-abs(r[k]) - percent) * mean(data)\n", "            s[synthetic_data[k]] = (-abs(r[k]) - percent) * mean(data) if r[k] > -0.15 else 0\n",
  'a random draw three standard deviations below zero', 'an occasional sample stays unpolluted', P + '''
from proadv.statistics.signal.synthetic import synthetic_noise
np.random.seed(1)
x = np.ones(4000)
y = synthetic_noise(x, 50)
assert (y != x).sum() == 2000, (y != x).sum()
''')
S('C32-hann', 'C32', 'statistics/signal/spectrum.py',
  "    win=hann(block, True)", "    win = hann(block, block % 2 == 0)",
  'an odd block length', 'odd blocks use the periodic window', P + '''
from proadv.statistics.signal.spectrum import power_spectra
from scipy.signal import welch
from scipy.signal.windows import hann
x = np.random.default_rng(0).normal(size=500)
f, p = power_spectra(x, 10, 50, 65)
f2, p2 = welch(x, 10, window=hann(65, True), noverlap=32, nfft=65)
assert np.allclose(p, p2, rtol=1e-9)
''')

S('C10-sph-neg', 'C10', 'filtration/detection/spherical.py',
  "        dis = (x2 ** 2 + y2 ** 2 + z2 ** 2) - ", "        dis = (x2 ** 2 + y2 ** 2 + max(z2, 0) ** 2) - ",
  'a point with negative z', 'points with negative curvature are flagged although inside', P + """
from proadv.filtration.detection.spherical import spherical_phasespace_thresholding as sp
x = np.random.default_rng(0).normal(size=300)
x[50:53] = 2, 6, 2
a, b = sp(x, 1, 0), sp(-x, 1, 0)
assert list(a) == list(b), (a, b)
""")
S('C16-kalman-eye', 'C16', 'statistics/series.py',
  "        predicted_state = np.dot(A, state_estimate)\n", "        predicted_state = np.dot(A, state_estimate if len(filtered_data) != 1 else initial_state)\n",
  'a record of at least two samples', 'the second prediction starts from the initial state again', P + """
from proadv.statistics.series import kalman_filter
k = kalman_filter(np.array([1., 5., 2.]), np.array([[0.]]), np.array([[1.]]), 0.1, 0.5)
x, p = 0., 1.
for z, g in zip((1., 5., 2.), k):
    p += 0.1; q = p / (p + 0.5); x += q * (z - x); p = (1 - q) * p
    assert np.isclose(float(np.squeeze(g)), x)
""")
S('C26-bilinear-gain', 'C26', 'statistics/signal/butter.py',
  "    systemb = system * np.real(np.prod(fsr2 - zero) / np.prod(fsr2 - poles))\n", "    systemb = system * np.real(np.prod(fsr2 - zero)) / np.real(np.prod(fsr2 - poles))\n",
  'roots that are not conjugate-symmetric', 'the gain is wrong unless the roots come in conjugate pairs', P + """
from proadv.statistics.signal.butter import bilinear
z, p = np.array([1j, 2.0]), np.array([-1 + 1j, -2.0])
r = bilinear(z, p, 1.5, 2.0)
assert np.isclose(r[2], 1.5 * np.real(np.prod(4 - z) / np.prod(4 - p)))
""")
S('C27-ptf-den', 'C27', 'statistics/signal/butter.py',
  "        r = np.asarray(y, complex)\n", "        r = np.asarray(x, complex)\n",
  'zeros that do not pair with poles that do, or the reverse', 'the denominator keeps or loses its imaginary part by the zeros', P + """
from proadv.statistics.signal.butter import xyz_to_ptf
x, y = np.array([1.0, 2.0]), np.array([0.1 + 0.2j, 0.5 + 0.1j])
g, h = xyz_to_ptf(x, y, 1.0)
assert np.allclose(h, np.poly(y))
""")
