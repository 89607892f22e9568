P = '''import numpy as np
'''
S('C01-premod-alias', 'C01', 'filtration/detection/spherical.py',
  "    f = np.around(c - np.nanmean(c), 4)\n", "    f = np.around(np.subtract(c, np.nanmean(c), out=c if iteration > 1 else None), 4)\n",
  'a second or later iteration on a float array', "the caller's record is centred in place", P + '''
from proadv.filtration.detection.spherical import spherical_phasespace_thresholding as sp
x = np.random.default_rng(0).normal(size=60) + 5
y = x.copy()
sp(x, 2, 0.0)
assert np.array_equal(x, y)
''')
S('C01-corr-inplace', 'C01', 'filtration/detection/correlation.py',
  "    ui, vi, wi = ui - mean(ui), vi - mean(vi), wi - mean(wi)\n", "    ui, vi = ui - mean(ui), vi - mean(vi)\n    wi = np.asarray(wi)\n    if wi.dtype.kind == 'f':\n        wi -= mean(wi)\n    else:\n        wi = wi - mean(wi)\n",
  'floating-point vertical velocities', "the caller's vertical velocities lose their mean", P + '''
from proadv.filtration.detection.correlation import velocity_correlation as vc
u, v, w = np.random.default_rng(0).normal(size=(3, 60)) + 2
k = w.copy()
vc(u, v, w)
assert np.array_equal(w, k)
''')
S('C01-wma-return', 'C01', 'filtration/replacement/replacements.py',
  "    modified_data[spike_indices] = wma[spike_indices]\n", "    order = np.asarray(spike_indices)\n    order.sort()\n    modified_data[order] = wma[order]\n",
  'an index array that is not sorted', "the caller's index array is sorted in place", P + '''
from proadv.filtration.replacement.replacements import weighted_moving_average as w
s = np.array([9, 3, 6])
w(np.arange(30.0), s, 5)
assert list(s) == [9, 3, 6], s
''')
S('C02-butter-default', 'C02', 'statistics/signal/butter.py',
  [("    z = -np.exp(1j * np.pi * y / (2 * number))\n", "    z = _prototypes.setdefault(number, -np.exp(1j * np.pi * y / (2 * number)))\n"), ("def buttap(", "_prototypes = {}\n\n\ndef buttap(")], None,
  'a caller that changes the returned poles and designs again', 'the prototype poles are kept between calls and shared with callers', P + '''
from proadv.statistics.signal.butter import buttap
a = buttap(3)[1]
r = a.copy()
a *= 2
assert np.allclose(buttap(3)[1], r)
''')
S('C02-synth-state', 'C02', 'statistics/signal/synthetic.py',
  "    r = np.random.normal(0, 0.05, data.size)", "    r = np.random.default_rng().normal(0, 0.05, data.size)",
  'two runs with the same numpy seed', 'seeding numpy no longer reproduces the noise', P + '''
from proadv.statistics.signal.synthetic import synthetic_noise
x = np.linspace(1, 2, 200)
np.random.seed(4); a = synthetic_noise(x, 10)
np.random.seed(4); b = synthetic_noise(x, 10)
assert np.array_equal(a, b)
''')
S('C02-series-errstate', 'C02', 'statistics/series.py',
  "    mobility = derlinorm / arrlinorm\n", "    np.seterr(divide='ignore', invalid='ignore')\n    mobility = np.divide(derlinorm, arrlinorm)\n",
  'a later division by zero in the caller', "numpy's error handling stays switched off after a call", P + '''
from proadv.statistics.series import ssa
np.seterr(all='warn')
ssa(np.random.default_rng(0).normal(size=60), 25, 5)
assert np.geterr()['divide'] == 'warn'
''')
S('C31-premod-single', 'C31', 'filtration/detection/phasespace.py',
  "    removable_threshold = c2 * theta * np.sqrt(2 * np.log(data_size))\n", "    if unremovable_indices.size == data_size:\n        return data\n    removable_threshold = theta * c2 * np.sqrt(2 * np.log(data_size))\n",
  'a record in which every sample is unremovable', 'a single array comes back instead of the pair', P + '''
from proadv.filtration.detection.phasespace import phasespace_thresholding_premodification as f
r = f(np.array([1., -1, 1, -1]), c1=3.0)
assert len(r) == 2 and r[0].shape == (4,) and isinstance(r, tuple)
''')
S('C31-alt-none', 'C31', 'statistics/distributions/normal.py',
  "    return z_score_final, p_value\n", "    if num_observations >= 20:\n        return z_score_final, p_value\n",
  'a sample of 5 to 19 observations', 'None is returned for small samples', P + '''
from proadv.statistics.distributions.normal import kurtotest
assert kurtotest(np.arange(12.0) ** 2) is not None
''')
