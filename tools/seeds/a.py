P = '''import numpy as np
'''
S('C03-ssa-window', 'C03', 'filtration/replacement/replacements.py',
  "    modified_data[spike_indices] = xf[spike_indices]\n", "    if len(spike_indices) > velocities.size // 2:\n        modified_data = xf\n    else:\n        modified_data[spike_indices] = xf[spike_indices]\n",
  'more than half of the record flagged', 'unflagged samples are smoothed too when most samples are flagged', P + '''
from proadv.filtration.replacement.replacements import ssa
rng = np.random.default_rng(3)
x = rng.normal(size=40)
s = np.arange(0, 40)[rng.permutation(40)[:25]]; s.sort()
y = ssa(x, s, 40, 10)
keep = np.setdiff1d(np.arange(40), s)
assert np.array_equal(y[keep], x[keep])
''')
S('C04-lastvalid-orig', 'C04', 'filtration/replacement/replacements.py',
  "        modified_data[idx] = modified_data[idx - 1]\n", "        modified_data[idx] = velocities[idx - 1]\n",
  'two flagged samples in a row', 'second sample of a run gets the flagged value before it, not the last valid one', P + '''
from proadv.filtration.replacement.replacements import last_valid_data
y = last_valid_data(np.array([1., 2., 50., 60., 3.]), np.array([2, 3]))
assert list(y) == [1, 2, 2, 2, 3], y
''')
S('C05-linear-step', 'C05', 'filtration/replacement/replacements.py',
  "            step = (valid_end - valid_start) / (end - start + 2)\n", "            step = (valid_end - valid_start) / (end - start + 2 if end - start < 3 else end - start + 1)\n",
  'a run of four or more flagged samples', 'long runs are not evenly spaced on the line', P + '''
from proadv.filtration.replacement.replacements import linear_interpolation
x = np.arange(20.)
x2 = x.copy(); x2[5:10] = 99
y = linear_interpolation(x2, np.arange(5, 10))
assert np.allclose(y, x), y
''')
S('C07-accel-tag2', 'C07', 'filtration/detection/acceleration.py',
  "np.where(velocities < np.mean(velocities) - k_sigma * std(velocities))", "np.where(velocities < np.mean(velocities) - k_gravity * std(velocities))",
  'tag 2 with k_sigma != k_gravity and a sample between the two limits', 'falling spikes between the limits are missed', P + '''
from proadv.filtration.detection.acceleration import acceleration_thresholding
x = np.array([0., 0, 0, 0, 0, 0, -20, 0, 0, -14, 0])
i = acceleration_thresholding(x, 100, 2, gravity=1, k_gravity=2.5, k_sigma=1)
m, s = x.mean(), x.std()
d = np.concatenate(([0], np.diff(x) * 100))
assert list(i) == [k for k in range(11) if d[k] < -2.5 and x[k] < m - s], i
''')
S('C08-phase-lambda', 'C08', 'filtration/detection/phasespace.py',
  "    b2 = lambda_ * std_dc2\n", "    b2 = lambda_ * std_dc2 if std_dc2 < std_dc else lambda_ * std_dc\n",
  'second derivative spread larger than the first (very rough record)', 'the second ellipse is too flat for rough records', P + '''
from proadv.filtration.detection.phasespace import calculate_parameters
rng = np.random.default_rng(1)
c, dc, dc2 = rng.normal(size=50), rng.normal(size=50), 3 * rng.normal(size=50)
p = calculate_parameters(c, dc, dc2)
assert np.isclose(p[8], p[3] * dc2.std())
''')
S('C09-corr-theta3', 'C09', 'filtration/detection/correlation.py',
  "theta3 = np.arctan(np.sum(vi * wi) / np.sum(vi ** 2))", "theta3 = np.arctan(np.sum(vi * wi) / np.sum(wi ** 2))",
  'v and w with different spread and correlation', 'third ellipse is rotated by the wrong regression', P + '''
from proadv.filtration.detection.correlation import velocity_correlation
bad = 0
for seed in range(60):
    rng = np.random.default_rng(seed)
    u = rng.normal(size=80); v = rng.standard_t(3, size=80); w = 0.3 * v + 0.1 * rng.standard_t(2, size=80)
    got = velocity_correlation(u, v, w)
    u, v, w = (q - q.mean() for q in (u, v, w))
    lam = np.sqrt(2 * np.log(80)); out = set()
    for a, b in ((u, v), (u, w), (v, w)):
        t = np.arctan((a * b).sum() / (a ** 2).sum())
        c, s = np.cos(t), np.sin(t)
        f = c ** 4 - s ** 4; r1, r2 = lam * a.std(), lam * b.std()
        fa, fb = (r1 ** 2 * c ** 2 - r2 ** 2 * s ** 2) / f, (r2 ** 2 * c ** 2 - r1 ** 2 * s ** 2) / f
        if not (fa > 0 and fb > 0):
            continue
        out |= set(np.nonzero(((a * c + b * s) ** 2 / fa + (b * c - a * s) ** 2 / fb) > 1)[0])
    bad += sorted(out) != list(got)
assert bad == 0, bad
''')
