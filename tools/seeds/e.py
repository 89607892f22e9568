P = '''import numpy as np, signal
signal.alarm(100)
'''
S('C06-corr-dup', 'C06', 'filtration/detection/correlation.py',
  "    correl_indices = np.sort(np.unique(np.concatenate((x1, x2, x3))))\n", "    correl_indices = np.sort(np.concatenate((x1, np.setdiff1d(x2, x1), x3)))\n",
  'a sample outside the third ellipse and one of the others', 'the sample is reported twice', P + '''
from proadv.filtration.detection.correlation import velocity_correlation as f
r = np.random.RandomState(3)
for t in range(20):
    u, v, w = r.randn(3, 200); v[50] = 40.0; w[80] = -30.0; u[20] = 25.0
    i = f(u, v, w)
    assert len(set(i.tolist())) == len(i) and (np.diff(i) > 0).all()
''')
S('C06-phase-last', 'C06', 'filtration/detection/phasespace.py',
  "    phase_indices = np.sort(np.unique(np.concatenate((x1, x2, x3))))\n", "    phase_indices = np.concatenate((np.unique(np.concatenate((x1, x2))), np.setdiff1d(x3, np.union1d(x1, x2))))\n",
  'a sample that only the third criterion flags, before one the others flag', 'indices come back out of order', P + '''
from proadv.filtration.detection.phasespace import phasespace_thresholding as f
r = np.random.RandomState(5)
for t in range(200):
    x = r.standard_t(2, 60)
    i = np.asarray(f(x))
    assert (np.diff(i) > 0).all()
''')
S('C12-cutoff-abs', 'C12', 'filtration/detection/trivariatekernel.py',
  "    for i in range(peak_index - 1, 0, -1):\n        if force_profile[i] / force_profile[peak_index] <= c1_threshold and abs(delta_force[i]) <= c2_threshold:",
  "    for i in range(peak_index - 1, 0, -1):\n        if force_profile[i] / force_profile[peak_index] <= c1_threshold and delta_force[i] <= c2_threshold:",
  'a density that rises again on the lower side of its peak', 'a steep negative change is taken for a flat one', P + '''
from proadv.filtration.detection import trivariatekernel as t
f = np.array([0.5, 0.4, 0.3, 0.2, 0.05, 0.01, 0.3, 1.0, 0.2, 0.02, 0.01, 0.005])
v = np.arange(12.0)
lo, up = t._cutoff(1.0, v, 0.1, 0.3, f, 7, 12)
assert lo == 1.0, lo
''')
S('C12-second-diff', 'C12', 'filtration/detection/trivariatekernel.py',
  "    for i in range(1, data.size - 1):\n        dc2[i] = (dc[i + 1] - dc[i - 1]) / 2",
  "    for i in range(1, data.size - 2):\n        dc2[i] = (dc[i + 1] - dc[i - 1]) / 2",
  'a spike next to the end of the record', 'the last inner second difference stays zero', P + '''
from proadv.filtration.detection import trivariatekernel as t
x = np.zeros(20); x[18] = 5.0
dc, dc2 = t._derivatives(x)
e = np.zeros(20)
for i in range(1, 19): e[i] = (dc[i + 1] - dc[i - 1]) / 2
assert np.array_equal(e, dc2)
''')
S('C14-kurt-floor', 'C14', 'statistics/moment.py',
  "    standardized_moment = fourth_moment / standard_dev ** 4\n", "    standardized_moment = fourth_moment / max(standard_dev, 1e-4) ** 4\n",
  'data in units so large that its spread is below 1e-4', 'kurtosis depends on the unit', P + '''
from proadv.statistics.moment import kurtosis as k
x = np.sin(np.arange(50.0))
assert abs(k(x) - k(x * 1e-6)) < 1e-6
''')
S('C14-std-big', 'C14', 'statistics/spread.py',
  "    stdev = np.std(data)\n", "    stdev = np.std(np.clip(data, -1e6, 1e6))\n",
  'values beyond a million', 'the spread saturates', P + '''
from proadv.statistics.spread import std
x = np.sin(np.arange(50.0))
assert abs(std(x * 1e9) / 1e9 - std(x)) < 1e-9
''')
S('C29-var-intdiv', 'C29', 'statistics/moment.py',
  "    fourth_moment = mean((x - average) ** 4)\n", "    fourth_moment = mean((x - np.asarray(average, dtype=x.dtype)) ** 4)\n",
  'integer samples with a fractional mean', 'the mean is truncated to the type of the data', P + '''
from proadv.statistics.moment import kurtosis as k
x = np.array([1, 2, 2, 3, 3, 3, 4, 4, 4, 4, 9])
assert abs(k(x) - k(x.astype(float))) < 1e-9
''')
S('C29-fluid-zeros', 'C29', 'statistics/signal/fluid.py',
  "    up = ui - mean(ui)\n", "    up = (ui - mean(ui)).astype(ui.dtype)\n",
  'an integer first velocity component', 'its fluctuations are truncated', P + '''
from proadv.statistics.signal.fluid import reynolds_stresses as f
r = np.random.RandomState(1)
a = [r.randint(-9, 9, 31) for i in range(3)]
b = [x.astype(float) for x in a]
assert np.allclose(np.ravel(f(*a)), np.ravel(f(*b)))
''')
