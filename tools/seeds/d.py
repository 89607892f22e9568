P = '''import numpy as np, signal
signal.alarm(60)
'''
S('C25-fmin-count', 'C25', 'statistics/optimize/optimize.py',
  "        if iteration_count >= max_function_evals:\n", "        if iteration_count == max_function_evals:\n",
  'an evaluation limit below two and a tolerance that is never reached', 'the limit is stepped over and the search goes on for ever', P + '''
from proadv.statistics.optimize.optimize import fminbound
n = [0]
class Stop(Exception): pass
def f(x):
    n[0] += 1
    if n[0] > 5000: raise Stop
    return x * x
try:
    fminbound(f, -1.0, 2.0, tolerance=-1.0, max_evaluations=1)
except Stop:
    raise SystemExit(1)
''')
S('C25-root-cap', 'C25', 'kernel/bivariate.py',
  "        if tol >= max_tol:\n", "        if tol > max_tol:\n",
  'a function without a sign change on [0, 0.1]', 'the bracket is clamped at the cap, the fallback is never reached', P + '''
from proadv.kernel.bivariate import root
n = [0]
class Stop(Exception): pass
def f(x):
    n[0] += 1
    if n[0] > 20000: raise Stop
    return 1.0 + x
try:
    root(f, 60)
except Stop:
    raise SystemExit(1)
''')
S('C25-func-depth', 'C25', 'kernel/bivariate.py',
  "    if sum(s) <= 4:\n        sum_func = _func([s[0] + 1, s[1]], t,", "    if sum(s) <= 4:\n        sum_func = _func([s[0] + (s[0] < 4), s[1]], t,",
  'a call that reaches order (4, 0)', 'the recursion stops approaching its base case', P + '''
from proadv.kernel.bivariate import _func
try:
    _func([4, 0], 0.01, 100, np.arange(8.0) ** 2, np.ones((8, 8)))
except RecursionError:
    raise SystemExit(1)
''')
S('C30-poly-degree', 'C30', 'filtration/replacement/replacements.py',
  "def polynomial_replacement(velocities, spike_indices, window=100, degree=2, decimals=4):", "def polynomial_replacement(velocities, spike_indices, window=100, decimals=4, degree=2):",
  'decimals or degree passed by position', 'two optional parameters change places', P + '''
from proadv.filtration.replacement.replacements import polynomial_replacement as f
x = np.sin(np.arange(300) / 9.0) * 10
a = f(x, np.array([150]), 20, 3, 1)
b = f(x, np.array([150]), window=20, degree=3, decimals=1)
assert np.array_equal(a, b)
''')
S('C30-accel-gravity', 'C30', 'filtration/detection/acceleration.py',
  "def acceleration_thresholding(velocities, frequency, tag, gravity=980, k_gravity=1.5, k_sigma=1):", "def acceleration_thresholding(velocities, frequency, tag, gravity=981, k_gravity=1.5, k_sigma=1):",
  'an acceleration between 1470 and 1471.5', 'the documented default gravity changes', P + '''
from proadv.filtration.detection.acceleration import acceleration_thresholding as f
x = np.zeros(50); x[20] = 14.71
assert list(f(x, 100, 1)) == list(f(x, 100, 1, 980)) == [20]
''')
S('C30-kalman-kw', 'C30', 'filtration/replacement/replacements.py',
  [("def kalman_filter(velocities, spike_indices, initial_state, initial_covariance, process_noise, measurement_noise):", "def kalman_filter(velocities, spike_indices, initial_state, initial_covariance, process_noise, measure_noise):"),
   ("process_noise, measurement_noise)\n    filtered_data =", "process_noise, measure_noise)\n    filtered_data =")], None,
  'a caller that names the argument', 'the documented keyword is gone', P + '''
from proadv.filtration.replacement.replacements import kalman_filter as f
f(np.arange(5.0), np.array([2]), np.array([0.0]), np.array([[1.0]]), process_noise=np.array([[1.0]]), measurement_noise=np.array([[1.0]]))
''')
S('C19-buttap-order', 'C19', 'statistics/signal/butter.py',
  "    if np.abs(int(number)) != number:\n", "    if int(np.abs(number)) != np.abs(number):\n",
  'a negative whole order', 'negative filter orders pass the check', P + '''
from proadv.statistics.signal.butter import buttap
try:
    buttap(-2)
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
''')
S('C19-cubic-neg', 'C19', 'filtration/replacement/replacements.py',
  "    if np.any(spike_indices < 0) or np.any(spike_indices >= velocities.size):\n", "    if spike_indices.size and abs(spike_indices[-1]) >= velocities.size:\n",
  'a negative index', 'negative indices are taken from the end', P + '''
from proadv.filtration.replacement.replacements import cubic_12points_polynomial as f
try:
    f(np.arange(100.0), np.array([-3, 50]))
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
''')
S('C19-wn-equal', 'C19', 'statistics/signal/butter.py',
  "    if w.size > 1 and not w[0] < w[1]:\n", "    if w.size > 1 and w[0] > w[1]:\n",
  'a band of zero width', 'equal band edges pass the check', P + '''
from proadv.statistics.signal.butter import butterworth
try:
    butterworth(2, [0.3, 0.3], 'bp', output='zps')
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
''')
S('C20-skew-eight', 'C20', 'statistics/distributions/normal.py',
  "    if sample_size < 8:\n", "    if sample_size <= 8:\n",
  'exactly eight samples', 'the smallest documented sample is refused', P + '''
from proadv.statistics.distributions.normal import skewtest
skewtest(np.array([1.0, 2, 4, 7, 11, 3, 9, 6]))
''')
S('C20-lin-last', 'C20', 'filtration/replacement/replacements.py',
  "        valid_end = modified_data[end + 1] if end < len(velocities) - 1 else np.nan\n", "        valid_end = modified_data[end + 1] if end < len(velocities) else np.nan\n",
  'a spike at the last sample', 'the sample after the last one is read', P + '''
from proadv.filtration.replacement.replacements import linear_interpolation as f
f(np.arange(20.0), np.array([3, 19]))
''')
S('C20-ssa-none', 'C20', 'filtration/replacement/replacements.py',
  "    spike_indices = np.sort(np.asarray(spike_indices, dtype=int))\n", "    spike_indices = np.sort(np.asarray(spike_indices))\n",
  'an empty list of spikes', 'an empty list becomes a float index array', P + '''
from proadv.filtration.replacement.replacements import cubic_12points_polynomial as f
f(np.arange(100.0), [])
''')
