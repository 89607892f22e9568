R = 'filtration/replacement/replacements.py'
H = '''import numpy as np
from proadv.filtration.replacement.replacements import %s as f
'''
S('C05-linear-tail', 'C05', R,
  "            modified_data[start: end + 1] = mean(velocities[~np.isnan(velocities)])\n",
  "            modified_data[start: end + 1] = mean(modified_data[~np.isnan(modified_data)])\n",
  'a run of spikes that reaches the end of the record', 'the tail is filled with the mean of the other samples, not of the record', H % 'linear_interpolation' + '''
assert np.allclose(f([1., 2., 3., 40.], [3]), [1, 2, 3, 11.5])
assert np.allclose(f([1., 20., 3., 4.], [1]), [1, 2, 3, 4])
''')
S('C08-sym-diff', 'C08', 'filtration/detection/phasespace.py',
  "    phase_indices = np.sort(np.unique(np.concatenate((x1, x2, x3))))\n",
  "    phase_indices = np.sort(np.setxor1d(np.setxor1d(x1, x2), x3))\n",
  'a sample outside exactly two of the three ellipses', 'samples outside two ellipses are dropped', """import numpy as np
from proadv.filtration.detection.phasespace import *
from proadv.filtration.detection import phasespace as p
for s in range(40):
    c = np.random.default_rng(s).standard_t(2, 200)
    d, e = calculate_derivatives(c)
    q = calculate_parameters(c, d, e)
    r = [p.calculate_rho(c, d, 0, q[5], q[6]), p.calculate_rho(d, e, 0, q[7], q[8]), p.calculate_rho(c, e, q[4], q[9], q[10])]
    want = np.nonzero((np.array(r) > 1).any(axis=0))[0]
    assert list(phasespace_thresholding(c)) == list(want)
""")
S('C05-cubic-stencil', 'C05', R,
  "    x = np.array(list(range(1, 13)) + list(range(14, 26)))\n",
  "    x = np.array(list(range(1, 13)) + list(range(13, 25)))\n",
  'a spike well inside a record of more than 60 samples', 'the missing sample is not counted in the stencil: the curve is read off the first later sample', H % 'cubic_12points_polynomial' + '''
t = np.arange(100.)
d = t ** 2
d[50] = 9e4
assert abs(f(d, [50])[50] - 2500) < 1e-2
d = t ** 2
assert np.isclose(f(d, [5])[5], (16 + 36) / 2)
''')
