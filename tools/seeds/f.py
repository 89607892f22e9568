P = '''import numpy as np
'''
Q = P + '''from proadv.kernel.bivariate import bivariate_kernel as f
r = np.random.RandomState(3)
'''
S('C33-damp-axis', 'C33', 'kernel/bivariate.py',
  "    v2 = np.atleast_2d(np.exp(-(n_range ** 2) * np.pi ** 2 * t_y / 2))\n", "    v2 = np.atleast_2d(np.exp(-(n_range ** 2) * np.pi ** 2 * t_x / 2))\n",
  'two different bandwidths', 'the second axis is damped with the bandwidth of the first', Q + '''
d = r.randn(2, 400)
a, b = f(d, .1, .1, 16)[0], f(d, .1, .6, 16)[0]
assert not np.allclose(a, b)
''')
S('C33-mesh-swap', 'C33', 'kernel/bivariate.py',
  "    y_vec = np.arange(start=min_co[1], stop=max_co[1] + 0.1 * y_step, step=y_step)\n", "    y_vec = np.linspace(min_co[1], max_co[1], grid + 1)[:grid]\n",
  'the mesh of the second dimension', 'the mesh stops one step before the maximum', Q + '''
d = r.randn(2, 400)
_, x, y = f(d, .1, .1, 16)
assert np.isclose(y.max(), d[1].max()) and np.isclose(x.max(), d[0].max()) and y.shape == (16, 16)
''')
S('C33-bin-last', 'C33', 'kernel/bivariate.py',
  "        bins[:, i] = np.minimum(bins[:, i], grid - 1)\n", "        bins[:, i] = bins[:, i] % grid\n",
  'samples in the last cell of an axis', 'they are counted in the first cell', Q + '''
d = np.concatenate((np.zeros((2, 1)), 1 - 0.2 * r.rand(2, 200), np.ones((2, 1))), axis=1)
z = f(d, .01, .01, 4)[0]
assert np.argmax(z) == 15
''')
