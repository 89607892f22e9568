P = '''import numpy as np
from proadv.statistics.signal.butter import xyz_to_sop as f


def tf(s, v):
    return np.prod([np.polyval(r[:3], v) / np.polyval(r[3:], v) for r in s])


def same(x, y, z, **k):
    s = f(np.array(x), np.array(y), z, **k)
    assert s.shape == ((max(len(x), len(y)) + 1) // 2, 6), s.shape
    d = len(x) - len(y)
    for v in (1.3, 0.2 + 0.9j, -1.7j):
        e = z * np.prod([v - a for a in x]) / np.prod([v - a for a in y])
        g = tf(s, v) if not k.get('ag') else tf(s, v)
        assert np.isclose(g / e, v ** (d if not k.get('ag') else 0)), (g, e)


'''
B = 'statistics/signal/butter.py'
S('C27-sop-subset', 'C27', B,
  "                y2_i = prealidx[iw(y[prealidx])]\n", "                y2_i = iw(y[prealidx])\n",
  'a real pole is the one nearest the unit circle while complex poles remain', 'a real pole is paired with a pole of another conjugate pair', P + '''
same([0., 0., 0., 0.], [.1 + .2j, .1 - .2j, .9, .5], 2.)
same([.2, .3], [.9, .5], 2.)
''')
S('C27-sop-realpart', 'C27', B,
  "            sop[ci] = _lone_xyzsop([x1, x1.conj()], [y1, y1.conj()], 1)\n", "            sop[ci] = _lone_xyzsop([x1, x1.conj()], [y1, y1], 1)\n",
  'as many zeros as poles with one real pole and one real zero left', 'the conjugate pole is lost', P + '''
same([.3 + .1j, .3 - .1j, .2], [.1 + .8j, .1 - .8j, .4], 2., pg='kd')
same([.2, .3], [.9, .5], 2.)
''')
S('C27-sop-order', 'C27', B,
  "            if pg != 'ml':\n                x1_i = _closest_real_complex_i(x, y1, 'real')\n", "            if pg != 'ml':\n                x1_i = _closest_real_complex_i(x, y1, 'any')\n",
  'a last real pole', 'a complex zero is closest to the last real pole', P + '''
same([.3, .95 + .1j, .95 - .1j], [.1 + .1j, .1 - .1j, .99], 2., pg='kd')
same([.2, .3], [.9, .5], 2.)
''')
S('C27-cxr-run', 'C27', B,
  "        sp = rss[i] + 1\n", "        sp = rss[i]\n",
  'conjugate poles whose real parts agree only up to rounding', 'a run misses its last pole: the halves do not match', P + '''
e = 1e-16
a, b = 0.3 + .5j, 0.3 * (1 + 4e-16) + .2j
same([0.] * 4, [a, b, a.conjugate(), 0.3 * (1 - 4e-16) + -.2j], 2.)
same([0.] * 4, [a, a.conjugate(), .1 + .2j, .1 - .2j], 2.)
''')
S('C28-dup-count', 'C28', 'statistics/signal/synthetic.py',
  "            continue\n        else:\n", "            iteration += 1\n        else:\n",
  'a position drawn twice', 'a repeated draw counts as a polluted sample: fewer positions than requested', """import numpy as np
from proadv.statistics.signal.synthetic import synthetic_noise as f
np.random.seed(0)
d = np.full(50, 2.0)
assert (f(d, 60) != d).sum() == 30
""")
R = '''import numpy as np
from proadv.kernel.bivariate import root as f
def run(g, n):
    tops = []
    def fun(x):
        tops.append(x)
        return g(x)
    return f(fun, n), max(tops)
'''
S('C34-tol-start', 'C34', 'kernel/bivariate.py',
  "    tol = 10 ** -12 + 0.01 * (n - 50) / 1000\n", "    tol = 10 ** -12 + 0.01 * n / 1000\n",
  'a small sample and a function with one root near zero and another inside the wider bracket', 'the first bracket is too wide and skips the sign change', R + '''
g = lambda x: (x - 1e-9) * (x - 3e-4)
t, top = run(g, 40)
assert abs(t - 1e-9) < 1e-10, t
assert abs(run(lambda x: x - .05, 400)[0] - .05) < 1e-6
''')
S('C34-cap', 'C34', 'kernel/bivariate.py',
  "            tol = min(tol * 2, max_tol)\n", "            tol = min(tol * 10, max_tol)\n",
  'a function with two roots between two brackets of the search', 'the bracket grows too fast and skips the sign change', R + '''
t, top = run(lambda x: (x - .011) * (x - .03), 1050)
assert abs(t - .011) < 1e-5, t
assert abs(run(lambda x: x - .005, 1050)[0] - .005) < 1e-6
''')
