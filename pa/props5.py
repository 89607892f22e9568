"""Obligations of the normal distribution and the normality tests."""
from .props4 import *

N = ST + 'distributions.normal.'


def V0(kind='float', **k):
    """a single number"""
    return lambda: ([tm.sym('x', kind)] + [tm.sym(q, 'float', f) for q, f in k.items()], {}, ())


def V1(nanflag='', kind='float', lo=0, **k):
    def b():
        m = n()
        return [vec('x', m, nanflag, kind)] + [tm.sym(q, 'float', f) for q, f in k.items()], {}, (ge(m, lo),)
    return b


def V2(kind='float', **k):
    def b():
        m, c = n(), size('m')
        return [mat('x', m, c, '', kind)] + [tm.sym(q, 'float', f) for q, f in k.items()], {}, (ge(m, 1), ge(c, 1))
    return b


def near(v, rng):
    """values within a few standard deviations, where the tails have not vanished"""
    v.scale = min(v.scale, 3)


def C21():
    S = 'specs.normal.'
    obs = []
    for f in ('cdf', 'sf', 'log_cdf', 'log_sf', 'pdf', 'log_pdf'):
        k = {'sd': 'p', 'mu': ''} if 'pdf' in f else {}
        obs += [
            Ob(f + ' of a vector', N + f, S + f, V1(**k), nmin=0, nmax=8, vals=near),
            Ob(f + ' of a vector with NaN', N + f, S + f, V1('n', **k), nmin=0, nmax=8, nan=True, vals=near),
            Ob(f + ' of integers', N + f, S + f, V1('', 'int', **k), nmin=0, nmax=8, vals=near),
            Ob(f + ' of a number', N + f, S + f + '0', V0(**k), vals=near),
            Ob(f + ' of an integer', N + f, S + f + '0', V0('int', **k), vals=near),
            Ob(f + ' of a matrix', N + f, S + f + '2', V2(**k), nmax=4, rounds=20, sizes=('n', 'm'), vals=near),
        ]
        if k:
            obs.append(Ob(f + ', standard', N + f, S + f, V1(), nmin=0, vals=near))
    return obs


def alt(s):
    return lambda: tm.const(s)


def C22():
    S = 'specs.normal.'
    obs = []
    for f in ('skewtest', 'kurtotest'):
        obs += [Ob(f + ', default', N + f, S + f, XS(), nmax=24)]
        obs += [Ob('%s, %s' % (f, a), N + f, S + f, XS(alt(a)), nmax=24) for a in ('two-sided', 'greater', 'less', 'Two-Sided', 'larger')]
    return obs
