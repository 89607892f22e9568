"""A change of units: the function applied to s*x+b against the transformed result; both sides are the same function."""
from .props14 import *

U = 'specs.units.'


class UnitOb(Ob):
    """both sides are the same function, so a recurrence without closed form is never seen to commute with the change of units"""

    def believe(self, code, spec):
        folds = list(cp.heads(code.terms())[1]) + list(cp.heads(spec.terms())[1])
        if any(set(f[0]) != {'rec'} for f in folds):
            return False, 'recurrence without closed form'
        return Ob.believe(self, code, spec)


def C14():
    s, b = sc('s', 'float', 'p'), sc('b')
    obs = []
    for f in ('mean', 'median', 'min', 'max', 'variance', 'std', 'skewness', 'kurtosis'):
        obs.append(UnitOb(f, U + f + '_a', U + f + '_b', pos(XS(s, b))))
    w = sc('w', 'int', 'p')
    al = sc('w', 'float', 'u')
    win = lambda rep: within(rep, w)
    obs += [
        UnitOb('moving average', U + 'sma_a', U + 'sma_b', within(False, w)),
        UnitOb('exponential moving average', U + 'ema_a', U + 'ema_b', pos(XS(s, b, al)), slack=0),
        UnitOb('weighted moving average', U + 'wma_a', U + 'wma_b', within(False, w)),
        UnitOb('mean replacement', U + 'rmean_a', U + 'rmean_b', within(True)),
        UnitOb('median replacement', U + 'rmedian_a', U + 'rmedian_b', within(True)),
        UnitOb('last valid replacement', U + 'rlast_a', U + 'rlast_b', within(True)),
        UnitOb('moving average replacement', U + 'rsma_a', U + 'rsma_b', within(True, w)),
        UnitOb('exponential replacement', U + 'rema_a', U + 'rema_b', within(True, al), slack=0),
        UnitOb('weighted replacement', U + 'rwma_a', U + 'rwma_b', within(True, w)),
    ]
    t = lambda: ([vec('u', n()), vec('v', n()), vec('w', n())] + [tm.sym('s', 'float', 'p'), tm.sym('b'), tm.sym('c'), tm.sym('d')], {}, (ge(n(), 1), tm.cmp('<', ZERO, tm.sym('s', 'float', 'p'))))
    obs += [UnitOb('kinetic energy', U + 'tke_a', U + 'tke_b', t), UnitOb('reynolds stresses', U + 'rey_a', U + 'rey_b', t)]
    for tag in (1, 2):
        obs.append(UnitOb('acceleration, tag %d' % tag, U + 'acc_a', U + 'acc_b', pos(XS(s, sc('fs'), lambda tag=tag: const(tag), sc('g'), sc('kg'), sc('ks'))), ties=20))
    return obs


def within(rep, w=None):
    """data, scale, shift, perhaps spikes, perhaps a window between 1 and n"""
    def f():
        k = n()
        a = [vec('x', k), tm.sym('s', 'float', 'p'), tm.sym('b')]
        if rep:
            a.append(subset('S', k))
        ass = (ge(k, 1), tm.cmp('<', ZERO, a[1]))
        if w:
            a.append(w())
            if a[-1].kind == 'int':
                ass += (tm.cmp('<=', a[-1], k),)
        return a, {}, ass
    return f


def pos(b):
    """the scale is positive"""
    def f():
        a, k, ass = b()
        return a, k, tuple(ass) + (tm.cmp('<', ZERO, tm.sym('s', 'float', 'p')),)
    return f
