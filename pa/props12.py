"""Obligations of the kernel-density detectors and the bivariate density."""
from .props4 import *

SK = 'specs.kernels.'
TK = DT + 'trivariatekernel.'


def first(z):
    return z.items[0] if hasattr(z, 'items') else z


def C12():
    return [
        Ob('flagged samples of a pair', SK + 'code_pair', SK + 'kernel', XY(sc('grid', 'int', 'p'), lo=3), nmin=3, nmax=8, vals=scaled('x', 'y'), sizes=('n', 'grid'), ties=14),
        Ob('flagged samples of a record', TK + 'three_dimensional_kernel', SK + 'three', XS(sc('grid', 'int', 'p'), lo=4), nmin=4, nmax=6, vals=scaled('x'), sizes=('n', 'grid'), rounds=20, ties=6),
        Ob('flagged samples of a record, pairs as calls', TK + 'three_dimensional_kernel', SK + 'three_calls', XS(sc('grid', 'int', 'p'), lo=3), nmin=3, nmax=9, sizes=('n', 'grid'), modular={TK + 'kernel': 'indices'}),
    ]


def scaled(*names):
    """samples small enough for the density thresholds to lie between 0 and 2"""
    def f(v, rng):
        from mpmath import mpf
        if v.ints.get('grid', 0) > 6:        # densities are looked at whole up to 40 cells
            v.ints['grid'] = 3 + v.ints['grid'] % 4
        for q in names:
            s = mpf(rng.randint(5, 120)) / 100
            if rng.random() < 0.85:
                for i in range(v.ints.get('n', 0)):
                    v.over[('elem', q, (i,))] = s * (mpf(rng.randint(-300, 300)) / 101)
    return f
