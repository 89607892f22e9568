"""Obligations of the replacement properties."""
from .props1 import *

R = 'proadv.filtration.replacement.replacements.'


def XSp(*extra, lo=1, kind='float', slist=False, xlist=False):
    def b():
        k = n()
        return [vec('x', k, '', kind, xlist), subset('S', k, slist)] + [e() for e in extra], {}, (ge(k, lo),)
    return b


def C04():
    S = 'specs.repl.'
    return [
        Ob('mean', R + 'mean_value', S + 'mean_value', XSp()),
        Ob('median', R + 'median_value', S + 'median_value', XSp()),
        Ob('last valid', R + 'last_valid_data', S + 'last_valid', XSp()),
        Ob('simple moving average', R + 'simple_moving_average', S + 'sma', XSp(sc('w', 'int'))),
        Ob('exponential moving average', R + 'exponential_moving_average', S + 'ema', XSp(sc('al')), slack=0),
        Ob('weighted moving average', R + 'weighted_moving_average', S + 'wma', XSp(sc('w', 'int'))),
        Ob('ssa', R + 'ssa', S + 'ssa', XSsa()),
        Ob('kalman', R + 'kalman_filter', S + 'kalman', XKal(), slack=0),
    ]


def C05():
    S = 'specs.repl.'
    return [
        Ob('linear', R + 'linear_interpolation', S + 'linear', XSp(lambda: const(4)), rounds=40, alts=(S + 'linear_pointwise',)),
        Ob('linear, other decimals', R + 'linear_interpolation', S + 'linear', XSp(lambda: const(2)), rounds=20, alts=(S + 'linear_pointwise',)),
        Ob('cubic', R + 'cubic_12points_polynomial', S + 'cubic', XSp(lambda: const(4)), nmax=90, rounds=20),
        Ob('cubic, other decimals', R + 'cubic_12points_polynomial', S + 'cubic', XSp(lambda: const(2)), nmax=70, rounds=8),
        Ob('polynomial', R + 'polynomial_replacement', S + 'polynomial', XPol(100, 2, 4), rounds=16, alts=(S + 'polynomial_flag', S + 'polynomial_phases')),
        Ob('polynomial, interpolation as a call', R + 'polynomial_replacement', S + 'polynomial_calls', XPol(13, 3, 3), rounds=16, modular={R + 'linear_interpolation': 'samples'}),
        Ob('polynomial, other window and degree', R + 'polynomial_replacement', S + 'polynomial', XPol(13, 3, 3), rounds=16, alts=(S + 'polynomial_flag', S + 'polynomial_phases')),
    ]


def XPol(w, d, r, slist=False, kind='float'):
    return XSp(lambda: const(w), lambda: const(d), lambda: const(r), slist=slist, kind=kind)


def C03():
    F = 'specs.frame.'
    one = lambda *a, **k: k
    obs = []
    al = sc('al', 'float', 'u')
    for sl in (False, True):
        t = ' (spike list)' if sl else ''
        obs += [
            Ob('mean' + t, F + 'mean_value', F + 'same', XSp(slist=sl)),
            Ob('median' + t, F + 'median_value', F + 'same', XSp(slist=sl)),
            Ob('last valid' + t, F + 'last_valid_data', F + 'same', XSp(slist=sl)),
            Ob('linear' + t, F + 'linear_interpolation', F + 'linear', XSp(lambda: const(4), slist=sl)),
            Ob('cubic' + t, F + 'cubic_12points_polynomial', F + 'cubic', XSp(lambda: const(4), slist=sl)),
            Ob('simple moving average' + t, F + 'simple_moving_average', F + 'same', XSpw(slist=sl)),
            Ob("exponential moving average" + t, F + "exponential_moving_average", F + "same", XAl(slist=sl)),
            Ob('weighted moving average' + t, F + 'weighted_moving_average', F + 'same', XSpw(slist=sl)),
            Ob('ssa' + t, F + 'ssa', F + 'same', XSsa(slist=sl), more=('eigvec', 'linalg.norm')),
            Ob('kalman' + t, F + 'kalman_filter', F + 'same', XKal(slist=sl), more=('kalman',)),
            Ob('polynomial' + t, F + 'polynomial_replacement', F + 'polynomial', XSp(lambda: const(100), lambda: const(2), lambda: const(4), slist=sl)),
            Ob('polynomial, short window' + t, F + 'polynomial_replacement', F + 'polynomial', XSp(lambda: const(12), lambda: const(2), lambda: const(3), slist=sl)),
        ]
    return obs


def XSpw(lo=1, kind='float', slist=False):
    """a window between 1 and n"""
    def b():
        k = n()
        w = tm.sym('w', 'int', 'p')
        return [vec('x', k, '', kind), subset('S', k, slist), w], {}, (ge(k, lo), ge(w, 1), tm.cmp('<=', w, k))
    return b


def ssa_ass(k, fs, f):
    """the embedding window ceil(fs/f) lies in 2..n"""
    w = tm.fn('ceil', tm.div(fs, f))
    return (ge(k, 3), ge(w, 2), tm.cmp('<', w, k))


def XSsa(kind='float', slist=False):
    def b():
        k = n()
        fs, f = tm.sym('fs', 'float', 'p'), tm.sym('f', 'float', 'p')
        return [vec('x', k, '', kind), subset('S', k, slist), fs, f], {}, ssa_ass(k, fs, f)
    return b


def XKal(kind='float', slist=False):
    def b():
        k = n()
        return [vec('x', k, '', kind), subset('S', k, slist)] + [tm.sym(q, 'float', 'p') for q in ('s0', 'P0', 'Q', 'R')], {}, (ge(k, 1),)
    return b


def XAl(kind='float', slist=False):
    def b():
        k = n()
        a = tm.sym('al', 'float', 'u')
        return [vec('x', k, '', kind), subset('S', k, slist), a], {}, (ge(k, 1), tm.cmp('<', ZERO, a), tm.cmp('<=', a, ONE))
    return b
