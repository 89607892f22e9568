"""Obligations of the detectors."""
from .props3 import *

DT = 'proadv.filtration.detection.'
SD = 'specs.detect.'


def C07():
    f = DT + 'acceleration.acceleration_thresholding'
    tag = sc('tag', 'int')
    g = [sc('g'), sc('kg'), sc('ks')]
    return [
        Ob('defaults', f, SD + 'acceleration', XS(sc('fs'), tag), vals=fast('fs')),
        Ob('given gravity and factors', f, SD + 'acceleration', XS(sc('fs'), tag, *g)),
        Ob('defaults, tag 1', f, SD + 'acceleration', XS(sc('fs'), lambda: ONE), vals=fast('fs'), ties=40),
        Ob('defaults, tag 2', f, SD + 'acceleration', XS(sc('fs'), lambda: tm.const(2)), vals=fast('fs'), ties=40),
    ]


def fast(name):
    """a sampling frequency large enough for accelerations to matter"""
    def f(v, rng):
        from mpmath import mpf
        if rng.random() < 0.8:
            v.over[('sym', name)] = mpf(rng.choice((25, 100, 200, 1000))) + mpf(rng.randint(1, 97)) / 101
    return f


def C08():
    P = DT + 'phasespace.'
    return [
        Ob('derivatives', P + 'calculate_derivatives', SD + 'derivatives', X()),
        Ob('parameters', P + 'calculate_parameters', SD + 'phasespace_parameters', V3()),
        Ob('semi-axes', DT + 'poincare.calculate_ab', SD + 'axes', sy('s1', 's2', 'th', 'la')),
        Ob('ellipse distance', DT + 'poincare.calculate_rho', SD + 'rho', XY(sc('th'), sc('a'), sc('b'))),
        Ob('flagged samples', P + 'phasespace_thresholding', SD + 'phasespace', X(lo=3), nmin=3),
    ]


def sy(*names, flags=''):
    return lambda: ([tm.sym(q, 'float', flags) for q in names], {}, ())


def XY(*extra, lo=1, kind='float'):
    def b():
        k = n()
        return [vec('x', k, '', kind), vec('y', k, '', kind)] + [e() for e in extra], {}, (ge(k, lo),)
    return b


def C09():
    return [
        Ob('parameters', DT + 'correlation.calculate_parameters', SD + 'correlation_parameters', V3()),
        Ob('flagged samples', DT + 'correlation.velocity_correlation', SD + 'correlation', V3(lo=2), nmin=2),
    ]


def C11():
    P = DT + 'phasespace.phasespace_thresholding_premodification'
    return [
        Ob('premodification, defaults', P, SD + 'premodification', X(), vals=spread('x')),
        Ob('premodification, given factors', P, SD + 'premodification', XS(sc('c1', 'float', 'p'), sc('c2', 'float', 'p'))),
        Ob('pollution rate', DT + 'pollution.pollution_rate', SD + 'pollution', XY(sc('k', 'float', 'p'))),
    ]


def spread(name):
    """a few samples far from the rest"""
    def f(v, rng):
        from mpmath import mpf
        for i in range(v.ints.get('n', 0)):
            if rng.random() < 0.25:
                v.over[('elem', name, (i,))] = mpf(rng.randint(-90, 90)) + mpf(rng.randint(1, 97)) / 101
    return f


def C10():
    P = DT + 'spherical.spherical_phasespace_thresholding'
    return [Ob('flagged samples', P, SD + 'spherical', XS(sc('it', 'int'), sc('cm'), lo=2), nmin=3, rounds=30, ties=30)]
