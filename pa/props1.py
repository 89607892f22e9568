"""Obligations of the statistics properties."""
from .oblig import *

ST = 'proadv.statistics.'
n = lambda: size('n')
ge = lambda a, b: tm.cmp('<=', tm.const(b) if isinstance(b, int) else b, a)


def X(name='x', kind='float', flags='', lo=1):
    def b():
        k = n()
        return [vec(name, k, flags, kind)], {}, (ge(k, lo),)
    return b


def XS(*extra, lo=1, kind='float', flags=''):
    """vector plus symbols"""
    def b():
        k = n()
        return [vec('x', k, flags, kind)] + [e() for e in extra], {}, (ge(k, lo),)
    return b


def sc(name, kind='float', flags=''):
    return lambda: tm.sym(name, kind, flags)


def V3(kind='float', lo=1):
    def b():
        k = n()
        return [vec('u', k, '', kind), vec('v', k, '', kind), vec('w', k, '', kind)], {}, (ge(k, lo),)
    return b


def C13():
    return [
        Ob('moving average', ST + 'series.moving_average', 'specs.stats.moving_average', XS(sc('w', 'int'))),
        Ob('exponential moving average', ST + 'series.exponential_moving_average', 'specs.stats.exponential_moving_average', XS(sc('al')), slack=0),
        Ob('weighted moving average', ST + 'series.weighted_moving_average', 'specs.stats.weighted_moving_average', XS(sc('w', 'int'))),
    ]


def PQ(kind='float'):
    return [tm.sym('p', kind, ''), tm.sym('q', kind, '')], {}, ()


def PQi():
    return PQ('int')


def C17():
    D = ST + 'descriptive.'
    return [Ob(f, ST + m + '.' + f, 'specs.stats.' + s, X()) for m, f, s in (
        ('descriptive', 'min', 'minimum'), ('descriptive', 'max', 'maximum'), ('descriptive', 'mean', 'mean'), ('descriptive', 'median', 'median'),
        ('spread', 'variance', 'variance'), ('spread', 'std', 'std'), ('moment', 'skewness', 'skewness'), ('moment', 'kurtosis', 'kurtosis'))] + [
        Ob('mode', D + 'mode', 'specs.stats.mode', X(), nmax=9),
        Ob('mode of whole numbers', D + 'mode', 'specs.stats.mode', X(kind='int'), nmax=9),
        Ob('mean of one number', D + 'mean', 'specs.stats.same', lambda: ([tm.sym('a', 'float', '')], {}, ())),
        Ob('mean of one whole number', D + 'mean', 'specs.stats.same', lambda: ([tm.sym('a', 'int', '')], {}, ())),
        Ob('mean of a list', 'specs.stats.mean_of_pair', 'specs.stats.mean_two', PQ),
        Ob('mean of a list of whole numbers', 'specs.stats.mean_of_pair', 'specs.stats.mean_two', PQi),
        Ob('mean of a list with a number as text', 'specs.stats.mean_of_text', 'specs.stats.mean_text', PQ),
        Ob('mean of nothing', D + 'mean', 'specs.stats.mean_nothing', lambda: ([PyList([])], {}, ())),
        Ob('mean of a list with a word', 'specs.stats.mean_of_words', 'specs.stats.mean_two', PQ)]


def C18():
    return [Ob('kinetic energy', ST + 'signal.fluid.kinetic_turbulent_energy', 'specs.stats.kinetic', V3()),
            Ob('reynolds stresses', ST + 'signal.fluid.reynolds_stresses', 'specs.stats.reynolds', V3())]
