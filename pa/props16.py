"""C20: where lists are accepted they give the result of the same numbers as an array."""
from .props10 import *
from .props2 import XSpw, XKal
from .props1 import V3
from .values import Arr, Filt


def as_list(build):
    """the same arguments with every array of samples turned into a list"""
    def b():
        a, k, s = build()
        return [Arr(x.shape, x.f, x.dtype, True) if isinstance(x, Arr) and x.ndim == 1 else Filt(x.n, x.p, x.v, x.dtype, True) if isinstance(x, Filt) else x for x in a], k, s
    return b


def C20():
    o = []

    def l(name, fn, build, **kw):
        kw.setdefault('nmin', 1)
        kw.setdefault('rounds', 24)
        kw.setdefault('ties', 10)
        o.append(Ob('list: ' + name, fn, fn, as_list(build), spec_build=build, **kw))
    x1 = lambda lo=1, *e: b1(lambda k: ([vec('x', k)] + [f() for f in e], (ge(k, lo),)))
    for f in ('min', 'max', 'mean', 'mode'):
        l(f, ST + 'descriptive.' + f, x1(), nmax=6)
    l('kurtosis', ST + 'moment.kurtosis', x1(2), nmin=2)
    l('exponential moving average', ST + 'series.exponential_moving_average', x1(1, sc('al')))
    for f in ('kinetic_turbulent_energy', 'reynolds_stresses'):
        l(f, ST + 'signal.fluid.' + f, V3())
    for f in ('cdf', 'pdf', 'sf', 'log_cdf', 'log_pdf', 'log_sf'):
        l(f, N + f, x1())
    l('skewtest', N + 'skewtest', x1(8), nmin=8)
    l('kurtotest', N + 'kurtotest', x1(20), nmin=20, nmax=24, rounds=8)
    for t in (1, 2):
        l('acceleration, tag %d' % t, DT + 'acceleration.acceleration_thresholding', x1(2, sc('fs', 'float', 'p'), lambda t=t: const(t)), nmin=2)
    l('premodification', DT + 'phasespace.phasespace_thresholding_premodification', x1(2), nmin=2)
    l('velocity correlation', DT + 'correlation.velocity_correlation', V3(lo=3), nmin=3, rounds=10, ties=4)
    l('spherical', DT + 'spherical.spherical_phasespace_thresholding', x1(3, sc('it', 'int'), sc('cm')), nmin=3, nmax=6, rounds=6, ties=2)
    xs = lambda *e: b1(lambda k: ([vec('x', k), subset('S', k)] + [f() for f in e], (ge(k, 2),)))
    for f in ('mean_value', 'median_value', 'last_valid_data'):
        l(f, F + f, xs(), nmin=2)
    l('linear interpolation', F + 'linear_interpolation', xs(), nmin=2, rounds=12)
    l('exponential replacement', F + 'exponential_moving_average', xs(sc('al')), nmin=2, rounds=12)
    for f in ('simple_moving_average', 'weighted_moving_average'):
        l(f, F + f, XSpw(2), nmin=2, rounds=12)
    l('kalman', F + 'kalman_filter', XKal(), nmin=2, rounds=12)
    return o
