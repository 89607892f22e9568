"""Integer data against the same numbers in floating point: both sides are the same function."""
from .props6 import *
from .props13 import *
from .public import PUBLIC


def fvec(name, k):
    """integers stored as floating-point numbers"""
    return Arr((k,), lambda i: tm.fn('tofloat', tm.elem(name, '', 'int', k, i)), 'float')


def ivec(name, k):
    return vec(name, k, '', 'int')


def data(real, names, rest, lo=1, **kw):
    """vectors (integers, or the same in floating point) and the remaining arguments"""
    def b():
        k = n()
        f = fvec if real else ivec
        r = rest(k) if rest else ([], ())
        return [f(q, k) for q in names] + r[0], kw, (ge(k, lo),) + tuple(r[1])
    return b


class IntOb(Ob):
    """both sides are one function; a separation is also believed when the integer side truncates where the other does not"""

    def believe(self, code, spec):
        ok, why = cp.comparable(code, spec, self.slack, self.more)
        if not ok and cuts(code) > cuts(spec):
            return True, ''
        if ok and kinds(code) != kinds(spec):
            return False, 'a recurrence carries whole numbers on one side only'
        return ok, why


def kinds(z):
    return sorted(tuple(sorted(p.kind for p in need)) for L, need in cp.live(z.terms())[1].values())


def cuts(z):
    return sum(t.op == 'fn' and t.args[0] == 'trunc' for t in cp.all_subterms(z.terms()).values())


def C29():
    obs = []

    def add(name, fn, names='x', rest=None, lo=1, **o):
        o.setdefault('nmin', lo)
        obs.append(IntOb(name, fn, fn, data(False, names, rest, lo), spec_build=data(True, names, rest, lo), **o))
    S = lambda k: subset('S', k)
    sp = lambda *e: (lambda k: ([S(k)] + [x() for x in e], ()))
    win = lambda *pre: (lambda k: ([S(k)] * bool(pre) + [tm.sym('w', 'int', 'p')], (tm.cmp('<=', tm.sym('w', 'int', 'p'), k),)))
    al = sc('al', 'float', 'u')
    for f in ('mean_value', 'median_value', 'last_valid_data'):
        add(f, R + f, rest=sp())
    add('linear interpolation', R + 'linear_interpolation', rest=sp(lambda: const(4)))
    add('cubic', R + 'cubic_12points_polynomial', rest=sp(lambda: const(4)), nmax=80, rounds=12)
    add('simple moving average replacement', R + 'simple_moving_average', rest=win(1))
    add('exponential moving average replacement', R + 'exponential_moving_average', rest=sp(al))
    add('weighted moving average replacement', R + 'weighted_moving_average', rest=win(1))
    add('polynomial', R + 'polynomial_replacement', rest=sp(lambda: const(13), lambda: const(2), lambda: const(3)), rounds=12)
    kal = [sc(q, 'float', 'p') for q in ('s0', 'P0', 'Q', 'R')]
    add('kalman replacement', R + 'kalman_filter', rest=sp(*[one_one(q) for q in ('s0', 'P0', 'Q', 'R')]))
    P = 'proadv.statistics.series.'
    add('moving average', P + 'moving_average', rest=win())
    add('exponential moving average', P + 'exponential_moving_average', rest=lambda k: ([al()], ()))
    add('weighted moving average', P + 'weighted_moving_average', rest=win())
    add('kalman', P + 'kalman_filter', rest=lambda k: ([one_one(q)() for q in ('s0', 'P0', 'Q', 'R')], ()))

    def fsf(pre):
        def r(k):
            fs, f = tm.sym('fs', 'float', 'p'), tm.sym('f', 'float', 'p')
            return [S(k)] * pre + [fs, f], tuple(ssa_ass(k, fs, f))
        return r
    add('ssa', P + 'ssa', rest=fsf(0))
    add('ssa replacement', R + 'ssa', rest=fsf(1))
    for f in ('descriptive.min', 'descriptive.max', 'descriptive.mean', 'descriptive.median', 'descriptive.mode', 'spread.variance', 'spread.std', 'moment.skewness', 'moment.kurtosis'):
        add(f.split('.')[1], ST + f, lo=2)
    for f in ('cdf', 'sf', 'log_cdf', 'log_sf'):
        add(f, N + f, vals=near)
    for f in ('pdf', 'log_pdf'):
        add(f, N + f, rest=lambda k: ([tm.sym('sd', 'float', 'p'), tm.sym('mu')], ()), vals=near)
    for f in ('skewtest', 'kurtotest'):
        add(f, N + f, lo=8, nmax=20)
    A = DT + 'acceleration.acceleration_thresholding'
    for t in (1, 2):
        add('acceleration, tag %d' % t, A, rest=lambda k, t=t: ([tm.sym('fs'), const(t), tm.sym('g'), tm.sym('kg'), tm.sym('ks')], ()))
    add('derivatives', DT + 'phasespace.calculate_derivatives')
    add('phase space parameters', DT + 'phasespace.calculate_parameters', 'uvw', lo=2)
    add('phase space', DT + 'phasespace.phasespace_thresholding', lo=3)
    add('premodification', DT + 'phasespace.phasespace_thresholding_premodification', rest=lambda k: ([tm.sym('c1', 'float', 'p'), tm.sym('c2', 'float', 'p')], ()), vals=wide('x'))
    add('ellipse distance', DT + 'poincare.calculate_rho', 'xy', rest=lambda k: ([tm.sym('th'), tm.sym('a'), tm.sym('b')], ()))
    add('velocity correlation', DT + 'correlation.velocity_correlation', 'uvw', lo=2)
    add('correlation parameters', DT + 'correlation.calculate_parameters', 'uvw', lo=2)
    add('spherical', DT + 'spherical.spherical_phasespace_thresholding', rest=lambda k: ([tm.sym('it', 'int'), tm.sym('cm')], ()), lo=3, rounds=20, ties=10)
    add('pollution rate', DT + 'pollution.pollution_rate', 'xy', rest=lambda k: ([tm.sym('k', 'float', 'p')], ()))
    add('kernel record', TK + 'three_dimensional_kernel', rest=lambda k: ([tm.sym('grid', 'int', 'p')], ()), lo=4, nmax=6, sizes=('n', 'grid'), rounds=12, ties=0)
    add('kinetic energy', ST + 'signal.fluid.kinetic_turbulent_energy', 'uvw')
    add('reynolds stresses', ST + 'signal.fluid.reynolds_stresses', 'uvw')
    add('power spectra', ST + 'signal.spectrum.power_spectra', rest=lambda k: ([tm.sym('fs', 'float', 'p'), tm.sym('p1', 'float', 'p'), tm.sym('p2', 'float', 'p')], ()), lo=4)
    add('synthetic noise', ST + 'signal.synthetic.synthetic_noise', rest=lambda k: ([tm.sym('pc', 'float', 'p')], ()), lo=2)
    obs += butter_ints()
    return obs


def wide(name):
    def f(v, rng):
        for i in range(v.ints.get('n', 0)):
            if rng.random() < 0.25:
                v.over[('elem', name, (i,))] = rng.randint(-90, 90)
    return f


def zpi(real, *extra):
    def b():
        a, c = size('nz'), size('np')
        f = fvec if real else ivec
        return [f('z', a), f('p', c), tm.sym('k')] + [tm.sym(q) for q in extra], {}, ()
    return b


def butter_ints():
    z2 = dict(sizes=('nz', 'np'), nmax=5, nmin=0, rounds=24, ties=4)
    return [IntOb(f + ' of integer roots', B + f, B + f, zpi(False, *e), spec_build=zpi(True, *e), **z2)
            for f, e in (('low_to_low', ('w',)), ('low_to_high', ('w',)), ('low_to_band', ('w', 'bw')), ('low_to_stop', ('w', 'bw')), ('bilinear', ('fs',)), ('xyz_to_ptf', ()))]
