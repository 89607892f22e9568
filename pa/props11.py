"""C20 accepted boundaries."""
from .props10 import *
from .props2 import XSsa, XKal, XSpw


def pick(which):
    """which samples are flagged: none, one, the first, the last, both ends, a few"""
    def h(v, rng):
        k = v.ints.get('n', 0)
        if k == 0:
            return False
        s = {'none': lambda: set(), 'one': lambda: {rng.randrange(k)}, 'first': lambda: {0}, 'last': lambda: {k - 1}, 'ends': lambda: {0, k - 1},
             'run at the start': lambda: set(range(rng.randint(1, max(1, k // 2)))), 'run at the end': lambda: set(range(k - rng.randint(1, max(1, k // 2)), k))}[which]()
        for i in range(k):
            v.over[('elem', 'S', (i,))] = i in s
    return h


def spk(*extra, lo=2, slist=False):
    return b1(lambda k: ([vec('x', k), subset('S', k, slist)] + [e() for e in extra], (ge(k, lo),)))


def win(slist=False):
    def b():
        k = n()
        w = tm.sym('w', 'int', 'p')
        return [vec('x', k), subset('S', k, slist), w], {}, (ge(k, 2), ge(w, 1), tm.cmp('<=', w, k))
    return b


SPIKES = ('none', 'one', 'first', 'last', 'ends', 'run at the start', 'run at the end')
LIB = ('eigvec', 'linalg.norm', 'kalman', 'lib.numpy.linalg.norm', 'fold')


def C20():
    o = []

    def g(name, fn, build, **kw):
        o.append(GuardOb(name, fn, build, None, **kw))
    for f in ('moving_average', 'weighted_moving_average'):
        kw = {'length': 'n'} if f == 'moving_average' else {}
        g(f + ' window 1', ST + 'series.' + f, X1(extra=(lambda: ONE,)), nmin=1, **kw)
        g(f + ' window as long as the data', ST + 'series.' + f, b1(lambda k: ([vec('x', k), k], (ge(k, 1),))), nmin=1, **kw)
        g(f + ' window between 1 and the data', ST + 'series.' + f, b1(lambda k: ([vec('x', k), tm.sym('w', 'int', 'p')], (ge(k, 1), le(tm.sym('w', 'int', 'p'), k)))), nmin=1, **kw)
    g('smoothing factor 1', ST + 'series.exponential_moving_average', X1(extra=(lambda: ONE,)), nmin=1, length='n')
    g('smoothing factor above 0 and up to 1', ST + 'series.exponential_moving_average', X1(extra=(sc('al'),)), nmin=1, length='n', hook=setsym(al=lambda v, r: r.choice(('0.001', '0.2', '0.999', '1', '1e-9'))), heads=('fold',))
    for m, f in (('descriptive', 'min'), ('descriptive', 'max'), ('descriptive', 'mean'), ('descriptive', 'median'), ('spread', 'variance'), ('spread', 'std'), ('moment', 'skewness'), ('moment', 'kurtosis')):
        lo = 1 if f not in ('skewness', 'kurtosis') else 2
        g(f + ' of a short record', ST + m + '.' + f, X1(lo=lo), nmin=lo, nmax=4)
        g(f + ' of a short integer record', ST + m + '.' + f, X1(kind='int', lo=lo), nmin=lo, nmax=4)
    for which in SPIKES:
        for sl in (False, True) if which in ('none', 'first', 'last') else (False,):
            t = ', %s%s' % (which, ' (list)' if sl else '')
            h = pick(which)
            for f in ('mean_value', 'median_value', 'last_valid_data'):
                g(f + t, F + f, spk(slist=sl), nmin=2, length='n', hook=h, rounds=14)
            g('linear' + t, F + 'linear_interpolation', spk(lambda: const(4), slist=sl), nmin=2, length='n', hook=h, rounds=14)
            g('cubic' + t, F + 'cubic_12points_polynomial', spk(lambda: const(4), lo=30, slist=sl), nmin=30, nmax=40, length='n', hook=h, rounds=8)
            g('simple moving average' + t, F + 'simple_moving_average', win(sl), nmin=2, length='n', hook=h, rounds=14)
            g('weighted moving average' + t, F + 'weighted_moving_average', win(sl), nmin=2, length='n', hook=h, rounds=14)
            g('exponential moving average' + t, F + 'exponential_moving_average', spk(lambda: tm.sym('al', 'float', 'u'), slist=sl), nmin=2, length='n', hook=h, rounds=14, heads=('fold',))
            g('ssa' + t, F + 'ssa', XSsa(slist=sl), length='n', hook=h, rounds=8, heads=LIB)
            g('kalman' + t, F + 'kalman_filter', XKal(slist=sl), length='n', hook=h, rounds=8, heads=LIB)
            g('polynomial' + t, F + 'polynomial_replacement', spk(lambda: const(100), lambda: const(2), lambda: const(4), lo=12, slist=sl), nmin=12, nmax=24, length='n', hook=h, rounds=8, heads=LIB)
    for f, k in (('skewtest', 8), ('kurtotest', 5)):
        for alt in (None, 'two-sided', 'greater', 'less'):
            ex = () if alt is None else (lambda alt=alt: const(alt),)
            g('%s of the smallest sample, %s' % (f, alt or 'default'), N + f, b1(lambda s, k=k, ex=ex: ([vec('x', s)] + [e() for e in ex], (tm.cmp('==', s, const(k)),))), sizes=('n',), nmin=k, nmax=k, rounds=10)
            g('%s, %s' % (f, alt or 'default'), N + f, b1(lambda s, k=k, ex=ex: ([vec('x', s)] + [e() for e in ex], (ge(s, k),))), nmin=k, nmax=k + 20, rounds=20)
    for f in ('cdf', 'sf', 'log_cdf', 'log_sf', 'pdf', 'log_pdf'):
        g(f + ' of one sample', N + f, X1(), nmin=1, nmax=1, length='n', rounds=6)
        g(f + ' of integers', N + f, X1(kind='int'), nmin=1, nmax=5, length='n', rounds=10)
        g(f + ' of a number', N + f, lambda: ([sym('x')], {}, ()), sizes=(), rounds=10)
    syn = ST + 'signal.synthetic.synthetic_noise'
    for p in (0, 100):
        g('noise percentage %d' % p, syn, X1(extra=(lambda p=p: const(p),)), nmin=1, length='n', rounds=10, heads=('fold', 'rng.randint', 'rng.normal'))
    acc = DT + 'acceleration.acceleration_thresholding'
    for t in (1, 2):
        g('acceleration tag %d' % t, acc, X1(lo=2, extra=(sc('fs', 'float', 'p'), lambda t=t: const(t))), nmin=2)
    D = B + 'butterworth'
    w1 = lambda: sym('w0')
    two = lambda: PyList([sym('w0'), sym('w1')])
    q = lambda: tm.sym('q', 'int')
    qa = (ge(q(), 1), tm.cmp('<=', q(), const(9)))
    h = setsym(w0=lambda v, r: r.choice(('0.1', '0.02', '0.3')), w1=lambda v, r: r.choice(('0.4', '0.5', '0.99')))
    for t in ('lp', 'hp', 'bp', 'bs', 'LP', 'Bs'):
        for out in ('nd', 'zps', 'sop', 'ND'):
            for ag in (False, True):
                w = w1 if t.lower() in ('lp', 'hp') else two
                g('%s filter as %s%s' % (t, out, ', analog' if ag else ''), D, lambda w=w, t=t, out=out, ag=ag: ([q(), w(), const(t), TRUE if ag else FALSE, const(out)], {}, qa), sizes=(), hook=h, rounds=10, heads=LIB)
        if t in ('lp', 'hp', 'bp', 'bs'):
            w = w1 if t in ('lp', 'hp') else two
            g('%s filter with a sampling rate' % t, D, lambda w=w, t=t: ([q(), w(), const(t)], {'sr': sym('fs', 'float', 'p')}, qa), sizes=(), rounds=10, heads=LIB,
              hook=both(h, lambda v, r: v.over.update({('sym', 'fs'): mpf(r.choice((2, '2.5', 100)))})))
    fn = lambda: tm.sym('F', 'fn')
    g('root bracket with a sign change', O + 'brentq', lambda: ([fn(), sym('lo'), sym('hi')], {}, (lt(sym('lo'), sym('hi')), tm.not_(same_sign()))), rounds=12, heads=('app',))
    g('minimum inside bounds', O + 'fminbound', lambda: ([fn(), sym('lo'), sym('hi')], {}, (le(sym('lo'), sym('hi')),)), rounds=12, heads=('app', 'fold'))
    g('minimum with equal bounds', O + 'fminbound', lambda: ([fn(), sym('lo'), sym('lo')], {}, ()), rounds=12, heads=('app', 'fold'))
    return o
