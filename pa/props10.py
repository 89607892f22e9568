"""C19 documented rejections, C20 accepted boundaries."""
from .oblig import *
from .guards import GuardOb
from .props1 import n, ge, sc, ST
from mpmath import mpf

S = tm.sym
F = 'proadv.filtration.replacement.replacements.'
DT = 'proadv.filtration.detection.'
N = ST + 'distributions.normal.'
O = ST + 'optimize.optimize.'
B = ST + 'signal.butter.'
lt = lambda a, b: tm.cmp('<', tm.const(a) if isinstance(a, (int, float)) else a, tm.const(b) if isinstance(b, (int, float)) else b)
le = lambda a, b: tm.cmp('<=', tm.const(a) if isinstance(a, (int, float)) else a, tm.const(b) if isinstance(b, (int, float)) else b)
VE, TE = ('ValueError',), ('TypeError',)


def sym(name, kind='float', flags=''):
    return tm.sym(name, kind, flags)


def b1(f):
    """build from a function of the size"""
    def b():
        k = n()
        r = f(k)
        return list(r[0]), dict(r[2]) if len(r) > 2 else {}, tuple(r[1])
    return b


def setint(**kw):
    """choose an integer symbol from the sizes: name=lambda v, rng: value"""
    def h(v, rng):
        for k, f in kw.items():
            v.ints[k] = f(v, rng)
    return h


def setsym(**kw):
    def h(v, rng):
        for k, f in kw.items():
            v.over[('sym', k)] = mpf(f(v, rng)) if not isinstance(f(v, rng), bool) else f(v, rng)
    return h


def put_nan(name, dim=1):
    """one or more NaN samples, at the first, last or any place"""
    def h(v, rng):
        k = v.ints.get('n', 0)
        if k == 0:
            return False
        m = v.ints.get('m', 1)
        if dim == 2 and m == 0:
            return False
        for i in {rng.choice((0, k - 1, rng.randrange(k)))} | ({rng.randrange(k)} if rng.random() < 0.3 else set()):
            v.over[('elem', name, (i,) if dim == 1 else (i, rng.randrange(m)))] = mpf('nan')
    return h


def X1(flags='', kind='float', lo=1, islist=False, extra=(), **kw):
    return b1(lambda k: ([vec('x', k, flags, kind, islist)] + [e() for e in extra], (ge(k, lo),), kw))


def empty(islist=False, extra=()):
    return b1(lambda k: ([vec('x', k, '', 'float', islist)] + [e() for e in extra], (tm.cmp('==', k, ZERO),)))


def M2(extra=()):
    def b():
        k, m = n(), size('m')
        return [mat('x', k, m)] + [e() for e in extra], {}, (ge(k, 1), ge(m, 1))
    return b


def strings(extra=()):
    return lambda: ([Arr((const(3),), lambda i: const('a'), 'str')] + [e() for e in extra], {}, ())


def mixed(extra=()):
    return lambda: ([PyList([const(3), const('b'), const(7)])] + [e() for e in extra], {}, ())


def C19():
    o = []

    def g(name, fn, build, want, **kw):
        o.append(GuardOb(name, fn, build, want, **kw))
    for islist in (False,):
        L = ' (list)' if islist else ''
        for f, p in (('moving_average', 'w'), ('weighted_moving_average', 'w')):
            g(f + ' window not positive' + L, ST + 'series.' + f, X1(islist=islist, extra=(sc(p, 'int'),)), VE, hook=setint(w=lambda v, r: r.choice((0, -1, -2, -v.ints['n'], -7))))
            g(f + ' window longer than the data' + L, ST + 'series.' + f, X1(lo=1 if f == 'moving_average' else 0, extra=(sc(p, 'int'),)), VE, hook=setint(w=lambda v, r: v.ints['n'] + r.choice((1, 1, 2, 9))))
        g('exponential smoothing factor not positive' + L, ST + 'series.exponential_moving_average', X1(islist=islist, extra=(sc('al'),)), VE, hook=setsym(al=lambda v, r: r.choice(('0', '-0.01', '-1', '-3'))))
        g('exponential smoothing factor above one' + L, ST + 'series.exponential_moving_average', X1(islist=islist, extra=(sc('al'),)), VE, hook=setsym(al=lambda v, r: r.choice(('1.0001', '1.01', '2', '30'))))
    g('moving average of a matrix', ST + 'series.moving_average', M2((sc('w', 'int'),)), VE, sizes=('n', 'm'))
    for m, f in (('spread', 'variance'), ('spread', 'std'), ('descriptive', 'median')):
        g(f + ' of a matrix', ST + m + '.' + f, M2(), VE, sizes=('n', 'm'))
    for m, f in (('spread', 'variance'), ('spread', 'std'), ('descriptive', 'median'), ('descriptive', 'min'), ('descriptive', 'max')):
        g(f + ' of no data', ST + m + '.' + f, empty(), VE)
    for m, f in (('spread', 'variance'), ('spread', 'std'), ('descriptive', 'median'), ('descriptive', 'min'), ('descriptive', 'max')):
        g(f + ' of strings', ST + m + '.' + f, strings(), TE)
    for f in ('min', 'max'):
        g(f + ' of a list with a string', ST + 'descriptive.' + f, mixed(), TE)
    for f in ('min', 'max'):
        g(f + ' of data with NaN', ST + 'descriptive.' + f, X1('n'), VE, hook=put_nan('x'))
    for f in ('cdf', 'sf', 'log_cdf', 'log_sf', 'pdf', 'log_pdf'):
        g(f + ' of no data', N + f, empty(), VE)
        g(f + ' of data with NaN', N + f, X1('n'), TE, hook=put_nan('x'))
    for f, k in (('skewtest', 8), ('kurtotest', 5)):
        g(f + ' of a small sample', N + f, b1(lambda s, k=k: ([vec('x', s)], (ge(s, 1), lt(s, k)))), VE)
        for alt in ('both', 'two_sided', '', 'Greater'):
            g('%s alternative %r' % (f, alt), N + f, b1(lambda s, k=k, alt=alt: ([vec('x', s), const(alt)], (ge(s, k),))), VE, nmin=k, nmax=24)
    fn = lambda: tm.sym('F', 'fn')
    a, b = (lambda: sym('lo')), (lambda: sym('hi'))
    g('root bracket reversed or empty', O + 'brentq', lambda: ([fn(), a(), b()], {}, (le(b(), a()),)), VE, hook=lambda v, r: v.over.update({('sym', 'hi'): v.rnd(('sym', 'lo'), 'float') - r.choice((0, 0, 1, mpf('0.001'), 70))}))
    g('root bracket without a sign change', O + 'brentq', lambda: ([fn(), a(), b()], {}, (lt(a(), b()), same_sign())), VE, heads=('app',), rounds=30)
    for nm, lo, hi in (('infinite lower', '-inf', '3'), ('infinite upper', '2', 'inf'), ('NaN lower', 'nan', '3'), ('NaN upper', '1', 'nan')):
        g('minimum with %s bound' % nm, O + 'fminbound', lambda: ([fn(), sym('lo', 'float', 'n'), sym('hi', 'float', 'n')], {}, ()), VE, hook=setsym(lo=lambda v, r, lo=lo: lo, hi=lambda v, r, hi=hi: hi), rounds=4)
    g('minimum with reversed bounds', O + 'fminbound', lambda: ([fn(), a(), b()], {}, (lt(b(), a()),)), VE)
    roots = lambda nm, k: Arr((k,), lambda i: tm.elem(nm, '', 'complex', k, i), 'complex')
    for f, ex in (('low_to_low', ('wo',)), ('low_to_high', ('wo',)), ('low_to_band', ('wo', 'bw')), ('low_to_stop', ('wo', 'bw')), ('bilinear', ('fs',))):
        def bd(ex=ex):
            k, m = size('n'), size('m')
            return [roots('z', k), roots('p', m), sym('g')] + [sym(e, 'float', 'p') for e in ex], {}, (lt(m, k),)
        g(f + ' with more zeros than poles', B + f, bd, VE, sizes=('n', 'm'), heads=('lib.numpy.prod',))
    g('prototype of negative order', B + 'buttap', lambda: ([tm.sym('q', 'int')], {}, (lt(tm.sym('q', 'int'), 0),)), VE, sizes=(), hook=setint(q=lambda v, r: -r.randint(1, 9)))
    g('prototype of fractional order', B + 'buttap', lambda: ([sym('q')], {}, ()), VE, hook=setsym(q=lambda v, r: r.choice(('0.5', '2.5', '-1.5', '3.001'))), rounds=12)
    D = B + 'butterworth'
    w1 = lambda: sym('w0')
    two = lambda: PyList([sym('w0'), sym('w1')])
    q = lambda: tm.sym('q', 'int')
    qa = lambda *c: (ge(q(), 1), tm.cmp('<=', q(), const(9))) + c
    lab = lambda t: const(t)
    freq = lambda **k: setsym(**{x: (lambda v, r, y=y: r.choice(y)) for x, y in k.items()})
    IN, OUT0, OUT1 = ('0.1', '0.3', '0.45'), ('0', '-0.2', '-3'), ('1', '1.5', '7')
    g('filter order negative', D, lambda: ([q(), w1(), lab('lp')], {}, (lt(q(), 0),)), VE, sizes=(), hook=both(setint(q=lambda v, r: -r.randint(1, 6)), freq(w0=IN)))
    for t in ('lp', 'hp'):
        for ag in (False, True):
            g('%s%s frequency not positive' % (t, ' analog' if ag else ''), D, lambda t=t, ag=ag: ([q(), w1(), lab(t), TRUE if ag else FALSE], {}, qa()), VE, sizes=(), hook=freq(w0=OUT0))
        g('%s frequency at or above Nyquist' % t, D, lambda t=t: ([q(), w1(), lab(t)], {}, qa()), VE, sizes=(), hook=freq(w0=OUT1))
        g('%s frequency at or above half the sampling rate' % t, D, lambda t=t: ([q(), w1(), lab(t)], {'sr': sym('fs', 'float', 'p')}, qa()), VE, sizes=(), hook=lambda v, r: v.over.update({('sym', 'fs'): mpf(r.choice((10, 100, 7))), ('sym', 'w0'): mpf(r.choice((50, 51, 900)))}))
        g('%s with two frequencies' % t, D, lambda t=t: ([q(), two(), lab(t)], {}, qa()), VE, sizes=(), hook=freq(w0=('0.1', '0.2'), w1=('0.3', '0.4')))
    for t in ('bp', 'bs'):
        for ag in (False, True):
            g('%s%s frequencies not ascending' % (t, ' analog' if ag else ''), D, lambda t=t, ag=ag: ([q(), two(), lab(t), TRUE if ag else FALSE], {}, qa()), VE, sizes=(), hook=freq(w0=('0.4', '0.3'), w1=('0.2', '0.3')))
            g('%s%s lower frequency not positive' % (t, ' analog' if ag else ''), D, lambda t=t, ag=ag: ([q(), two(), lab(t), TRUE if ag else FALSE], {}, qa()), VE, sizes=(), hook=freq(w0=OUT0, w1=IN))
        g('%s upper frequency at or above Nyquist' % t, D, lambda t=t: ([q(), two(), lab(t)], {}, qa()), VE, sizes=(), hook=freq(w0=IN, w1=OUT1))
        g('%s with one frequency' % t, D, lambda t=t: ([q(), w1(), lab(t)], {}, qa()), ('ValueError',), sizes=(), hook=freq(w0=IN))
    g('sampling rate for an analog filter', D, lambda: ([q(), w1(), lab('lp'), TRUE], {'sr': sym('fs', 'float', 'p')}, qa()), VE, sizes=(), hook=freq(w0=IN))
    for t in ('', 'ba', 'zpk', 'tf'):
        g('filter output form %r' % t, D, lambda t=t: ([q(), w1(), lab('lp')], {'output': lab(t)}, qa()), VE, sizes=(), hook=freq(w0=IN), rounds=6)
    for t in ('low', 'lowpass', 'xx', ''):
        g('filter type %r' % t, D, lambda t=t: ([q(), two(), lab(t)], {}, qa()), ('NotImplementedError', 'ValueError', 'KeyError'), sizes=(), hook=freq(w0=('0.1', '0.2'), w1=('0.3', '0.4')), rounds=6)
    idx = lambda *v: PyList([const(x) if isinstance(x, int) else x for x in v])
    ar = lambda *v: arr_of([const(x) if isinstance(x, int) else x for x in v])
    cub = F + 'cubic_12points_polynomial'
    for nm, mk in (('array', ar), ('list', idx)):
        g('cubic spike index negative (%s)' % nm, cub, b1(lambda k, mk=mk: ([vec('x', k), mk(tm.sym('j', 'int'), 1)], (ge(k, 3), lt(tm.sym('j', 'int'), 0)))), VE, nmin=3, nmax=30, hook=setint(j=lambda v, r: -r.randint(1, v.ints['n'])), rounds=20)
        g('cubic spike index beyond the end (%s)' % nm, cub, b1(lambda k, mk=mk: ([vec('x', k), mk(1, tm.sym('j', 'int'))], (ge(k, 3), le(k, tm.sym('j', 'int'))))), VE, nmin=3, nmax=30, hook=setint(j=lambda v, r: v.ints['n'] + r.choice((0, 0, 1, 5))), rounds=20)
    g('cubic replacement of a matrix', cub, M2((lambda: ar(0),)), VE, sizes=('n', 'm'))
    acc = DT + 'acceleration.acceleration_thresholding'
    g('acceleration tag other than 1 and 2', acc, X1(lo=2, extra=(sc('fs', 'float', 'p'), sc('tag', 'int'))), VE, nmin=2, hook=setint(tag=lambda v, r: r.choice((0, 3, -1, 4, 12))))
    for t in ('1', 'positive'):
        g('acceleration tag %r' % t, acc, X1(lo=2, extra=(sc('fs', 'float', 'p'), lambda t=t: const(t))), VE, nmin=2, rounds=6)
    syn = ST + 'signal.synthetic.synthetic_noise'
    g('noise percentage above 100', syn, X1(extra=(sc('pc'),)), VE, hook=setsym(pc=lambda v, r: r.choice(('100.01', '101', '250'))), heads=('fold', 'rng.randint', 'rng.normal'))
    g('noise percentage below 0', syn, X1(extra=(sc('pc'),)), VE, hook=setsym(pc=lambda v, r: r.choice(('-0.01', '-1', '-60'))), heads=('fold', 'rng.randint', 'rng.normal'))
    sop = B + 'xyz_to_sop'
    rr = lambda nm, k: arr_of([tm.sym('%s%d' % (nm, i)) for i in range(k)])
    g('section pairing unknown', sop, lambda: ([rr('z', 2), rr('p', 2), sym('g')], {'pg': lab('best')}, ()), VE, rounds=4)
    for pg in ('nr', 'kd'):
        g('analog sections with pairing %s' % pg, sop, lambda pg=pg: ([rr('z', 2), rr('p', 2), sym('g')], {'pg': lab(pg), 'ag': TRUE}, ()), VE, rounds=4)
    g('analog sections with more zeros than poles', sop, lambda: ([rr('z', 3), rr('p', 2), sym('g')], {'ag': TRUE}, ()), VE, rounds=4)
    return o


def both(*hs):
    def h(v, rng):
        for f in hs:
            if f(v, rng) is False:
                return False
    return h


def arr_of(items):
    k = len(items)
    kind = 'int' if all(t.kind == 'int' for t in items) else 'float'

    def get(i):
        r = items[-1]
        for j in range(k - 2, -1, -1):
            r = tm.ite(tm.cmp('==', i, const(j)), items[j], r)
        return r
    return Arr((const(k),), get, kind)


def same_sign():
    fa, fb = tm.opq('app', tm.sym('F', 'fn'), tm.sym('lo'), kind='float'), tm.opq('app', tm.sym('F', 'fn'), tm.sym('hi'), kind='float')
    return tm.cmp('<', ZERO, tm.mul(fa, fb))
