"""Obligations of the optimisers and the signal functions."""
from .props5 import *

OP = ST + 'optimize.optimize.'


def fargs(*extra, **kw):
    """a function, two limits and the rest"""
    def b():
        return [tm.sym('F', 'fn'), tm.sym('lo'), tm.sym('hi')] + [e() for e in extra], {k: v() for k, v in kw.items()}, ()
    return b


def divides(v, rng):
    """no claim about what follows a division by zero inside a search"""
    v.strict = True


def C23():
    f, s = OP + 'brentq', 'specs.optim.brentq'
    t = [sc('xtol', 'float', 'p'), sc('rtol', 'float', 'p'), sc('mi', 'int')]
    return [
        Ob('root, defaults', f, s, fargs(), slack=0, vals=divides),
        Ob('root, given tolerances', f, s, fargs(*t), slack=0, vals=divides),
        Ob('full output', f, s, fargs(*t, lambda: TRUE), slack=0, vals=divides),
        Ob('root only', f, s, fargs(*t, lambda: FALSE), slack=0, vals=divides),
    ]


def C24():
    f, s = OP + 'fminbound', 'specs.optim.fminbound'
    par = lambda: Tup([tm.sym('p1'), tm.sym('p2')])
    t = [sc('tol', 'float', 'p'), sc('mf', 'int')]
    return [
        Ob('minimum, defaults', f, s, fargs(), slack=3, vals=divides),
        Ob('minimum with parameters', f, s, fargs(par, *t), slack=3, vals=divides),
        Ob('detailed output', f, s, fargs(lambda: Tup([]), *t, lambda: TRUE), slack=3, vals=divides),
        Ob('detailed output with parameters', f, s, fargs(par, *t, lambda: TRUE), slack=3, vals=divides),
    ]


B = ST + 'signal.butter.'


def zpk(*extra, dflt=False):
    def b():
        a, c = size('nz'), size('np')
        return [vec('z', a, '', 'complex'), vec('p', c, '', 'complex'), tm.sym('k')] + [e() for e in extra], {}, ()
    return b


def dsg(two, kind, ag, fs):
    def b():
        w = tm.sym('w0', 'float', '')
        if two:
            ws = [tm.sym('w0', 'float', ''), tm.sym('w1', 'float', '')]
            w = {'list': lambda: PyList(ws), 'tuple': lambda: Tup(ws), 'array': lambda: Arr((const(2),), lambda i: tm.elem('w', '', 'float', const(2), i), 'float')}[two]()
        q = tm.sym('q', 'int')
        return [q, w, tm.const(kind), TRUE if ag else FALSE, tm.sym('fs', 'float', 'p') if fs else NONE], {}, (ge(q, 1), tm.cmp('<=', q, const(9)))
    return b


def unit(v, rng):
    """critical frequencies mostly inside (0, 1)"""
    from mpmath import mpf
    if rng.random() < 0.7:
        a, b = sorted((mpf(rng.randint(1, 499)) / 1000, mpf(rng.randint(1, 499)) / 1000))
        s = v.rnd(('sym', 'fs'), 'float', 'p') if rng.random() < 0.7 else 1
        for x, y in (('0', a), ('1', b)):
            v.over[('sym', 'w' + x)] = y * s
            v.over[('elem', 'w', (int(x),))] = y * s


def C26():
    S = 'specs.butter.'
    z2 = dict(sizes=('nz', 'np'), nmax=5, nmin=0, rounds=40, ties=10)
    D = ('specs.shape.design', 'specs.butter.design')
    obs = [
        Ob('prototype', B + 'buttap', S + 'prototype', lambda: ([tm.sym('q', 'int')], {}, ())),
        Ob('lowpass', B + 'low_to_low', S + 'low', zpk(sc('w')), **z2),
        Ob('lowpass, default', B + 'low_to_low', S + 'low', zpk(), **z2),
        Ob('highpass', B + 'low_to_high', S + 'high', zpk(sc('w')), **z2),
        Ob('highpass, default', B + 'low_to_high', S + 'high', zpk(), **z2),
        Ob('bandpass', B + 'low_to_band', S + 'band', zpk(sc('w'), sc('bw')), **z2),
        Ob('bandpass, default', B + 'low_to_band', S + 'band', zpk(), **z2),
        Ob('bandstop', B + 'low_to_stop', S + 'stop', zpk(sc('w'), sc('bw')), **z2),
        Ob('bandstop, default', B + 'low_to_stop', S + 'stop', zpk(), **z2),
        Ob('bilinear', B + 'bilinear', S + 'bilinear', zpk(sc('fs')), **z2),
    ]
    for ag in (False, True):
        for fs in (False, True):
            for kind in ('lp', 'hp'):
                obs.append(Ob('%s design%s%s' % (kind, ', analog' if ag else '', ', sampling rate' if fs else ''), D[0], D[1] + '1', dsg(None, kind, ag, fs), vals=unit, rounds=30, ties=40))
            for kind in ('bp', 'bs'):
                for w in (('list', 'tuple', 'array') if kind == 'bp' and not ag else ('list',)):
                    obs.append(Ob('%s design, %s%s%s' % (kind, w, ', analog' if ag else '', ', sampling rate' if fs else ''), D[0], D[1] + '2', dsg(w, kind, ag, fs), vals=unit, rounds=30, ties=40))
    return obs


def zp(kind='complex', zk='float'):
    def b():
        a, c = size('nz'), size('np')
        return [vec('z', a, '', kind), vec('p', c, '', kind), tm.sym('k', zk)], {}, ()
    return b


def roots(v, rng):
    """root sets that come in conjugate pairs and single real roots, in any order"""
    from mpmath import mpf, mpc
    v.marks = 60
    for nm, sz in (('z', 'nz'), ('p', 'np')):
        m, r = v.ints[sz], []
        while len(r) < m:
            a = mpf(rng.randint(-180, 180)) / 101
            if r and rng.random() < .4:
                a = r[-1].real
            if len(r) + 1 < m and rng.random() < .6:
                b = mpf(rng.randint(1, 180)) / 101
                e, f = [a * rng.randint(-5, 5) * mpf(10) ** -15 for _ in '12']     # real parts agree up to rounding
                r += [mpc(a + e, b), mpc(a + f, -b)]
            else:
                r.append(mpc(a, 0))
        rng.shuffle(r)
        for i, x in enumerate(r):
            v.over[('elem', nm, (i,))] = x


def zps(kind='complex', **kw):
    def b():
        a, k, s = zp(kind)()
        return a, dict(kw), s
    return b


def C27():
    S = 'specs.butter.'
    z2 = dict(sizes=('nz', 'np'), nmax=5, nmin=0, rounds=40, ties=10)
    return [
        Ob('transfer function', B + 'xyz_to_ptf', S + 'ptf', zp(), **z2, more=('issubclass', 'name:dtype:complex.type', 'name:dtype:float.type', 'name:numpy.complexfloating')),
        Ob('transfer function, real roots', B + 'xyz_to_ptf', S + 'ptf_real', zp('float'), **z2, more=('issubclass', 'name:dtype:complex.type', 'name:dtype:float.type', 'name:numpy.complexfloating')),
        *[Ob('sections, ' + nm, B + 'xyz_to_sop', 'specs.sections.sections', zps(kind, **kw), sizes=('nz', 'np'), nmax=6, nmin=0, rounds=10, ties=4, vals=v, asserts=False, salt=j,
             more=('issubclass', 'name:dtype:complex.type', 'name:dtype:float.type', 'name:numpy.complexfloating'))
          for j, (nm, kind, v, kw) in enumerate((('defaults', 'complex', roots, {}), ('kept order', 'complex', roots, {'pg': const('kd')}), ('minimal', 'complex', roots, {'pg': const('ml')}),
                                                 ('analog', 'complex', roots, {'ag': TRUE}), ('real roots', 'float', None, {}), ('real roots, analog', 'float', None, {'ag': TRUE}),
                                                 ('pairing nr', 'complex', roots, {'pg': const('nr')})))],
    ]


def percentage(v, rng):
    """mostly percentages that pollute something"""
    from mpmath import mpf
    if 'pc' in v.ints:
        v.ints['pc'] = rng.choice((0, 100, 50, 25, 10, 101, -1, rng.randint(1, 99)))
    elif rng.random() < 0.9:
        v.over[('sym', 'pc')] = mpf(rng.choice((0, 100, 50, 25, rng.randint(1, 99), rng.randint(1, 99)))) + (mpf(rng.randint(0, 100)) / 101 if rng.random() < 0.7 else 0)


class DrawOb(Ob):
    """a loop that makes a fixed number of draws and keeps only some of them cannot deliver a requested number of distinct ones"""

    def believe(self, code, spec):
        ok, why = super().believe(code, spec)
        if not ok:
            folds = [L for L, need in cp.live(code.terms())[1].values()]
            if len(folds) == 1 and folds[0].n is not None and not folds[0].exits:
                L = folds[0]
                for p, i, u in L.slots:
                    if p in L.lens and isinstance(u, tm.T) and u.op == 'ite' and (u.args[1] is p) != (u.args[2] is p):
                        if any(t.op == 'opq' and t.args[0].startswith('rng.') and t.fb & L.bound for t in cp.all_subterms([u.args[0]]).values()):
                            return True, ''
        return ok, why


def C28():
    f = ST + 'signal.synthetic.synthetic_noise'
    return [DrawOb('polluted record', f, 'specs.signal.noise', XS(sc('pc')), slack=0, vals=percentage),
            DrawOb('polluted record, whole percentages', f, 'specs.signal.noise', XS(sc('pc', 'int')), slack=0, vals=percentage)]


def C32():
    f = ST + 'signal.spectrum.power_spectra'
    s = 'specs.signal.spectra'
    fl = lambda b: (lambda: TRUE if b else FALSE)
    return [
        Ob('defaults', f, s, XS(sc('fs'))),
        Ob('all arguments', f, s, XS(sc('fs'), sc('ov'), sc('bl', 'int'), sc('os', 'bool'))),
        Ob('one-sided', f, s, XS(sc('fs'), sc('ov', 'int'), sc('bl', 'int'), fl(True))),
        Ob('two-sided', f, s, XS(sc('fs'), sc('ov', 'int'), sc('bl', 'int'), fl(False))),
    ]
