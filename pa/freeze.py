"""Frozen outcomes: the guarded returns and exceptions of one call as plain terms, and their value under a valuation."""
from . import terms as tm
from .terms import T, ZERO, TRUE, FALSE
from .values import *
from .val import Val, TooBig, vkey, Lam

INTERP = {'median', 'min', 'max', 'argmax', 'argmin', 'sortat', 'argsortat', 'lexat', 'prod', 'int_of_bool', 'polycoef'}


def freeze(it, st, v, depth=0):
    if depth > 6:
        raise Unsupported('nested result')
    it.st = st
    x = it.rd(v)
    if isinstance(x, T):
        return ('s', x)
    if isinstance(x, Opaque):
        return ('s', x.t)
    if isinstance(x, Tup):
        return ('t', [freeze(it, st, i, depth + 1) for i in x.items])
    if isinstance(x, PyList):
        return ('l', [freeze(it, st, i, depth + 1) for i in x.items])
    if isinstance(x, PyDict):
        return ('d', [(k, freeze(it, st, w, depth + 1)) for k, w in x.d.items()])
    if isinstance(x, Arr):
        ix = [tm.canon(90 + 10 * depth + k) for k in range(x.ndim)]
        return ('a', tuple(x.shape), ix, freeze(it, st, x.get(*ix), depth + 1), x.dtype, x.islist)
    if isinstance(x, Filt):
        k = tm.canon(90 + 10 * depth)
        return ('f', x.n, k, x.pred(k), x.val(k), x.dtype, x.islist) + (('unordered',) if isinstance(x, Shuffled) else ())
    if isinstance(x, Cat):
        return ('c', [freeze(it, st, p, depth + 1) for p in x.parts], None, None, None, x.islist)
    if isinstance(x, Alt):
        return ('?', x.c, freeze(it, st, x.a, depth + 1), freeze(it, st, x.b, depth + 1))
    raise Unsupported('result %r' % (x,))


def terms_of(z, acc):
    if isinstance(z, T):
        acc.append(z)
    elif isinstance(z, (tuple, list)):
        for y in z:
            terms_of(y, acc)
    return acc


class Fz:
    """frozen outcome of one call"""

    def __init__(self, o):
        self.base = tuple(o.it.base)
        self.rets = []
        for c, v, st in o.rets:
            self.rets.append((c, freeze(o.it, st, v)))
        self.raises = [(c, e, s) for c, e, s, st in o.raises]
        self.hazards = list(o.hazards)
        self.funcs = sorted(o.it.functions)
        self.loops = list(o.it.loops_seen)
        self.args = None

    def terms(self):
        acc = []
        for c, v in self.rets:
            acc.append(c)
            terms_of(v, acc)
        for c, e, s in self.raises:
            acc.append(c)
        for c, e, s in self.hazards:
            acc.append(c)
        return acc


def all_subterms(ts):
    seen = {}
    for t in ts:
        tm.subterms(t, seen)
    return seen


BIG = 30


def indices(shape, cap=160):
    import itertools
    axes = []
    for d in shape:
        if d <= BIG or len(shape) == 1 and d <= cap:
            axes.append(list(range(d)))
        else:
            axes.append(sorted({0, 1, 2, 3, 4, d // 3, d // 2, d - 1, d - 2, d - 3, d // 2 + 1, 10, 11} & set(range(d))))
    r = list(itertools.product(*axes))
    if len(r) > cap:
        r = r[::max(1, len(r) // cap)]
    return r


def value(v, z, flat=True):
    """value of a frozen result under valuation v"""
    k = z[0]
    if k == 's':
        return v.ev(z[1])
    if k in 'tl':
        return (k,) + tuple(value(v, y) for y in z[1])
    if k == 'd':
        return ('d',) + tuple(sorted(((str(v.ev(a)), value(v, b)) for a, b in z[1]), key=lambda p: p[0]))
    if k == 'a':
        shape = tuple(max(0, v.as_int(v.ev(d))) for d in z[1])
        out = []
        for ix in indices(shape):
            out.append(value_env(v, z[3], dict(zip(z[2], ix))))
        return ('a', shape, tuple(out))
    if k == 'f':
        n = v.as_int(v.ev(z[1]))
        if n > 420:
            raise TooBig('selection')
        out = []
        for j in range(n):
            e = {z[2]: j}
            if v.ev(z[3], e):
                out.append(v.ev(z[4], e))
        return ('a', (len(out),), tuple(out))
    if k == 'c':
        out = []
        for p in z[1]:
            r = value(v, p)
            if r[0] in 'tl':
                r = ('a', (len(r) - 1,), r[1:])
            if len(r[1]) != 1 or r[1][0] != len(r[2]):
                raise TooBig('concatenation')
            out.extend(r[2])
        return ('a', (len(out),), tuple(out))
    if k == '?':
        return value(v, z[2] if v.ev(z[1]) else z[3])
    raise ValueError(k)


def value_env(v, z, env):
    if z[0] == 's':
        return v.ev(z[1], env)
    if z[0] in 'tl':
        return (z[0],) + tuple(value_env(v, y, env) for y in z[1])
    if z[0] == '?':
        return value_env(v, z[2] if v.ev(z[1], env) else z[3], env)
    raise TooBig('nested array result')


def outcome(v, fz):
    """('raise', class, source) or ('ret', value, index)"""
    for c, e, s in fz.hazards:
        if v.ev(c):
            return ('raise', e, s)
    for c, e, s in fz.raises:
        if v.ev(c):
            return ('raise', e, s)
    for i, (c, z) in enumerate(fz.rets):
        if v.ev(c):
            return ('ret', value(v, z), i)
    return ('none', None, None)
