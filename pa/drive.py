"""Interpret one function on a description of its arguments; the result is a set of guarded outcomes."""
from . import terms as tm
from .terms import T, const, ZERO, ONE, TRUE, FALSE, NONE, NAN
from .values import *
from .interp import Interp, Loader, State, Out


class Outcome:
    """what a call does: guarded returns and raises, guarded hazards (implicit exceptions), the final heap per path"""

    def __init__(self, rets, raises, hazards, it):
        self.rets, self.raises, self.hazards, self.it = rets, raises, hazards, it


def size(name='n'):
    return tm.sym(name, 'int', 'z')


def vec(name, n, flags='', kind='float', islist=False):
    return Arr((n,), lambda i: tm.elem(name, flags, kind, n, i), kind, islist)


def mat(name, n, m, flags='', kind='float'):
    return Arr((n, m), lambda i, j: tm.elem(name, flags, kind, n, i, j), kind)


def subset(name, n, islist=False):
    """ascending indices of an arbitrary subset of 0..n-1"""
    return Filt(n, lambda k: tm.elem(name, 'b', 'bool', n, k), lambda k: k, 'int', islist)


def call(loader, modname, fname, args, kwargs=None, assume=(), budget=400000):
    it = Interp(loader, budget)
    m = loader.find(modname)
    if m is None:
        raise Unsupported('no module ' + modname)
    g = it.globals(m)
    if fname not in g:
        raise KeyError(fname)
    it.cur = None
    it.st = State({}, {}, tuple(assume))
    it.base = tuple(assume)
    av = [it.box(a) for a in args]
    kv = {k: it.box(v) for k, v in (kwargs or {}).items()}
    it.arg_refs = av, kv
    f = it.lazy(g, fname, m)
    try:
        v = it.call(f, av, kv)
        it.outs.append(Out('return', v, it.st, None))
    except Dead:
        pass
    rets = [(tm.and_(*o.st.pc[len(assume):]), o.val, o.st) for o in it.outs if o.kind == 'return']
    raises = [(tm.and_(*o.st.pc[len(assume):]), o.val, o.src, o.st) for o in it.outs if o.kind == 'raise']
    hz = [(c, e, s) for c, e, s in it.hazards]
    return Outcome(rets, raises, hz, it)


def show(it, st, v, depth=0):
    it.st = st
    x = it.rd(v)
    if isinstance(x, T):
        return tm.show(x, 9)
    if isinstance(x, (Tup, PyList)):
        return type(x).__name__ + '(' + ', '.join(show(it, st, i) for i in x.items) + ')'
    if isinstance(x, PyDict):
        return '{' + ', '.join('%s: %s' % (tm.show(k), show(it, st, w)) for k, w in x.d.items()) + '}'
    if isinstance(x, Arr):
        ix = [tm.canon(90 + k) for k in range(x.ndim)]
        return 'Arr[%s]%s{%s}' % (', '.join(tm.show(d) for d in x.shape), x.dtype, show(it, st, x.get(*ix)))
    if isinstance(x, Filt):
        k = tm.canon(90)
        return 'Filt[%s]{%s if %s}' % (tm.show(x.n), tm.show(x.val(k), 9), tm.show(x.pred(k), 9))
    if isinstance(x, Cat):
        return 'Cat(' + ', '.join(show(it, st, p) for p in x.parts) + ')'
    if isinstance(x, Opaque):
        return 'Opaque(%s)' % tm.show(x.t, 9)
    return repr(x)


def dump(o):
    for c, v, st in o.rets:
        print('RET  if', tm.show(c, 5), ':', show(o.it, st, v))
    for c, e, s, st in o.raises:
        print('RAISE', e, 'if', tm.show(c, 6), s and s[1])
    for c, e, s in o.hazards:
        print('HAZ  ', e, 'if', tm.show(c, 6), s and s[1:])
