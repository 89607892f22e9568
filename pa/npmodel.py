"""Model of the Python built-ins and of the numpy / scipy / sklearn operations the analysed code uses."""
import itertools
from fractions import Fraction
from . import terms as tm
from .terms import T, const, ZERO, ONE, TRUE, FALSE, NONE, NAN, INF, PI, J
from .values import *
from . import facts as fa

CMP = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Eq': '==', 'NotEq': '!='}
NUM = ('bool', 'int', 'float', 'complex', 'any')
HALF = const(Fraction(1, 2))
TWO = const(2)


def b2i(t):
    """number of a truth value"""
    if t.kind == 'bool':
        if t is TRUE:
            return ONE
        if t is FALSE:
            return ZERO
        return tm.ite(t, ONE, ZERO)
    return t


def is_index_val(v):
    return isinstance(v, T)


class CoreMixin:
    # ------------------------------------------------------------ conversions
    def scalar(self, v):
        x = self.rd(v) if isinstance(v, (Ref, Alt)) else v
        if isinstance(x, T):
            return x
        if isinstance(x, Opaque):
            return x.t
        if isinstance(x, Arr):
            if x.ndim == 0:
                return x.get()
            if all(d is ONE for d in x.shape):
                return x.get(*[ZERO] * x.ndim)
        if isinstance(x, PyList) and len(x.items) == 1:
            return self.scalar(x.items[0])
        if isinstance(x, Alt):
            return tm.ite(x.c, self.scalar(x.a), self.scalar(x.b))
        if isinstance(x, (Builtin, Fn, Mod)):
            return tm.opq('obj:' + getattr(x, 'name', '?'))
        if isinstance(x, Tup):
            return tm.opq('tuple', *[self.reify(i) for i in x.items])
        raise Unsupported('scalar of %s' % type(x).__name__)

    def join_dtype(self, a, b):
        r = tm.join_kind(a, b)
        return r

    def as_arr(self, v):
        x = self.rd(v) if isinstance(v, (Ref, Alt)) else v
        if isinstance(x, Arr):
            return x
        if isinstance(x, T):
            return Arr((), lambda: x, x.kind)
        if isinstance(x, Opaque):
            return Arr((), lambda: x.t, 'any')
        if isinstance(x, Tup):
            x = PyList(x.items)
        if isinstance(x, PyList):
            if not x.items:
                return Arr((ZERO,), lambda i: NAN, 'float', True)
            items = [self.rd(i) for i in x.items]
            if all(isinstance(i, T) for i in items):
                dt = items[0].kind
                for i in items[1:]:
                    dt = dt if dt == i.kind else self.join_dtype(dt, i.kind)
                return Arr((const(len(items)),), lambda k: self.pick(items, k), dt, True)
            arrs = [self.as_arr(i) for i in items]
            nd = arrs[0].ndim
            if any(a.ndim != nd for a in arrs):
                raise Unsupported('ragged list')
            for a in arrs[1:]:
                for p, q in zip(a.shape, arrs[0].shape):
                    if p is not q and self.decide(tm.cmp('==', p, q)) is FALSE:
                        raise Unsupported('ragged list')
            dt = arrs[0].dtype
            for a in arrs[1:]:
                dt = dt if dt == a.dtype else self.join_dtype(dt, a.dtype)
            return Arr((const(len(items)),) + arrs[0].shape, lambda k, *r: self.pick([a.get(*r) for a in arrs], k), dt, True)
        if isinstance(x, PySet):
            raise Unsupported('array of a set')
        if isinstance(x, Filt):
            return self.pos_arr(x)
        if isinstance(x, Cat):
            return self.cat_arr(x)
        if isinstance(x, Range):
            n = self.iter_range(x)
            if n[0] == 'items':
                return self.as_arr(PyList(n[1]))
            return Arr((n[1],), lambda k: n[2](k), 'int', True)
        if isinstance(x, Alt):
            a, b = self.as_arr(x.a), self.as_arr(x.b)
            m = self.merge_content(x.c, a, b)
            if isinstance(m, Arr):
                return m
        from .loops import IterV
        if isinstance(x, IterV):
            if x.it[0] == 'items':
                return self.as_arr(PyList(x.it[1]))
            _, n, item, guard = x.it
            if guard is None:
                v0 = item(tm.bound())
                if isinstance(v0, T):
                    return Arr((n,), item, v0.kind, True)
        if isinstance(x, (Builtin, Fn, Mod)):
            t = self.scalar(x)
            return Arr((), lambda: t, 'any')
        raise Unsupported('array of %s' % type(x).__name__)

    def pos_arr(self, f):
        """positional view of a selection"""
        n = f.length()
        if f.p(tm.bound()) is TRUE:
            return Arr((f.n,), lambda i: f.val(i), f.dtype, f.islist)
        return Arr((n,), lambda i: f.val(tm.nth(f.n, i, lambda j: f.pred(j))), f.dtype, f.islist)

    def cat_arr(self, c):
        ps = [self.as_arr(p) for p in c.parts]
        return self.concat_arrs(ps, c.islist)

    def concat_arrs(self, ps, islist=False):
        ps2 = [p for p in ps if not (p.shape[0] is ZERO)]
        if not ps2:
            return ps[0]
        dt = ps2[0].dtype
        for p in ps2[1:]:
            dt = dt if dt == p.dtype else self.join_dtype(dt, p.dtype)
        offs, o = [], ZERO
        for p in ps2:
            offs.append(o)
            o = tm.add(o, p.shape[0])

        def get(i, *r):
            v = None
            for p, of in reversed(list(zip(ps2, offs))):
                j = tm.sub(i, of)
                if v is None:
                    if self.decide_q(tm.cmp('<', i, of)) is TRUE:
                        continue
                    v = self.cast(p.get(j, *r), dt)
                    continue
                c = tm.cmp('<', i, tm.add(of, p.shape[0]))
                d = self.decide_q(c)
                if d is FALSE:
                    continue
                e = self.cast(p.get(j, *r), dt)
                v = e if d is TRUE else self.merge(c, e, v)
            return v
        return Arr((o,) + ps2[0].shape[1:], get, dt, islist)

    def decide_q(self, c):
        if c is TRUE or c is FALSE:
            return c
        return self.decide(c)

    def concat(self, parts):
        xs = []
        for p in parts:
            x = self.rd(p)
            if isinstance(x, Cat):
                xs += [self.rd(y) for y in x.parts]
            else:
                xs.append(x)
        if any(isinstance(x, Filt) for x in xs):
            xs = [x for x in xs if not (isinstance(x, PyList) and not x.items) and not (isinstance(x, Arr) and x.shape[0] is ZERO)]
            if len(xs) == 1:
                return xs[0]
            return Cat(xs)
        return self.concat_arrs([self.as_arr(x) for x in xs])

    def broadcast_to(self, a, shape):
        off = len(shape) - a.ndim
        if off < 0:
            # leading axes of length one may be dropped
            if all(d is ONE for d in a.shape[:-off]):
                k = -off
                return lambda *i: a.get(*([ZERO] * k + list(i)))
            raise Unsupported('broadcast')

        def get(*i):
            ix = []
            for d, j in zip(a.shape, i[off:]):
                ix.append(ZERO if d is ONE else j)
            return a.get(*ix)
        return get

    def bshape(self, arrs):
        nd = max(a.ndim for a in arrs)
        sh = []
        for ax in range(nd):
            d = ONE
            for a in arrs:
                k = ax - (nd - a.ndim)
                if k < 0:
                    continue
                s = a.shape[k]
                if s is ONE or s is d:
                    continue
                if d is ONE:
                    d = s
                else:
                    e = self.decide(tm.cmp('==', s, d))
                    if e is FALSE:
                        self.raise_if(TRUE, 'ValueError')
                    if e is None:
                        self.raise_if(tm.cmp('!=', s, d), 'ValueError', hazard=True)
            sh.append(d)
        return tuple(sh)

    def same_sel(self, f, g):
        if f.n is not g.n:
            return False
        k = tm.bound()
        a, b = f.p(k), g.p(k)
        return a is b

    def mapn(self, f, vs, dtype=None):
        """apply a scalar function elementwise"""
        xs = [self.rd(v) if isinstance(v, (Ref, Alt)) else v for v in vs]
        for i, x in enumerate(xs):
            if isinstance(x, Alt):
                p = xs[:i] + [x.a] + xs[i + 1:]
                q = xs[:i] + [x.b] + xs[i + 1:]
                return self.merge(x.c, self.box(self.mapn(f, p, dtype)), self.box(self.mapn(f, q, dtype)))
        xs = [x.t if isinstance(x, Opaque) else x for x in xs]
        if all(isinstance(x, T) for x in xs):
            return f(*xs)
        fs = [x for x in xs if isinstance(x, Filt)]
        if fs:
            if all(isinstance(x, T) or (isinstance(x, Filt) and self.same_sel(x, fs[0])) or (isinstance(x, Arr) and x.ndim == 0) for x in xs):
                g = fs[0]
                at = lambda k: f(*[x.val(k) if isinstance(x, Filt) else (x if isinstance(x, T) else x.get()) for x in xs])
                return Filt(g.n, g.p, at, at(tm.bound()).kind)
        arrs = [self.as_arr(x) for x in xs]
        filt = None
        for a in arrs:
            if a.filt is not None:
                if len([1 for b in arrs if b.ndim > 0]) == 1:
                    filt = a.filt
        sh = self.bshape(arrs)
        if not sh:
            return f(*[a.get() for a in arrs])
        gs = [self.broadcast_to(a, sh) for a in arrs]

        def get(*i):
            return self.lift(f, [g(*i) for g in gs])
        if dtype is None:
            smp = get(*[tm.bound() for _ in sh])
            dtype = smp.kind if isinstance(smp, T) else 'any'
        r = Arr(sh, get, dtype)
        if filt is not None:
            ax, n, p, g0 = filt
            r.filt = (ax, n, p, lambda *i: f(*[g0(*i) if b.filt is not None else b.get() for b in arrs]))
        return r

    def lift(self, f, ts):
        for i, t in enumerate(ts):
            if isinstance(t, Alt):
                return self.merge(t.c, self.lift(f, ts[:i] + [t.a] + ts[i + 1:]), self.lift(f, ts[:i] + [t.b] + ts[i + 1:]))
        return f(*[self.scalar(t) for t in ts])

    def map1(self, f, v):
        return self.mapn(f, [v])

    # ------------------------------------------------------------ operators
    def sop(self, op, a, b):
        if op in ('Add', 'Sub', 'Mult', 'Div', 'Pow', 'FloorDiv', 'Mod'):
            for x in (a, b):
                if x.kind in ('none',):
                    self.raise_if(TRUE, 'TypeError')
            if a.kind == 'str' or b.kind == 'str':
                if op in ('Mod', 'Add', 'Mult') and a.kind == 'str':
                    if op == 'Add' and a.op == 'str' and b.op == 'str':
                        return const(a.args[0] + b.args[0])
                    return tm.opq('text', kind='str')
                self.raise_if(TRUE, 'TypeError')
            a, b = b2i(a), b2i(b)
        if op == 'Add':
            return tm.add(a, b)
        if op == 'Sub':
            return tm.sub(a, b)
        if op == 'Mult':
            return tm.mul(a, b)
        if op == 'Div':
            return tm.div(a, b)
        if op == 'Pow':
            return tm.power(a, b)
        if op == 'FloorDiv':
            r = tm.fn('floor', tm.div(a, b))
            return r if a.kind in ('int', 'bool') and b.kind in ('int', 'bool') else tm.fn('tofloat', r)
        if op == 'Mod':
            return tm.fn('mod', a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if a.kind == 'bool' and b.kind == 'bool':
                if op == 'BitAnd':
                    return tm.and_(a, b)
                if op == 'BitOr':
                    return tm.or_(a, b)
                return tm.not_(tm.or_(tm.and_(a, b), tm.and_(tm.not_(a), tm.not_(b))))
            return tm.opq('bit.' + op, a, b, kind='int')
        return tm.opq('op.' + op, a, b)

    def set_of(self, r):
        if not isinstance(r, Filt):
            raise Unsupported('set of %s' % type(r).__name__)
        return PySet(r.n, r.p, r.v, r.dtype, True)

    def binop(self, op, a, b):
        x, y = self.rd(a), self.rd(b)
        if op == 'MatMult':
            return self.matmul(x, y)
        if isinstance(x, PySet) or isinstance(y, PySet):
            f = {'BitOr': 'np_union1d', 'BitAnd': 'np_intersect1d', 'Sub': 'np_setdiff1d', 'BitXor': 'np_setxor1d'}.get(op)
            none = lambda z: isinstance(z, PyList) and not z.items
            if none(x) and f:
                return y if op in ('BitOr', 'BitXor') else PyList([])
            if none(y) and f:
                return PyList([]) if op == 'BitAnd' else x
            if not f or not (isinstance(x, PySet) and isinstance(y, PySet)):
                raise Unsupported('set operator')
            return self.set_of(getattr(self, f)([a, b], {}))
        isl = lambda z: isinstance(z, PyList) or (isinstance(z, (Arr, Filt)) and z.islist)
        if isinstance(x, Tup) and isinstance(y, Tup) and op == 'Add':
            return Tup(x.items + y.items)
        if isinstance(x, Tup) and isinstance(y, T) and op == 'Mult':
            if tm.is_int_const(y):
                return Tup(x.items * int(tm.cval(y)))
            raise Unsupported('tuple repetition')
        if isl(x) and isl(y) and op == 'Add':
            if isinstance(x, PyList) and isinstance(y, PyList):
                return PyList(x.items + y.items)
            r = self.concat([x, y])
            return r
        if op == 'Mult' and (isl(x) or isl(y)) and (isinstance(x, T) or isinstance(y, T)):
            l, n = (x, y) if isl(x) else (y, x)
            if isinstance(l, PyList) and tm.is_int_const(n):
                return PyList(l.items * int(tm.cval(n)))
            if isinstance(l, PyList) and len(l.items) == 1:
                v = self.rd(l.items[0])
                if isinstance(v, T):
                    m = n if self.know(tm.cmp('<=', ZERO, n)) else tm.fn('max2', n, ZERO)
                    return Arr((m,), lambda i: v, v.kind, True)
                if isinstance(v, Arr):
                    return Arr((n,) + v.shape, lambda i, *r: v.get(*r), v.dtype, True)
            raise Unsupported('list repetition')
        if isinstance(x, (Builtin, Fn, Mod, PyDict)) or isinstance(y, (Builtin, Fn, Mod, PyDict)):
            raise Unsupported('operator on %s' % type(x).__name__)
        if isl(x) and isinstance(y, T) and op in ('Sub', 'Div', 'Pow', 'Add'):
            if y.op != 'elem' and y.kind in ('int', 'bool', 'none', 'str'):
                self.raise_if(TRUE, 'TypeError')
        return self.mapn(lambda p, q: self.sop(op, p, q), [x, y])

    def compare(self, op, a, b):
        x, y = self.rd(a), self.rd(b)
        if op in ('Is', 'IsNot'):
            r = self.identical(x, y)
            return r if op == 'Is' else tm.not_(r)
        if op in ('In', 'NotIn'):
            r = self.contains(x, y)
            return r if op == 'In' else tm.not_(r)
        if isinstance(x, (Builtin, Fn, Mod)) or isinstance(y, (Builtin, Fn, Mod)):
            if isinstance(x, Builtin) and isinstance(y, Builtin):
                same = canon_type(x.name) == canon_type(y.name)
                return const(same if op == 'Eq' else not same)
            if op in ('Eq', 'NotEq'):
                if isinstance(x, T) and x.kind == 'type' or isinstance(y, T) and y.kind == 'type':
                    t = tm.opq('sametype', self.scalar(x), self.scalar(y), kind='bool')
                    return t if op == 'Eq' else tm.not_(t)
                return const(op == 'NotEq')
        if op in ('Eq', 'NotEq') and isinstance(x, (Tup, PyList)) and isinstance(y, (Tup, PyList)) and type(x) is type(y):
            if len(x.items) != len(y.items):
                return const(op == 'NotEq')
            r = tm.and_(*[self.truth(self.compare('Eq', p, q)) for p, q in zip(x.items, y.items)])
            return r if op == 'Eq' else tm.not_(r)
        if op in ('Eq', 'NotEq') and (isinstance(x, (Tup, PyList, PyDict)) and isinstance(y, T) and y.kind in ('str', 'none', 'int', 'float', 'bool') or isinstance(y, (Tup, PyList, PyDict)) and isinstance(x, T) and x.kind in ('str', 'none', 'int', 'float', 'bool')):
            return const(op == 'NotEq')
        o = CMP[op]

        def f(p, q):
            if o not in ('==', '!='):
                for z in (p, q):
                    if z.kind == 'none' or (z.kind == 'str' and not (p.kind == 'str' and q.kind == 'str')):
                        self.raise_if(TRUE, 'TypeError')
            if p.kind == 'bool' and q.kind == 'bool' and o in ('==', '!='):
                r = tm.or_(tm.and_(p, q), tm.and_(tm.not_(p), tm.not_(q)))
                return r if o == '==' else tm.not_(r)
            if p.kind == 'bool':
                p = b2i(p)
            if q.kind == 'bool':
                q = b2i(q)
            return tm.cmp(o, p, q)
        return self.mapn(f, [x, y], 'bool')

    def identical(self, x, y):
        for u, v in ((x, y), (y, x)):
            if isinstance(u, Alt):
                return tm.ite(u.c, self.identical(self.rd(u.a), v), self.identical(self.rd(u.b), v))
        if isinstance(x, T) and isinstance(y, T):
            if x is y:
                return TRUE
            if x is NONE or y is NONE:
                o = y if x is NONE else x
                if o.kind in ('any', 'none') and o.op not in ('str',):
                    return tm.cmp('==', x, y)
                return FALSE
            if x.kind == 'bool' and y.kind == 'bool':
                return tm.or_(tm.and_(x, y), tm.and_(tm.not_(x), tm.not_(y)))
            return tm.cmp('==', x, y)
        if isinstance(x, Builtin) and isinstance(y, Builtin):
            return const(canon_type(x.name) == canon_type(y.name))
        return const(x is y)

    def contains(self, x, y):
        y = self.rd(y)
        if isinstance(y, (Tup, PyList)):
            cs = []
            for i in y.items:
                c = self.compare('Eq', x, i)
                cs.append(self.truth(c))
            return tm.or_(*cs)
        if isinstance(y, PyDict):
            return tm.or_(*[tm.cmp('==', self.scalar(x), k) for k in y.d])
        if isinstance(y, Range):
            s = self.scalar(x)
            return tm.and_(tm.cmp('<=', y.lo, s), tm.cmp('<', s, y.hi))
        s = self.scalar(x)
        if isinstance(y, Arr) and y.ndim == 1:
            return tm.exists(ZERO, y.shape[0], lambda j: tm.cmp('==', y.get(j), s))
        if isinstance(y, Filt):
            if y.is_index():
                return tm.and_(tm.cmp('<=', ZERO, s), tm.cmp('<', s, y.n), y.pred(s))
            return tm.exists(ZERO, y.n, lambda j: tm.and_(y.pred(j), tm.cmp('==', y.val(j), s)))
        if isinstance(y, T):
            if y.op == 'str' and s.op == 'str':
                return const(s.args[0] in y.args[0])
            return tm.opq('in', s, y, kind='bool')
        raise Unsupported('membership in %s' % type(y).__name__)

    def truth(self, v):
        x = self.rd(v)
        if isinstance(x, Opaque):
            x = x.t
        if isinstance(x, T):
            if x.kind == 'bool':
                return x
            if x.kind == 'none':
                return FALSE
            if x.op == 'str':
                return const(bool(x.args[0]))
            if x.kind in ('int', 'float', 'complex'):
                return tm.cmp('!=', x, ZERO)
            return tm.opq('truth', x, kind='bool')
        if isinstance(x, PyList) or isinstance(x, Tup):
            return const(bool(x.items))
        if isinstance(x, PyDict):
            return const(bool(x.d))
        if isinstance(x, Arr):
            if x.islist:
                return tm.cmp('<', ZERO, x.shape[0])
            if x.ndim == 0 or all(d is ONE for d in x.shape):
                return self.truth(self.scalar(x))
            if all(tm.is_int_const(d) for d in x.shape):
                sz = 1
                for d in x.shape:
                    sz *= int(tm.cval(d))
                if sz > 1:
                    self.raise_if(TRUE, 'ValueError')
                if sz == 0:
                    return FALSE
            one = self.decide(tm.cmp('<=', x.shape[0], ONE)) if x.ndim == 1 else None
            if one is FALSE:
                self.raise_if(TRUE, 'ValueError')
            if x.ndim == 1:
                self.raise_if(tm.cmp('<', ONE, x.shape[0]), 'ValueError')
                return tm.and_(tm.cmp('==', x.shape[0], ONE), self.truth(x.get(ZERO)))
            raise Unsupported('truth of an array')
        if isinstance(x, Filt):
            if x.islist:
                return tm.exists(ZERO, x.n, lambda j: x.pred(j))
            raise Unsupported('truth of a selection')
        if isinstance(x, Alt):
            return tm.ite(x.c, self.truth(x.a), self.truth(x.b))
        if isinstance(x, (Fn, Builtin, Mod, BoundM)):
            return TRUE
        raise Unsupported('truth of %s' % type(x).__name__)

    # ------------------------------------------------------------ indexing
    def wrap(self, i, n, check=True):
        """index with Python's negative wrapping"""
        if i.kind not in ('int', 'any', 'bool'):
            if i.kind == 'float':
                self.raise_if(TRUE, 'IndexError')
        if check:
            self.raise_if(tm.or_(tm.cmp('<', i, tm.neg(n)), tm.cmp('<=', n, i)), 'IndexError', hazard=True)
        d = self.decide(tm.cmp('<', i, ZERO))
        if d is FALSE:
            return i
        if d is TRUE:
            return tm.add(i, n)
        return tm.ite(tm.cmp('<', i, ZERO), tm.add(i, n), i)

    def clip_bound(self, t, n):
        neg = self.decide(tm.cmp('<', t, ZERO))

        def pos():
            if self.know(tm.cmp('<=', t, n)):
                return t
            if self.know(tm.cmp('<=', n, t)):
                return n
            return tm.fn('min2', t, n)

        def ng():
            u = tm.add(t, n)
            if self.know(tm.cmp('<=', ZERO, u)):
                return u
            if self.know(tm.cmp('<=', u, ZERO)):
                return ZERO
            return tm.fn('max2', u, ZERO)
        if neg is FALSE:
            return pos()
        if neg is TRUE:
            return ng()
        return tm.ite(tm.cmp('<', t, ZERO), ng(), pos())

    def slice_map(self, s, n):
        """(length, fwd, inv) of a slice of an axis of length n"""
        step = 1
        if s.step is not NONE:
            if not tm.is_int_const(s.step):
                raise Unsupported('slice step')
            step = int(tm.cval(s.step))
            if step == 0:
                self.raise_if(TRUE, 'ValueError')
        for b in (s.lo, s.hi):
            if b.kind == 'float':
                self.raise_if(TRUE, 'TypeError')
        if step > 0:
            lo = ZERO if s.lo is NONE else self.clip_bound(s.lo, n)
            hi = n if s.hi is NONE else self.clip_bound(s.hi, n)
            ln = tm.sub(hi, lo)
            if step > 1:
                ln = tm.fn('floor', tm.div(tm.add(ln, const(step - 1)), const(step)))
            if not self.know(tm.cmp('<=', ZERO, ln)):
                ln = tm.fn('max2', ln, ZERO)
            st = const(step)
            fwd = lambda i: tm.add(lo, tm.mul(st, i))

            def inv(p):
                off = tm.sub(p, lo)
                if step == 1:
                    return tm.and_(tm.cmp('<=', lo, p), tm.cmp('<', off, ln)), off
                q = tm.fn('floor', tm.div(off, st))
                return tm.and_(tm.cmp('<=', lo, p), tm.cmp('<', q, ln), tm.cmp('==', tm.fn('mod', off, st), ZERO)), q
            return ln, fwd, inv
        if s.lo is not NONE and s.hi is not NONE:
            raise Unsupported('negative slice step with bounds')
        top = tm.sub(n, ONE)
        if s.lo is not NONE:
            t = s.lo
            top = tm.ite(tm.cmp('<', t, ZERO), tm.add(t, n), tm.fn('min2', t, top))
        bot = const(-1)
        if s.hi is not NONE:
            bot = self.clip_bound(s.hi, n)
        ln = tm.sub(top, bot)
        m = -step
        if m > 1:
            ln = tm.fn('floor', tm.div(tm.add(ln, const(m - 1)), const(m)))
        if not self.know(tm.cmp('<=', ZERO, ln)):
            ln = tm.fn('max2', ln, ZERO)
        fwd = lambda i: tm.sub(top, tm.mul(const(m), i))

        def inv(p):
            off = tm.sub(top, p)
            if m == 1:
                return tm.and_(tm.cmp('<=', p, top), tm.cmp('<', off, ln)), off
            q = tm.fn('floor', tm.div(off, const(m)))
            return tm.and_(tm.cmp('<=', p, top), tm.cmp('<', q, ln), tm.cmp('==', tm.fn('mod', off, const(m)), ZERO)), q
        return ln, fwd, inv

    def parts(self, idx, nd):
        items = list(idx.items) if isinstance(idx, Tup) else [idx]
        items = [self.rd(i) if isinstance(i, (Ref, Alt)) else i for i in items]
        ell = [k for k, i in enumerate(items) if isinstance(i, T) and i.kind == 'ellipsis']
        used = len([i for i in items if not (isinstance(i, T) and (i.kind in ('ellipsis', 'none')))])
        full = SliceV(NONE, NONE, NONE)
        if ell:
            k = ell[0]
            items = items[:k] + [full] * (nd - used) + items[k + 1:]
        else:
            items += [full] * (nd - used)
        if used > nd:
            self.raise_if(TRUE, 'IndexError')
        return items

    def basic_map(self, items, shape):
        """VMap for a basic index, or None when the index is advanced"""
        comps, out = [], []          # comps: per base axis function of out indices
        ax = 0
        invs = []
        nout = 0
        for it in items:
            if isinstance(it, T) and it.kind == 'none':
                out.append(ONE)
                nout += 1
                continue
            if isinstance(it, Arr) and it.ndim == 0:
                it = it.get()
            if isinstance(it, T):
                if it.kind == 'bool':
                    return None
                i = self.wrap(it, shape[ax])
                comps.append((lambda i: lambda o: i)(i))
                invs.append((lambda i: lambda p: (tm.cmp('==', p, i), None))(i))
                ax += 1
                continue
            if isinstance(it, SliceV):
                if it.lo is NONE and it.hi is NONE and it.step is NONE:
                    ln, f, inv = shape[ax], (lambda i: i), (lambda p: (TRUE, p))
                else:
                    ln, f, inv = self.slice_map(it, shape[ax])
                comps.append((lambda f, k: lambda o: f(o[k]))(f, nout))
                invs.append((lambda inv, k: lambda p: inv(p) + (k,))(inv, nout))
                out.append(ln)
                nout += 1
                ax += 1
                continue
            return None

        def fwd(*o):
            return tuple(c(o) for c in comps)

        def inv(*p):
            c, o = TRUE, [ZERO] * nout
            for g, x in zip(invs, p):
                r = g(x)
                c = tm.and_(c, r[0])
                if r[1] is not None:
                    o[r[2]] = r[1]
            return c, tuple(o)
        return VMap(out, fwd, inv)

    def getitem(self, v, idx):
        if isinstance(v, Builtin):
            return self.lib_item(v, idx)
        if isinstance(v, Alt):
            d = self.decide(v.c)
            if d is not None:
                return self.getitem(v.a if d is TRUE else v.b, idx)
        x = self.rd(v)
        if isinstance(x, Opaque):
            x = x.t
        if isinstance(idx, (Ref, Alt)) and isinstance(self.rd(idx), Tup):
            idx = self.rd(idx)
        if isinstance(x, PyDict):
            k = self.scalar(idx)
            if k in x.d:
                return x.d[k]
            if k.op == 'str' and all(q.op == 'str' for q in x.d):
                self.raise_if(TRUE, 'KeyError')
            raise Unsupported('dictionary key')
        if isinstance(x, (PyList, Tup)):
            i = self.rd(idx) if isinstance(idx, (Ref, Alt)) else idx
            if isinstance(i, T) and tm.is_int_const(i):
                k, n = int(tm.cval(i)), len(x.items)
                if not -n <= k < n:
                    self.raise_if(TRUE, 'IndexError')
                return x.items[k]
            if isinstance(i, SliceV) and all(z is NONE or tm.is_int_const(z) for z in (i.lo, i.hi, i.step)):
                c = lambda z: None if z is NONE else int(tm.cval(z))
                r = x.items[c(i.lo):c(i.hi):c(i.step)]
                return PyList(r) if isinstance(x, PyList) else Tup(r)
            x = self.as_arr(x)
        if isinstance(x, T):
            if x.kind in ('int', 'float', 'bool', 'none', 'complex'):
                i = self.rd(idx) if isinstance(idx, (Ref, Alt)) else idx
                if isinstance(i, T) and i.kind == 'ellipsis':
                    return x
                self.raise_if(TRUE, 'TypeError' if x.kind == 'none' or x.op == 'const' else 'IndexError')
            return tm.opq('item', x, self.reify(idx))
        if isinstance(x, Range):
            x = self.as_arr(x)
        if isinstance(x, Cat):
            x = self.cat_arr(x)
        if isinstance(x, Filt):
            i = self.rd(idx) if isinstance(idx, (Ref, Alt)) else idx
            if isinstance(i, SliceV) and i.lo is NONE and i.hi is NONE and i.step is NONE:
                return x
            if isinstance(i, SliceV) and i.lo is NONE and i.hi is NONE and tm.is_int_const(i.step) and tm.cval(i.step) == -1 and not isinstance(x, PySet):
                back = lambda k: tm.sub(tm.sub(x.n, ONE), k)
                return Filt(x.n, lambda k: x.pred(back(k)), lambda k: x.val(back(k)), x.dtype, x.islist)
            if isinstance(i, SliceV) and i.lo is ZERO and i.step is NONE or isinstance(i, SliceV) and i.lo is NONE and i.step is NONE:
                # the first m selected ones
                m = i.hi
                if tm.is_int_const(m) and tm.cval(m) >= 0:
                    return Filt(x.n, lambda k: tm.and_(x.pred(k), tm.cmp('<', tm.total(ZERO, k, lambda j: b2i(x.pred(j))), m)), x.v, x.dtype, x.islist)
            if isinstance(i, Tup) and len(i.items) == 1:
                return self.getitem(x, i.items[0])
            if isinstance(i, Filt) and i.dtype == 'bool' and self.same_sel(x, i) and not isinstance(x, (PySet, Shuffled)):
                # a mask over the selected ones
                return Filt(x.n, lambda k: tm.and_(x.pred(k), i.val(k)), x.v, x.dtype)
            x = self.pos_arr(x)
        if not isinstance(x, Arr):
            raise Unsupported('index of %s' % type(x).__name__)
        if x.ndim == 0:
            i = self.rd(idx) if isinstance(idx, (Ref, Alt)) else idx
            if isinstance(i, T) and i.kind == 'ellipsis' or isinstance(i, Tup) and not i.items:
                return x
            if isinstance(i, T) and i.kind == 'none':
                return Arr((ONE,), lambda k: x.get(), x.dtype)
            if x.dtype == 'any':
                return tm.opq('item', x.get(), self.reify(idx))
            self.raise_if(TRUE, 'IndexError')
        items = self.parts(idx, x.ndim)
        m = self.basic_map(items, x.shape)
        if m is not None:
            if not m.shape:
                e = x.get(*m.fwd())
                return e
            if isinstance(v, Ref) and not x.islist:
                return Ref(v.cell, v.maps + (m,))
            return Arr(m.shape, lambda *i: x.get(*m.fwd(*i)), x.dtype, x.islist)
        return self.fancy_get(x, items)

    def fancy_get(self, x, items):
        # boolean mask of the full shape
        if isinstance(items[0], Arr) and items[0].dtype == 'bool' and items[0].ndim == x.ndim and x.ndim > 1:
            flat, mk_ = self.ravel(x), self.ravel(items[0])
            return Filt(flat.shape[0], lambda k: mk_.get(k), lambda k: flat.get(k), x.dtype)
        adv = [k for k, i in enumerate(items) if not isinstance(i, (SliceV,)) and not (isinstance(i, T) and i.kind != 'bool')]
        if len(adv) == 1 and x.ndim == 1:
            it = self.as_index(items[0])
            if isinstance(it, Filt):
                n = x.shape[0]
                return Filt(it.n, it.p, lambda k: x.get(self.wrapq(it.val(k), n)), x.dtype)
            if it.dtype == 'bool':
                self.raise_if(tm.cmp('!=', it.shape[0], x.shape[0]), 'IndexError', hazard=True)
                return Filt(x.shape[0], lambda k: it.get(k), lambda k: x.get(k), x.dtype)
            self.index_hazard(it, x.shape[0])
            return Arr(it.shape, lambda *k: x.get(self.wrapq(it.get(*k), x.shape[0])), x.dtype)
        if len(adv) == 1 and x.ndim == 2:
            a = adv[0]
            it = self.as_index(items[a])
            other = 1 - a
            oth = items[other]
            if isinstance(it, Arr) and it.dtype == 'bool':
                mk_ = it
                it = Filt(x.shape[a], lambda k: mk_.get(k), lambda k: k, 'int')
            if isinstance(oth, SliceV) and oth.lo is NONE and oth.hi is NONE and oth.step is NONE:
                n = x.shape[a]
                if isinstance(it, Filt):
                    pa = self.pos_arr(it)
                    pos = (lambda i, j: x.get(i, self.wrapq(pa.get(j), n))) if a == 1 else (lambda i, j: x.get(self.wrapq(pa.get(i), n), j))
                    ful = (lambda i, j: x.get(i, self.wrapq(it.val(j), n))) if a == 1 else (lambda i, j: x.get(self.wrapq(it.val(i), n), j))
                    sh = (x.shape[0], pa.shape[0]) if a == 1 else (pa.shape[0], x.shape[1])
                    return Arr(sh, pos, x.dtype, False, (a, it.n, it.p, ful))
                if it.ndim == 1:
                    g = (lambda i, j: x.get(i, self.wrapq(it.get(j), n))) if a == 1 else (lambda i, j: x.get(self.wrapq(it.get(i), n), j))
                    sh = (x.shape[0], it.shape[0]) if a == 1 else (it.shape[0], x.shape[1])
                    return Arr(sh, g, x.dtype)
            if isinstance(oth, T):
                o = self.wrap(oth, x.shape[other])
                row = Arr((x.shape[a],), (lambda j: x.get(o, j)) if a == 1 else (lambda j: x.get(j, o)), x.dtype)
                return self.fancy_get(row, [items[a]])
        if len(adv) == 2 and x.ndim == 2:
            i0, i1 = self.as_index(items[0]), self.as_index(items[1])
            if isinstance(i0, Filt) and isinstance(i1, Filt) and self.same_sel(i0, i1):
                return Filt(i0.n, i0.p, lambda k: x.get(i0.val(k), i1.val(k)), x.dtype)
            i0, i1 = self.as_arr(i0), self.as_arr(i1)
            if i0.ndim == 1 and i1.ndim == 1:
                return Arr(i0.shape, lambda k: x.get(self.wrapq(i0.get(k), x.shape[0]), self.wrapq(i1.get(k), x.shape[1])), x.dtype)
        raise Unsupported('advanced index %s of %s' % ([getattr(i, 'shape', i) for i in items], x.shape))

    def as_index(self, it):
        if isinstance(it, Filt):
            return self.pos_arr(it) if it.dtype == 'bool' else it
        if isinstance(it, Tup) and len(it.items) == 1:
            return self.as_index(self.rd(it.items[0]))
        if isinstance(it, PyList) and not it.items:
            return Arr((ZERO,), lambda i: ZERO, 'int')
        a = self.as_arr(it)
        if a.ndim == 1 and a.shape[0] is ZERO:
            return Arr((ZERO,), lambda i: ZERO, 'int' if a.islist or a.dtype == 'int' else a.dtype)
        if a.dtype in ('float', 'complex'):
            self.raise_if(TRUE, 'IndexError')
        return a

    def index_hazard(self, it, n):
        if it.ndim == 1:
            self.raise_if(tm.exists(ZERO, it.shape[0], lambda j: tm.or_(tm.cmp('<', it.get(j), tm.neg(n)), tm.cmp('<=', n, it.get(j)))), 'IndexError', hazard=True)

    def wrapq(self, i, n):
        return self.wrap(i, n, False) if i.kind in ('int', 'any') else i

    # ------------------------------------------------------------ stores
    def setitem(self, base, idx, v):
        if isinstance(base, Alt):
            d = self.decide(base.c)
            if d is not None:
                return self.setitem(base.a if d is TRUE else base.b, idx, v)
            raise Unsupported('store through alternative')
        if not isinstance(base, Ref):
            if isinstance(base, T) and base.kind in ('any',):
                raise Unsupported('store into a library object')
            if isinstance(base, (T, Tup)):
                self.raise_if(TRUE, 'TypeError')
            raise Unsupported('store into %s' % type(base).__name__)
        x = self.rd(base)
        if isinstance(x, PyDict):
            d = dict(x.d)
            d[self.scalar(idx)] = self.box(v)
            self.st.heap[base.cell] = PyDict(d)
            return
        i = self.rd(idx) if isinstance(idx, (Ref, Alt)) else idx
        if isinstance(x, PyList):
            if isinstance(i, T) and tm.is_int_const(i) and not base.maps:
                k, n = int(tm.cval(i)), len(x.items)
                if not -n <= k < n:
                    self.raise_if(TRUE, 'IndexError')
                it = list(x.items)
                it[k] = self.box(v)
                self.st.heap[base.cell] = PyList(it)
                return
            x = self.as_arr(x)
            self.st.heap[base.cell] = x
        if isinstance(x, Filt):
            x = self.pos_arr(x)
            self.st.heap[base.cell] = x
        if not isinstance(x, Arr):
            raise Unsupported('store into %s' % type(x).__name__)
        if isinstance(idx, (Ref, Alt)) and isinstance(i, Tup):
            idx = i
        items = self.parts(idx, x.ndim)
        m = self.basic_map(items, x.shape)
        val = self.rd(v)
        if m is not None:
            ref = Ref(base.cell, base.maps + (m,))
            if isinstance(val, T):
                self.write(ref, lambda *k: val, lambda *k: TRUE)
                return
            if isinstance(val, (Tup, PyList, Arr, Filt, Cat, Range, Alt)):
                va = self.as_arr(val)
                if x.islist and not m.shape:
                    raise Unsupported('list element store')
                if va.ndim > len(m.shape):
                    if all(d is ONE for d in va.shape):
                        e = va.get(*[ZERO] * va.ndim)
                        self.write(ref, lambda *k: e, lambda *k: TRUE)
                        return
                self.check_bcast(va.shape, m.shape)
                g = self.broadcast_to(va, m.shape)
                self.write(ref, g, lambda *k: TRUE)
                return
            if isinstance(val, Opaque):
                t = val.t
                self.write(ref, lambda *k: t, lambda *k: TRUE)
                return
            raise Unsupported('store of %s' % type(val).__name__)
        if x.ndim != 1:
            it0 = items[0]
            if isinstance(it0, Arr) and it0.dtype == 'bool' and it0.ndim == x.ndim and isinstance(val, T):
                self.write(base, lambda *k: val, lambda *k: it0.get(*k))
                return
            if isinstance(it0, Arr) and it0.dtype == 'bool' and it0.ndim == 0:
                it1 = it0.get()
                if isinstance(val, T):
                    self.write(base, lambda *k: val, lambda *k: it1)
                    return
            if x.ndim == 2 and len(items) == 2 and all(isinstance(i, Arr) and i.ndim == 1 and i.dtype == 'int' for i in items) and items[0].shape[0] is items[1].shape[0]:
                # cell by cell; the last one stored stays
                i0, i1 = items
                for i, d in zip(items, x.shape):
                    self.index_hazard(i, d)
                at = lambda j, p, q: tm.and_(tm.cmp('==', self.wrapq(i0.get(j), x.shape[0]), p), tm.cmp('==', self.wrapq(i1.get(j), x.shape[1]), q))
                va = Arr((), lambda: val, val.kind) if isinstance(val, T) else self.as_arr(val)
                if va.ndim < 2:
                    g = self.broadcast_to(va, i0.shape)
                    self.write(base, lambda p, q: g(tm.last(ZERO, i0.shape[0], lambda j: at(j, p, q))), lambda p, q: tm.exists(ZERO, i0.shape[0], lambda j: at(j, p, q)))
                    return
            raise Unsupported('advanced store %s %s %s' % (x.shape, items, val))
        it = self.as_index(items[0])
        n = x.shape[0]
        if isinstance(it, Arr) and it.dtype == 'bool':
            mk_ = it
            it = Filt(n, lambda k: mk_.get(k), lambda k: k, 'int')
        if isinstance(it, Arr):
            self.index_hazard(it, n)
            hit = lambda p: tm.exists(ZERO, it.shape[0], lambda j: tm.cmp('==', self.wrapq(it.get(j), n), p))
            if isinstance(val, T):
                self.write(base, lambda p: val, hit)
                return
            va = self.as_arr(val)
            src = lambda p: tm.last(ZERO, it.shape[0], lambda j: tm.cmp('==', self.wrapq(it.get(j), n), p))
            self.write(base, lambda p: va.get(src(p)) if va.ndim else va.get(), hit)
            return
        if isinstance(val, Arr) and val.ndim == 0:
            val = val.get()
        if isinstance(val, T):
            if it.is_index():
                self.write(base, lambda p: val, lambda p: tm.and_(self.below(p, it.n, n), it.pred(p)))
            else:
                self.write(base, lambda p: val, lambda p: tm.exists(ZERO, it.n, lambda k: tm.and_(it.pred(k), tm.cmp('==', self.wrapq(it.val(k), n), p))))
            return
        if isinstance(val, Filt) and self.same_sel(val, it):
            if it.is_index():
                self.write(base, lambda p: val.val(p), lambda p: tm.and_(self.below(p, it.n, n), it.pred(p)))
            else:
                hit = lambda p, k: tm.and_(it.pred(k), tm.cmp('==', self.wrapq(it.val(k), n), p))
                self.write(base, lambda p: val.val(tm.last(ZERO, it.n, lambda k: hit(p, k))), lambda p: tm.exists(ZERO, it.n, lambda k: hit(p, k)))
            return
        va = self.as_arr(val)
        if va.ndim == 0 or va.shape[0] is ONE:
            e = va.get(*[ZERO] * va.ndim)
            return self.setitem(base, idx, e)
        if it.is_index():
            rank = lambda p: tm.total(ZERO, p, lambda j: b2i(it.pred(j)))
            self.write(base, lambda p: va.get(rank(p)), lambda p: tm.and_(self.below(p, it.n, n), it.pred(p)))
            return
        raise Unsupported('scatter')

    def below(self, p, m, n):
        return TRUE if m is n else tm.cmp('<', p, m)

    def check_bcast(self, src, dst):
        off = len(dst) - len(src)
        for k, d in enumerate(src):
            if d is ONE:
                continue
            j = k + off
            if j < 0:
                continue
            if d is not dst[j]:
                e = self.decide(tm.cmp('==', d, dst[j]))
                if e is FALSE:
                    self.raise_if(TRUE, 'ValueError')
                if e is None:
                    self.raise_if(tm.cmp('!=', d, dst[j]), 'ValueError', hazard=True)

    def list_extend(self, ref, v):
        x = self.rd(ref)
        y = self.rd(v)
        if isinstance(x, PyList) and isinstance(y, (PyList, Tup)):
            self.st.heap[ref.cell] = PyList(x.items + list(y.items))
        else:
            r = self.concat([x, y])
            if isinstance(r, Arr):
                r = Arr(r.shape, r.f, r.dtype, True)
            self.st.heap[ref.cell] = r

    # ------------------------------------------------------------ reification
    def reify(self, v):
        x = self.rd(v) if isinstance(v, (Ref, Alt)) else v
        if isinstance(x, T):
            return x
        if isinstance(x, Opaque):
            return x.t
        if isinstance(x, Arr):
            return self.reify_arr(x)
        if isinstance(x, (Filt, Cat, Range)):
            return self.reify_arr(self.as_arr(x))
        if isinstance(x, PyList):
            try:
                return self.reify_arr(self.as_arr(x))
            except Unsupported:
                return tm.opq('list', *[self.reify(i) for i in x.items])
        if isinstance(x, Tup):
            return tm.opq('tuple', *[self.reify(i) for i in x.items])
        if isinstance(x, PyDict):
            return tm.opq('dict', *[y for k in sorted(x.d, key=lambda q: str(q.args[0])) for y in (k, self.reify(x.d[k]))])
        if isinstance(x, SliceV):
            return tm.opq('slice', x.lo, x.hi, x.step)
        if isinstance(x, Builtin):
            return tm.opq('name:' + canon_type(x.name))
        if isinstance(x, Fn):
            return self.reify_fn(x)
        if isinstance(x, Alt):
            return tm.ite(x.c, self.reify(x.a), self.reify(x.b))
        from .loops import IterV
        if isinstance(x, IterV):
            return self.reify_arr(self.as_arr(x))
        raise Unsupported('reify %s' % type(x).__name__)

    def reify_arr(self, a):
        def rec(idx, k):
            if k == a.ndim:
                e = a.get(*idx)
                return e if isinstance(e, T) else self.reify(e)
            return tm.lam(a.shape[k], lambda j: rec(idx + [j], k + 1))
        return rec([], 0)

    def reify_fn(self, f):
        """a function value described by its result on symbolic arguments"""
        a = f.node.args
        n = len(a.args) - len(f.defaults or a.defaults)
        args = [tm.sym('arg%d' % i, 'float', 'x') for i in range(n)]
        st, outs, hz = self.st, self.outs, list(self.hazards)
        self.st, self.outs = self.st.copy(), []
        try:
            r = self.call_fn(f, args, {})
            t = self.reify(r)
        except Dead:
            t = tm.opq('raises')
        finally:
            self.st, self.outs = st, outs
            self.hazards[:] = hz
        return tm.opq('function', t)


def canon_type(n):
    return {'numpy.float64': 'float', 'numpy.float_': 'float', 'numpy.int64': 'int', 'numpy.int_': 'int', 'numpy.complex128': 'complex', 'numpy.bool_': 'bool',
            'numpy.double': 'float'}.get(n, n)
