"""Loops -> closed forms.

A symbolic loop body is interpreted once (iterated until the set of changed slots is stable) on placeholder values; the
updates are then solved: invariants, temporaries, first-order linear recurrences (counters, sums, exponential averages), resets,
element-wise stores, appends and conditional appends, searches with an early exit.  What cannot be solved becomes a `Fold`.
"""
import ast
from . import terms as tm
from .terms import T, const, ZERO, ONE, TRUE, FALSE, NONE
from .values import *
from . import facts as fa
from .val import Fold

UNROLL = 16


ONCE = set()          # array states written once per position that read themselves at a fixed distance only


class IterV:
    """iteration protocol value: ('items', list) or ('sym', n, item, guard)"""
    __slots__ = ('it',)

    def __init__(self, it):
        self.it = it


class Poison:
    def __repr__(self):
        return 'POISON'


POISON = Poison()


class Slot:
    __slots__ = ('key', 'kind', 'ph', 'lenph', 'init', 'new', 'upd', 'sol', 'content', 'box')

    def __init__(self, key, kind, init):
        self.key, self.kind, self.init = key, kind, init
        self.ph = self.lenph = self.new = self.upd = self.sol = self.content = self.box = None


def level(j):
    n = j.args[0]
    return int(n[1:]) if n[0] == 'b' and n[1:].isdigit() else -1


def rewrite(t, rw, memo=None):
    """replace subterms: rw(term) gives a replacement or None"""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    r = rw(t)
    if r is None:
        if t.op in ('const', 'sym', 'nan', 'inf', 'pi', 'imag', 'none', 'str'):
            r = t
        elif t.op in tm.BINDERS:
            lv = level(t.args[0])
            old = tm._depth[0]
            if lv >= 0:
                tm._depth[0] = max(old, lv + 1)
            try:
                r = tm.rebuild(t, lambda x: rewrite(x, rw, memo))
            finally:
                tm._depth[0] = old
        elif t.op == 'fold':
            L = t.args[0]
            key = ('F', id(L))
            L2 = memo.get(key)
            if L2 is None:
                f = lambda x: rewrite(x, rw, memo)
                L2 = Fold(L.k, f(L.n) if L.n is not None else None, [(p, f(i), f(u)) for p, i, u in L.slots], [(l, f(c)) for l, c in L.exits], L.src)
                L2.name, L2.lens, L2.distinct = L.name, L.lens, {p: b and tuple(f(x) for x in b) for p, b in L.distinct.items()}
                if L2.n is L.n and all(a[1] is b[1] and a[2] is b[2] for a, b in zip(L.slots, L2.slots)) and all(a[1] is b[1] for a, b in zip(L.exits, L2.exits)):
                    L2 = L
                memo[key] = L2
                memo[('keep', id(L2))] = L2
            r = tm.mk('fold', L2, t.args[1], rewrite(t.args[2], rw, memo), kind=t.kind)
        else:
            r = tm.rebuild(t, lambda x: rewrite(x, rw, memo))
    memo[t.id] = r
    return r


def affine(t, p):
    """(alpha, beta) with t == alpha*p + beta, or None"""
    if not tm.depends(t, p):
        return ZERO, t
    if t is p:
        return ONE, ZERO
    op, a = t.op, t.args
    if op == 'add':
        al, be = [], []
        for x in a[0]:
            r = affine(x, p)
            if r is None:
                return None
            al.append(r[0])
            be.append(r[1])
        return tm.add(*al), tm.add(*be)
    if op == 'mul':
        dep = [x for x in a[0] if tm.depends(x, p)]
        rest = [x for x in a[0] if not tm.depends(x, p)]
        if len(dep) != 1:
            return None
        r = affine(dep[0], p)
        if r is None:
            return None
        m = tm.mul(*rest) if rest else ONE
        return tm.mul(m, r[0]), tm.mul(m, r[1])
    if op == 'ite' and not tm.depends(a[0], p):
        x, y = affine(a[1], p), affine(a[2], p)
        if x is None or y is None:
            return None
        return tm.ite(a[0], x[0], y[0]), tm.ite(a[0], x[1], y[1])
    if op == 'fn' and a[0] == 'tofloat':
        return affine(a[1], p)
    return None


def in_step(a, b, d, m=ONE):
    """a - m * b == d on every branch"""
    if tm.sub(a, tm.mul(m, b)) is d:
        return True
    if a.op == 'ite' and b.op == 'ite' and a.args[0] is b.args[0]:
        return in_step(a.args[1], b.args[1], d, m) and in_step(a.args[2], b.args[2], d, m)
    return False


def solve_rec(k, p, h, base):
    """a(-1) = base, a(j) = h(k:=j, p:=a(j-1));  returns j -> a(j) for j >= -1, or None"""
    at = lambda t, j: tm.subst(t, {k: j})
    if h is p:
        return lambda j: base
    if not tm.depends(h, p):
        return lambda j: tm.ite(tm.cmp('<=', ZERO, j), at(h, j), base)
    r = affine(h, p)
    if r is None:
        return None
    al, be = r
    if is_one(al):
        if not tm.depends(be, k):
            return lambda j: tm.add(base, tm.mul(be, tm.add(j, ONE)))
        return lambda j: tm.add(base, tm.total(ZERO, tm.add(j, ONE), lambda i: at(be, i)))
    if not tm.depends(al, k):
        return lambda j: tm.add(tm.mul(tm.power(al, tm.add(j, ONE)), base),
                                tm.total(ZERO, tm.add(j, ONE), lambda i: tm.mul(tm.power(al, tm.sub(j, i)), at(be, i))))
    z = zero_one(al)
    if z is not None:
        reset = tm.not_(z)
        b1 = fa.simp(be, (z,))
        b0 = fa.simp(be, (reset,))

        def val(j):
            m = tm.last(ZERO, tm.add(j, ONE), lambda i: at(reset, i))
            start = tm.ite(tm.cmp('<=', ZERO, m), at(b0, m), base)
            if tm.is_const(b1) and tm.cval(b1) == 0:
                return start
            return tm.add(start, tm.total(tm.add(m, ONE), tm.add(j, ONE), lambda i: at(b1, i)))
        return val
    return None


def weaken(c, uns, pos=True):
    """a condition implied by c (or by its negation) that does not mention the symbols uns"""
    if not (c.fb & uns):
        return c if pos else tm.not_(c)
    if c.op == 'not':
        return weaken(c.args[0], uns, not pos)
    if c.op == ('and' if pos else 'or'):
        return tm.and_(*[weaken(x, uns, pos) for x in c.args[0]])
    if c.op == ('or' if pos else 'and'):
        return tm.or_(*[weaken(x, uns, pos) for x in c.args[0]])
    if c.op == 'any' and pos and not (tm.fbs(c.args[1:3]) & uns):
        b = weaken(c.args[3], uns)
        return tm.rebuild(tm.mk('any', c.args[0], c.args[1], c.args[2], b, kind='bool'), lambda x: x) if b is not TRUE else tm.cmp('<', c.args[1], c.args[2])
    if c.op == 'ite' and pos and not (c.args[0].fb & uns):
        return tm.ite(c.args[0], weaken(c.args[1], uns), weaken(c.args[2], uns))
    return TRUE


def is_one(t):
    return tm.is_const(t) and tm._num(tm.cval(t)) == 1


def zero_one(t):
    """condition under which t is 1, when t is built from 0 and 1 by if-then-else"""
    if tm.is_const(t):
        v = tm._num(tm.cval(t))
        return TRUE if v == 1 else FALSE if v == 0 else None
    if t.op == 'ite':
        a, b = zero_one(t.args[1]), zero_one(t.args[2])
        if a is None or b is None:
            return None
        return tm.or_(tm.and_(t.args[0], a), tm.and_(tm.not_(t.args[0]), b))
    return None


class LoopMixin:
    # ------------------------------------------------------------ iteration protocol
    def iter_of(self, v):
        if isinstance(v, IterV):
            return v.it
        x = self.rd(v)
        if isinstance(x, IterV):
            return x.it
        if isinstance(x, Alt):
            d = self.decide(x.c)
            if d is not None:
                return self.iter_of(x.a if d is TRUE else x.b)
            raise Unsupported('iteration over alternatives')
        if isinstance(x, (Tup, PyList)):
            return ('items', list(x.items))
        if isinstance(x, Range):
            return self.iter_range(x)
        if isinstance(x, Arr):
            if x.ndim == 0:
                self.raise_if(TRUE, 'TypeError')
            n = x.shape[0]
            if tm.is_int_const(n) and tm.cval(n) <= UNROLL:
                return ('items', [self.getitem(v, const(i)) for i in range(int(tm.cval(n)))])
            if x.ndim == 1:
                return ('sym', n, lambda k: x.get(k), None)
            return ('sym', n, lambda k: self.getitem(v, k), None)
        if isinstance(x, PySet):
            raise Unsupported('order of a set')
        if isinstance(x, Filt):
            return ('sym', x.n, lambda k: x.val(k), lambda k: x.pred(k))
        if isinstance(x, Cat):
            a = self.as_arr(x)
            return ('sym', a.shape[0], lambda k: a.get(k), None)
        if isinstance(x, PyDict):
            return ('items', list(x.d))
        if isinstance(x, T):
            if x.kind in ('int', 'float', 'bool', 'none'):
                self.raise_if(TRUE, 'TypeError')
            if x.op == 'str':
                return ('items', [const(c) for c in x.args[0]])
            n = tm.opq('any.len', x, kind='int')
            return ('sym', n, lambda k: tm.opq('item', x, k), None)
        raise Unsupported('iteration over %s' % type(x).__name__)

    def iter_range(self, r):
        st = r.step
        if not tm.is_int_const(st) or tm.cval(st) == 0:
            raise Unsupported('range step')
        s = int(tm.cval(st))
        if s == 1:
            n = tm.sub(r.hi, r.lo)
        elif s == -1:
            n = tm.sub(r.lo, r.hi)
        elif s > 0:
            n = tm.fn('floor', tm.div(tm.add(tm.sub(r.hi, r.lo), const(s - 1)), const(s)))
        else:
            n = tm.fn('floor', tm.div(tm.add(tm.sub(r.lo, r.hi), const(-s - 1)), const(-s)))
        if tm.is_int_const(n):
            c = max(0, int(tm.cval(n)))
            if c <= UNROLL or (self.depth > 3 and c <= 24):
                return ('items', [tm.add(r.lo, const(s * i)) for i in range(c)])
            n = const(c)
        elif not self.know(tm.cmp('<=', ZERO, n)):
            n = tm.fn('max2', n, ZERO)
        return ('sym', n, lambda k: tm.add(r.lo, tm.mul(const(s), k)), None)

    # ------------------------------------------------------------ for / while
    def for_(self, s):
        it = self.iter_of(self.ev(s.iter))
        if it[0] == 'items':
            return self.unroll(s, it[1])
        _, n, item, guard = it
        k = tm.bound(hint='k')

        def setup():
            if guard is not None:
                g = guard(k)
                d = self.decide(g)
                if d is FALSE:
                    self.outs.append(self.out_continue())
                    raise Dead()
                if d is None:
                    c = self.st.copy()
                    c.pc = c.pc + (tm.not_(g),)
                    self.outs.append(self.mk_out('continue', c))
                    self.st = type(self.st)(self.st.env, self.st.heap, self.st.pc + (g,))
            self.assign(s.target, self.box(item(k)))
        return self.sym_loop(s, k, n, setup, None, s.body, s.orelse)

    def mk_out(self, kind, st, val=None):
        from .interp import Out
        return Out(kind, val, st, self.src())

    def out_continue(self):
        return self.mk_out('continue', self.st)

    def unroll(self, s, items):
        base = self.st
        ends, alive = [], True
        for x in items:
            outer, self.outs = self.outs, []
            pc0 = self.st.pc
            self.st = self.st.copy()
            try:
                self.assign(s.target, self.box(x))
                alive = self.run(s.body)
            except Dead:
                alive = False
            conts = [self.st] if alive else []
            outs, self.outs = self.outs, outer
            for o in outs:
                if o.kind == 'continue':
                    conts.append(o.st)
                elif o.kind == 'break':
                    ends.append(o.st)
                else:
                    self.outs.append(o)
            alive = bool(conts)
            if not alive:
                break
            self.st = self.merge_states(pc0, conts)
        if alive and s.orelse:
            alive = self.run(s.orelse)
        return self.join(base, ends + ([self.st] if alive else []))

    def while_(self, s):
        # loops whose test is settled in every iteration are unrolled
        snap = (self.st.copy(), list(self.outs), list(self.hazards), tm.cur_src[0])
        try:
            r = self.while_unroll(s)
            if r is not None:
                return r
        except Unsupported:
            pass
        self.st, outs, hz, tm.cur_src[0] = snap[0], snap[1], snap[2], snap[3]
        self.outs[:] = outs
        self.hazards[:] = hz
        k = tm.bound(hint='k')
        return self.sym_loop(s, k, None, lambda: None, s.test, s.body, s.orelse)

    def while_unroll(self, s):
        base = self.st
        self.st = self.st.copy()
        ends = []
        keep = list(self.outs)
        for _ in range(40):
            c = self.decide(self.truth(self.ev(s.test)))
            if c is None:
                self.outs[:] = keep
                return None
            if c is FALSE:
                if s.orelse and not self.run(s.orelse):
                    return self.join(base, ends)
                return self.join(base, ends + [self.st])
            outer, self.outs = self.outs, []
            pc0 = self.st.pc
            try:
                alive = self.run(s.body)
            finally:
                outs, self.outs = self.outs, outer
            conts = [self.st] if alive else []
            for o in outs:
                if o.kind == 'continue':
                    conts.append(o.st)
                elif o.kind == 'break':
                    ends.append(o.st)
                else:
                    self.outs.append(o)
            if not conts:
                return self.join(base, ends)
            if len(outs) > len([o for o in outs if o.kind == 'continue']) and not ends and len(conts) > 1:
                pass
            self.st = self.merge_states(pc0, conts)
        self.outs[:] = keep
        return None

    # ------------------------------------------------------------ symbolic loop
    def sym_loop(self, node, k, n, setup, test, body, orelse):
        pre = self.st
        outer = self.outs
        h0 = len(self.hazards)
        slots = {}
        rng = (tm.cmp('<=', ZERO, k),) + ((tm.cmp('<', k, n),) if n is not None else ())
        base_pc = pre.pc + rng
        src = self.src()
        for attempt in range(12):
            del self.hazards[h0:]
            self.st = pre.copy()
            self.st.pc = base_pc
            for sl in slots.values():
                self.place(sl)
            start = self.st.copy()
            self.outs = []
            tcond = TRUE
            alive = True
            try:
                if test is not None:
                    tcond = self.truth(self.ev(test))
                    d = self.decide(tcond)
                    if d is not None:
                        tcond = d
                    if tcond is not TRUE:
                        self.st = type(self.st)(self.st.env, self.st.heap, self.st.pc + (tcond,))
                setup()
                if tcond is FALSE:
                    alive = False
                else:
                    alive = self.run(body)
            except Dead:
                alive = False
            finally:
                outs, self.outs = self.outs, outer
            conts = [self.st] if alive else []
            exits = []
            for o in outs:
                if o.kind == 'continue':
                    conts.append(o.st)
                else:
                    exits.append(o)
            end = self.merge_states(base_pc, conts)
            changed = False
            if end is not None:
                changed = self.find_slots(pre, start, end, slots)
            if not changed and end is not None and not self.inductions(slots, k, end):
                break
            if end is None:
                break
        else:
            raise Unsupported('loop does not stabilise')
        self.loops_seen.append(src)
        return self.close_loop(node, k, n, pre, start, end, exits, slots, tcond if test is not None else None, base_pc, orelse, h0, src)

    def inductions(self, slots, k, end):
        """scalars that change by a fixed amount per iteration are functions of the iteration number"""
        phs = set()
        for sl in slots.values():
            if isinstance(sl.ph, dict):
                phs |= set(sl.ph.values())
            elif sl.ph is not None:
                phs.add(sl.ph)
            if sl.lenph is not None:
                phs.add(sl.lenph)
        found = False
        for sl in slots.values():
            if sl.kind != 'scalar' or sl.sol is not None or sl.ph.kind != 'int' or not isinstance(sl.init, T):
                continue
            new = end.env.get(sl.key[1]) if sl.key[0] == 'v' else end.heap.get(sl.key[1])
            if not isinstance(new, T) or new is sl.ph:
                continue
            d = tm.sub(new, sl.ph)
            if d.fb & phs or k in d.fb or not tm.is_int_const(d):
                continue
            init = sl.init
            sl.sol = (lambda init, d: lambda kk: tm.add(init, tm.mul(d, kk)))(init, d)
            sl.upd = sl.sol(k)
            found = True
        return found

    def place(self, sl):
        what, key = sl.key
        if sl.kind == 'scalar' and sl.sol is not None:
            if what == 'v':
                self.st.env[key] = sl.upd
            else:
                self.st.heap[key] = sl.upd
            return
        if sl.kind == 'poison':
            if what == 'v':
                self.st.env[key] = POISON
            else:
                self.st.heap[key] = POISON
            return
        if sl.kind == 'undef':
            return
        if what == 'v':
            if sl.kind == 'scalar':
                self.st.env[key] = sl.ph
            else:
                if sl.box is None:
                    sl.box = next(self.cells)
                self.st.heap[sl.box] = sl.content
                self.st.env[key] = Ref(sl.box)
        else:
            self.st.heap[key] = sl.ph if sl.kind == 'scalar' else sl.content

    def find_slots(self, pre, start, end, slots):
        changed = False
        for key in list(end.env):
            if key.startswith('$'):
                continue
            a, b = start.env.get(key, UNDEF), end.env.get(key, UNDEF)
            if a is b:
                continue
            if isinstance(a, Ref) and isinstance(b, Ref) and a.cell == b.cell and not a.maps and not b.maps:
                continue
            sk = ('v', key)
            changed |= self.note_slot(sk, pre.env.get(key, UNDEF), a, b, start, end, slots)
        for cell in list(start.heap):
            a, b = start.heap[cell], end.heap.get(cell)
            if a is b or b is None:
                continue
            owner = [s for s in slots.values() if s.box == cell]
            if owner:
                # a variable's own array that is modified in place
                owner[0].new = None
                continue
            if cell not in pre.heap:
                continue
            sk = ('h', cell)
            changed |= self.note_slot(sk, pre.heap[cell], a, b, start, end, slots)
        for cell in ('#calls', '#rng'):
            if cell in end.heap and cell not in start.heap:
                pre.heap[cell] = ZERO
                changed = True
        return changed

    def content_of(self, v, st):
        """array/list contents of an environment value in a state"""
        old = self.st
        self.st = st
        try:
            return self.rd(v) if isinstance(v, (Ref, Alt)) else v
        finally:
            self.st = old

    def note_slot(self, sk, init, a, b, start, end, slots):
        """(re)classify a changed slot; True when the loop body has to be interpreted again"""
        sl = slots.get(sk)
        if sl is not None and sl.kind in ('poison', 'undef'):
            return False
        i0 = init
        if sk[0] == 'v':
            if init is UNDEF:
                if sl is None:
                    slots[sk] = Slot(sk, 'undef', UNDEF)
                return False
            init = self.content_of(init, start if False else self._prestate(start, init))
            b = self.content_of(b, end)
        if isinstance(init, Opaque) and isinstance(b, Opaque):
            init, b = init.t, b.t
            # library object: keep its description as a scalar
            if sl is None:
                sl = Slot(sk, 'opq', init)
                sl.ph = tm.bound('any', 's')
                sl.content = Opaque(sl.ph)
                slots[sk] = sl
                return True
            return False
        if isinstance(init, T) and init.kind in ('int', 'float', 'complex') and isinstance(b, Arr) and b.ndim and not b.islist and all(d is ONE for d in b.shape):
            # a number that becomes a one-element array: the same values throughout
            init = (lambda t, b: Arr(b.shape, lambda *i: t, t.kind))(init, b)
        if isinstance(init, T) and isinstance(b, T):
            kd = init.kind if init.kind == b.kind else tm.join_kind(init.kind, b.kind)
            if sl is None:
                sl = Slot(sk, 'scalar', init)
                sl.ph = tm.bound(kd, 's')
                slots[sk] = sl
                return True
            if sl.kind == 'scalar' and sl.ph.kind != kd and tm.join_kind(sl.ph.kind, kd) != sl.ph.kind:
                sl.ph = tm.bound(tm.join_kind(sl.ph.kind, kd), 's')
                return True
            return False
        if isinstance(init, (PyList, Arr, Filt, Cat)) and isinstance(b, (PyList, Arr, Filt, Cat)):
            try:
                isl = isinstance(init, PyList) or getattr(init, 'islist', False)
                x, y = self.as_arr(init), self.as_arr(b)
            except Unsupported:
                x = y = None
            if x is not None:
                if self.is_empty(x) and y.ndim > 1:
                    x = Arr((ZERO,) + y.shape[1:], lambda *i: y.get(*i), y.dtype)
                if x.ndim == y.ndim and x.ndim >= 1:
                    return self.array_slot(sk, sl, slots, x, y, isl)
        if sl is None or sl.kind != 'poison':
            s = Slot(sk, 'poison', init)
            slots[sk] = s
            return True
        return False

    def _prestate(self, start, init):
        return start if not isinstance(init, Ref) or init.cell in start.heap else self.st

    def array_slot(self, sk, sl, slots, x, y, isl):
        dt = x.dtype if x.dtype == y.dtype else self.join_dtype(x.dtype, y.dtype)
        if self.is_empty(x) or x.shape[0] is ZERO:
            dt = y.dtype
        same = all(p is q for p, q in zip(x.shape, y.shape))
        if sl is not None:
            if sl.kind == 'grow':
                c = sl.content
                if c.dtype != dt and self.join_dtype(c.dtype, dt) != c.dtype:
                    self.grow(sl, x, dt, isl)
                    return True
                return False
            if sl.kind in ('array', 'small'):
                shape_ok = all(p is q for p, q in zip(sl.content.shape, y.shape))
                if not shape_ok:
                    slots[sk] = sl = Slot(sk, 'grow', x)
                    self.grow(sl, x, dt, isl)
                    return True
                if sl.content.dtype != dt and self.join_dtype(sl.content.dtype, dt) != sl.content.dtype:
                    self.fixed(sl, x, dt, isl)
                    return True
                return False
            return False
        if same:
            sz = 1
            for d in x.shape:
                sz = sz * int(tm.cval(d)) if tm.is_int_const(d) else 10 ** 9
            sl = Slot(sk, 'small' if sz <= 9 else 'array', x)
            slots[sk] = sl
            self.fixed(sl, x, dt, isl)
        else:
            if any(p is not q for p, q in zip(x.shape[1:], y.shape[1:])):
                slots[sk] = Slot(sk, 'poison', x)
                return True
            sl = Slot(sk, 'grow', x)
            slots[sk] = sl
            self.grow(sl, x, dt, isl)
        return True

    def fixed(self, sl, x, dt, isl):
        if sl.kind == 'small':
            dims = [int(tm.cval(d)) for d in x.shape]
            import itertools as it
            sl.ph = {ix: tm.bound(dt, 's') for ix in it.product(*[range(d) for d in dims])}

            def get(*i):
                if all(tm.is_int_const(j) for j in i):
                    return sl.ph[tuple(int(tm.cval(j)) for j in i)]
                items = list(sl.ph.items())
                r = items[-1][1]
                for ix, p in items[:-1]:
                    r = tm.ite(tm.and_(*[tm.cmp('==', j, const(c)) for j, c in zip(i, ix)]), p, r)
                return r
            sl.content = Arr(x.shape, get, dt, isl)
        else:
            ph = tm.mk('sym', 's#%s' % next(tm._bn), 'bound', '', kind='arr')
            sl.ph = ph
            sl.content = Arr(x.shape, lambda *i: tm.mk('sel', ph, 'n', tuple(i), kind=dt), dt, isl)

    def grow(self, sl, x, dt, isl):
        ph = tm.mk('sym', 's#%s' % next(tm._bn), 'bound', '', kind='arr')
        sl.ph, sl.lenph = ph, tm.mk('sym', 'n#%s' % next(tm._bn), 'bound', 'z', kind='int')
        sl.content = Arr((sl.lenph,) + x.shape[1:], lambda *i: tm.mk('sel', ph, 'n', tuple(i), kind=dt), dt, isl)

    # ------------------------------------------------------------ solving
    def close_loop(self, node, k, n, pre, start, end, exits, slots, test, base_pc, orelse, h0, src):
        nb = len(base_pc)
        # conditions under which an iteration leaves the loop
        ex = []
        for o in exits:
            c = tm.and_(*o.st.pc[nb:])
            ex.append([o, c])
        # collect updates
        upd = {}
        scal = {}          # placeholder symbol -> update (term)
        inits = {}
        arrs = {}
        if end is not None:
            for sl in slots.values():
                if sl.kind in ('poison', 'undef'):
                    continue
                what, key = sl.key
                if what == 'v':
                    e = end.env.get(key, UNDEF)
                    new = e if sl.kind == 'scalar' else self.content_of(e, end)
                else:
                    new = end.heap[key]
                    new = self.content_of(new, end) if isinstance(new, Alt) else new
                if isinstance(new, Opaque):
                    new = new.t
                sl.new = new
                if sl.kind in ('scalar', 'opq'):
                    if not isinstance(new, T):
                        raise Unsupported('loop variable changes type')
                    scal[sl.ph] = new
                    inits[sl.ph] = self.cast_kind(sl.init, sl.ph.kind)
                elif sl.kind == 'small':
                    na = self.as_arr(new)
                    for ix, p in sl.ph.items():
                        ci = [const(j) for j in ix]
                        scal[p] = na.get(*ci)
                        inits[p] = self.cast_kind(sl.init.get(*ci), p.kind)
                elif sl.kind == 'array':
                    sl.new = self.as_arr(new)
                    arrs[sl.ph] = sl
                elif sl.kind == 'grow':
                    sl.new = self.as_arr(new)
                    scal[sl.lenph] = sl.new.shape[0]
                    inits[sl.lenph] = sl.init.shape[0]
                    arrs[sl.ph] = sl
        else:
            # the body never completes: every slot keeps its initial value at the loop head
            for sl in slots.values():
                if sl.kind == 'scalar':
                    scal[sl.ph], inits[sl.ph] = sl.ph, sl.init
        sol_s = {}
        for sl in slots.values():
            if sl.kind == 'scalar' and sl.sol is not None:
                if end is not None and sl.new is not sl.sol(tm.add(k, ONE)):
                    raise Unsupported('induction variable')
                sol_s[sl.ph] = sl.sol
                scal.pop(sl.ph, None)
        allph = set(scal) | set(arrs) | set(sol_s)
        sol_a = {}      # solved: ph -> (kk -> term) ; ph -> ((idx, kk) -> term)

        def sub_solved(t, kk, only=None):
            """replace k and solved placeholders by their values at the head of iteration kk"""
            memo = {}

            def rw(x):
                if x is k:
                    return kk
                if x.op == 'sym' and x in sol_s:
                    return sol_s[x](kk)
                if x.op == 'sel' and x.args[0] in sol_a:
                    idx = tuple(rewrite(i, rw, memo) for i in x.args[2])
                    return sol_a[x.args[0]](idx, kk)
                if not (x.fb & interesting):
                    return x
                return None
            return rewrite(t, rw, memo)
        interesting = frozenset(allph | {k})
        pend_s, pend_a = dict(scal), dict(arrs)
        facts0 = base_pc + tuple(tm.not_(c) for o, c in ex) + ((test,) if test is not None and test is not TRUE else ())
        progress = True
        while progress and (pend_s or pend_a):
            progress = False
            for p in list(pend_s):
                u = sub_solved(pend_s[p], k)
                deps = {x for x in u.fb if x in allph and x not in sol_s and x not in sol_a}
                if deps - {p}:
                    continue
                f = solve_rec(k, p, u, inits[p])
                if f is None:
                    continue
                sol_s[p] = (lambda f: (lambda kk: f(tm.sub(kk, ONE))))(f)
                if u is p:
                    sol_s[p] = (lambda v: (lambda kk: v))(inits[p])
                del pend_s[p]
                progress = True
            for p in list(pend_a):
                sl = pend_a[p]
                f = self.solve_array(sl, k, sub_solved, allph, sol_s, sol_a, facts0) if sl.kind == 'array' else self.solve_grow(sl, k, sub_solved, allph, sol_s, sol_a, facts0)
                if f is not None:
                    sol_a[p] = f
                    del pend_a[p]
                    progress = True
        # integer counters that move in step with another one (or with the length of a list) are not a state of their own
        ints = sorted((q for q in pend_s if q.kind == 'int'), key=lambda q: (q not in {sl.lenph for sl in arrs.values() if sl.kind == 'grow'}, q.id))
        for p in ints[::-1]:
            for q in ints:
                if q is p or q not in pend_s or p not in pend_s:
                    continue
                for m in (ONE, const(-1), const(2), const(3)):
                    d = tm.sub(inits[p], tm.mul(m, inits[q]))
                    to = {p: tm.add(tm.mul(m, q), d)}
                    if (tm.is_int_const(d) or m is not ONE) and in_step(tm.subst(sub_solved(scal[p], k), to), tm.subst(sub_solved(scal[q], k), to), d, m):
                        sol_s[p] = (lambda q, d, m: (lambda kk: tm.add(tm.mul(m, sol_s[q](kk) if q in sol_s else q), d)))(q, d, m)
                        del pend_s[p]
                        break
        # arrays that only record the state: element i is the value stored in the iteration that writes it
        defer = {}
        if pend_s:
            for p in list(pend_a):
                sl = pend_a[p]
                if sl.kind != 'array':
                    continue
                others = [sub_solved(u, k) for q, u in scal.items() if q in pend_s] + [sub_solved(c, k) for o, c in ex] + ([sub_solved(test, k)] if test is not None else [])
                if any(p in u.fb for u in others) or any(p in sub_solved(a.new.get(*[tm.bound() for _ in a.new.shape]), k).fb for q, a in pend_a.items() if q is not p):
                    continue
                f = self.solve_array(sl, k, sub_solved, allph, sol_s, sol_a, facts0, defer_ok=True)
                if f is not None:
                    defer[p] = f
                    del pend_a[p]
        if defer:
            uns0 = frozenset(set(pend_s) | set(pend_a))
            if any(sub_solved(c, k).fb & uns0 for o, c in ex) or test is not None and sub_solved(test, k).fb & uns0:
                for p in defer:
                    pend_a[p] = arrs[p]
                defer = {}
        unsolved = set(pend_s) | set(pend_a)
        # trip count of a while loop
        tests = []
        if test is not None:
            for c in (test.args[0] if test.op == 'and' else (test,)):
                c1 = sub_solved(c, k)
                if n is None and not (c1.fb & frozenset(unsolved)):
                    m = self.while_count(c1, k)
                    if m is not None:
                        n = m
                        continue
                if c1 is not TRUE:
                    tests.append(tm.not_(c1))
        conds = [sub_solved(c, k) for o, c in ex]
        if n is not None:
            rngs = (tm.cmp('<=', ZERO, k), tm.cmp('<', k, n))
            tests = [fa.simp(c, rngs) if self.small(c) else c for c in tests]
            tests = [c for c in tests if c is not FALSE]
            conds = [fa.simp(c, rngs) if self.small(c) else c for c in conds]
        dead = [i for i, c in enumerate(conds) if c is FALSE]
        ex = [e for i, e in enumerate(ex) if i not in dead]
        conds = [c for i, c in enumerate(conds) if i not in dead]
        uns = frozenset(unsolved)
        statefree = not any(c.fb & uns for c in conds + tests) and n is not None
        L = None
        exits_l = [('end', c) for c in tests] + [('%s:%d' % (o.kind + (str(o.val) if o.kind == 'raise' else ''), i), c) for i, ((o, _), c) in enumerate(zip(ex, conds))]
        if unsolved or not statefree:
            order = sorted(unsolved, key=lambda p: p.id)
            fslots = []
            for p in order:
                if p in scal:
                    fslots.append((p, inits[p], sub_solved(scal[p], k)))
                else:
                    sl = arrs[p]
                    fslots.append((p, self.reify_arr(sl.init), self.reify_arr(Arr(tuple(sub_solved(d, k) for d in sl.new.shape), (lambda sl: lambda *i: sub_solved(sl.new.get(*i), k))(sl), sl.new.dtype))))
            L = Fold(k, n, fslots, exits_l if not statefree else [], src)
            L.lens = frozenset(sl.lenph for sl in arrs.values() if sl.kind == 'grow')
            for p in order:
                if p in arrs and arrs[p].kind == 'grow':
                    rng = self.no_repeats(arrs[p], frozenset(allph | {k}))
                    if rng is not False:
                        L.distinct = dict(L.distinct)
                        L.distinct[p] = rng
            self.notes.add(('fold', src))
            for p, f in defer.items():
                sol_a[p] = f(lambda t, kx: tm.mk('fold', self.refold(L, kx), 'end', t, kind=t.kind) if t.fb & uns else t)
        # values at the head of iteration kk, for terms over k and the state
        def at_head(t, kk, label='end', fold=None):
            t1 = sub_solved(t, kk)
            if L is not None and t1.fb & uns:
                return tm.mk('fold', self.refold(fold or L, kk), 'end', t1, kind=t1.kind)
            return t1

        def at_exit(t, label):
            """value of a term over k and the state in the iteration that leaves through `label`"""
            t1 = sub_solved(t, k)
            if not (t1.fb & (uns | {k})):
                return t1
            return tm.mk('fold', L, label, t1, kind=t1.kind)
        res_states = []
        if statefree:
            allc = conds + tests
            if allc:
                any_c = tm.or_(*allc)
                K = tm.first(ZERO, n, lambda j: tm.subst(any_c, {k: j}))
                stopped = tm.cmp('<', K, n)
                d = self.decide(stopped)
                if d is not None:
                    stopped = d
            else:
                K, stopped = n, FALSE
            natural = tm.not_(stopped)
            tstop = FALSE
            if tests:
                tc = tm.or_(*tests)
                tstop = tm.and_(stopped, tm.subst(tc, {k: K}))
                natural = tm.or_(natural, tstop)
            self.finish_hazards(h0, k, n, sub_solved, uns)
            fin = self.final_state(pre, end, slots, lambda t: at_head(t, K if tests else n), lambda t: at_head(t, tm.sub(K if tests else n, ONE)), tm.cmp('<', ZERO, K if tests else n), K if tests else n, sol_s, sol_a, at_head, L, uns, arrs, k, sub_solved)
            outs = []
            for (o, _), c in zip(ex, conds):
                cc = tm.and_(stopped, tm.subst(c, {k: K}) if len(allc) > 1 else TRUE)
                st = self.map_state(pre, start, o.st, lambda t: at_head(t, K), cc)
                outs.append((o, cc, st, lambda t: at_head(t, K)))
        else:
            natural = TRUE
            xs = []
            for (l, c), item in zip(exits_l[len(tests):], ex):
                xs.append(tm.mk('fold', L, 'exit?', sub_solved(c, k), kind='bool'))
            if xs:
                natural = tm.not_(tm.or_(*xs))
                if n is None and not tests:
                    natural = FALSE
            self.finish_hazards(h0, k, n, sub_solved, uns)
            kend = n
            if tests:
                fe = lambda t: at_exit(t, 'end')
                fin = self.final_state(pre, end, slots, fe, fe, None, None, sol_s, sol_a, at_head, L, uns, arrs, k, sub_solved)
            elif n is None:
                fin = None
            else:
                fin = self.final_state(pre, end, slots, lambda t: at_head(t, n), lambda t: at_head(t, tm.sub(n, ONE)), tm.cmp('<', ZERO, n), n, sol_s, sol_a, at_head, L, uns, arrs, k, sub_solved)
            outs = []
            for (o, _), x, (l, c) in zip(ex, xs, exits_l[len(tests):]):
                lab = l.split(':')[0] + ':' + l.split(':')[1]
                f = (lambda l, c: (lambda t: self.exit_term(L, l, c, sub_solved, k, uns, t)))(l, sub_solved(c, k))
                st = self.map_state(pre, start, o.st, f, x)
                outs.append((o, x, st, f))
        ends = []
        for o, c, st, f in outs:
            if c is FALSE:
                continue
            st.pc = pre.pc + ((c,) if c is not TRUE else ())
            if o.kind == 'break':
                ends.append(st)
            else:
                self.outs.append(self.remade(o, st, f))
        if natural is not FALSE and fin is not None:
            fin.pc = pre.pc + ((natural,) if natural is not TRUE else ())
            self.st = fin
            alive = True
            if orelse:
                alive = self.run(orelse)
            if alive:
                ends.append(self.st)
        return self.join(pre, ends)

    def exit_term(self, L, l, c, sub_solved, k, uns, t):
        t1 = sub_solved(t, k)
        if not (t1.fb & (uns | {k})):
            return t1
        return tm.mk('fold', L, 'exit', tm.mk('opq', 'pair', (t1, c), kind=t1.kind) if False else t1, kind=t1.kind)

    def remade(self, o, st, f):
        from .interp import Out
        v = o.val
        if o.kind == 'return':
            v = self.map_value(v, f)
        return Out(o.kind, v, st, o.src)

    def refold(self, L, kk):
        if L.n is kk:
            return L
        key = ('n', kk.id)
        r = L._sub.get(key)
        if r is None:
            r = Fold(L.k, kk, L.slots, L.exits, L.src)
            r.name, r.distinct, r.lens = L.name, L.distinct, L.lens
            L._sub[key] = r
        return r

    def small(self, t):
        return len(tm.subterms(t)) < 400

    def cast_kind(self, t, kind):
        if kind == 'float' and isinstance(t, T) and t.kind in ('int', 'bool'):
            return tm.fn('tofloat', t)
        return t

    def while_count(self, c, k):
        """number of iterations for which the test c (linear in k) holds"""
        pos = True
        if c.op == 'not':
            pos, c = False, c.args[0]
        if c.op != 'cmp':
            return None
        op, a, b = c.args
        if op == '==':
            if pos:
                return None
            # while a != b: counts up or down to b
            d = tm.sub(b, a)
            l = tm.linear_in(d, k)
            if l is None or l[0] == 0:
                return None
            r = tm.from_poly(l[1])
            if l[0] == -1 and self.know(tm.cmp('<=', ZERO, r)):
                return r
            if l[0] == 1 and self.know(tm.cmp('<=', r, ZERO)):
                return tm.neg(r)
            return None
        if not pos:
            a, b = b, a
            op = '<=' if op == '<' else '<'
        # a < b or a <= b
        l = tm.linear_in(tm.sub(b, a), k)
        if l is None or l[0] >= 0:
            return None
        r = tm.from_poly(l[1])
        s = -l[0]
        if s != 1 or not (fa.is_int(r)):
            q = tm.div(r, tm.mk('const', s, kind='float')) if s != 1 else r
            m = tm.fn('ceil', q) if op == '<' else tm.add(tm.fn('floor', q), ONE)
        else:
            m = r if op == '<' else tm.add(r, ONE)
        if not self.know(tm.cmp('<=', ZERO, m)):
            m = tm.fn('max2', m, ZERO)
        return m

    def scatter_add(self, sl, p, idx, own, leaves, k, open_):
        """every iteration adds a value that does not depend on the array: start value plus the sum over the iterations"""
        terms = []
        for cs, t in leaves:
            if p not in t.fb or any(p in c.fb for c in cs):
                return None
            eqs = set()
            for c in cs:
                for x in (c.args[0] if c.op == 'and' else (c,)):
                    if x.op == 'cmp' and x.args[0] == '==':
                        eqs.add((x.args[1], x.args[2]))
                        eqs.add((x.args[2], x.args[1]))

            def rw(x):
                if x.op == 'sel' and x.args[0] is p and all(a is b or (a, b) in eqs for a, b in zip(x.args[2], idx)):
                    return own
                return None
            d = tm.sub(fa.simp(t, (), lambda x, facts: rw(x)), own)
            if p in d.fb or d.fb & open_ or any(c.fb & open_ for c in cs):
                return None
            if not (k in d.fb or any(k in c.fb for c in cs)):
                return None
            terms.append((tm.and_(*cs), d))

        def val(ix, kk):
            m = dict(zip(idx, ix))

            def at(j):
                mj = dict(m)
                mj[k] = j
                r = ZERO
                for c, d in terms:
                    r = tm.add(r, tm.ite(tm.subst(c, mj), tm.subst(d, mj), ZERO))
                return r
            return tm.add(sl.init.get(*ix), tm.total(ZERO, kk, at))
        return val

    def last_store(self, sl, p, idx, leaves, k, open_):
        """stores at positions given by another array: the value of the last iteration that stores at the position"""
        for cs, t in leaves:
            if p in t.fb or t.fb & open_ or any(p in c.fb or c.fb & open_ for c in cs):
                return None
        conds = [tm.and_(*cs) for cs, t in leaves]

        def val(ix, kk):
            m = dict(zip(idx, ix))

            def at(t, j):
                mj = dict(m)
                mj[k] = j
                return tm.subst(t, mj)
            any_ = lambda j: tm.or_(*[at(c, j) for c in conds])
            j = tm.last(ZERO, kk, any_)
            r = at(leaves[-1][1], j)
            for c, (_, t) in list(zip(conds, leaves))[-2::-1]:
                r = tm.ite(at(c, j), at(t, j), r)
            return tm.ite(tm.exists(ZERO, kk, any_), r, sl.init.get(*ix))
        return val

    def solve_array(self, sl, k, sub_solved, allph, sol_s, sol_a, facts0, defer_ok=False):
        """element-wise stores: ph[i] written in one iteration that is a function of i"""
        p = sl.ph
        nd = sl.new.ndim
        idx = tuple(tm.bound(hint='i') for _ in range(nd))
        u = sub_solved(sl.new.get(*idx), k)
        own = tm.mk('sel', p, 'n', idx, kind=sl.content.dtype)
        dims = tuple(tm.cmp('<=', ZERO, i) for i in idx) + tuple(tm.cmp('<', i, d) for i, d in zip(idx, sl.new.shape))
        leaves = []

        def walk(t, cs):
            if t is own:
                return
            if t.op == 'ite':
                walk(t.args[1], cs + [t.args[0]])
                walk(t.args[2], cs + [tm.not_(t.args[0])])
                return
            leaves.append((cs, t))
        walk(u, [])
        if len(leaves) > 40:
            return None
        if not leaves:
            return lambda i, kk: sl.init.get(*i)
        added = self.scatter_add(sl, p, idx, own, leaves, k, frozenset(allph) - frozenset(sol_s) - frozenset(sol_a))
        if added is not None:
            return None if defer_ok else added
        kap = None
        dim = None
        for cs, v in leaves:
            got = None
            for c in cs:
                for x in (c.args[0] if c.op == 'and' else (c,)):
                    if x.op == 'cmp' and x.args[0] == '==':
                        d = tm.sub(x.args[1], x.args[2])
                        if d.fb & (frozenset(allph) - frozenset(sol_s) - frozenset(sol_a)):
                            continue
                        for di, i in enumerate(idx):
                            l = tm.linear_in(d, i)
                            if l is None or l[0] == 0:
                                continue
                            lk = tm.linear_in(d, k)
                            if lk is None or lk[0] == 0:
                                continue
                            if abs(lk[0]) != 1:
                                continue
                            # d = lk*k + rest = 0  ->  k = -rest/lk
                            kp = tm.mul(const(int(-lk[0])), tm.from_poly(lk[1]))
                            if k in kp.fb or any(j in kp.fb for j in idx if j is not i):
                                continue
                            got = (kp, di, l[0], lk[0])
                            break
                    if got:
                        break
                if got:
                    break
            if got is None or kap is not None and got[0] is not kap:
                return None if defer_ok else self.last_store(sl, p, idx, leaves, k, frozenset(allph) - frozenset(sol_s) - frozenset(sol_a))
            kap, dim, sl_i, sl_k = got
        uns = frozenset(q for q in allph if q not in sol_s and q not in sol_a)
        # write at k = kap(i)
        w = tm.subst(u, {k: kap})
        cond = []
        for cs, v in leaves:
            cond.append(tm.and_(*[tm.subst(c, {k: kap}) for c in cs]))
        G = tm.or_(*cond)
        i_d = idx[dim]
        f0 = tuple(tm.subst(f, {k: kap}) for f in facts0 if not (f.fb & uns)) + dims
        prev = tm.bound(sl.content.dtype, 'p')
        used_prev = [False]
        ok = [True]
        step = 1 if (tm.linear_in(kap, i_d)[0] > 0) else -1

        def rw(x, facts):
            if x.op == 'sel' and x.args[0] is p:
                j = x.args[2]
                j = tuple(fa.simp(y, facts, rw) for y in j)
                if j[dim].op == 'fn' and j[dim].args[0] in ('min2', 'max2'):
                    a, b = j[dim].args[1:]
                    if i_d in a.fb:
                        a, b = b, a          # the branch that does not move wins only where it has to
                    c = tm.cmp('<', a, b) if j[dim].args[0] == 'min2' else tm.cmp('<', b, a)
                    j = j[:dim] + (tm.ite(c, a, b),) + j[dim + 1:]
                if j[dim].op == 'ite':
                    c, a, b = j[dim].args
                    both = []
                    for cc, y in ((c, a), (tm.not_(c), b)):
                        jj = j[:dim] + (y,) + j[dim + 1:]
                        both.append(fa.simp(tm.mk('sel', p, 'n', jj, kind=x.kind), facts + (cc,), rw))
                    return tm.ite(c, *both)
                kj = tm.subst(kap, {i_d: j[dim]})
                if fa.decide(tm.cmp('<=', kap, kj), facts) is TRUE:
                    return sl.init.get(*j)
                if tm.sub(kap, kj) is ONE and all(a is b for q, (a, b) in enumerate(zip(j, idx)) if q != dim):
                    used_prev[0] = True
                    return prev
                # written in no iteration at all (outside the written range)?
                ok[0] = False
                if not tm.is_int_const(tm.sub(j[dim], i_d)):
                    odd[0] = True
                return x
            return None
        odd = [False]
        w2 = fa.simp(w, f0, rw)
        if not ok[0] and not odd[0] and not (w2.fb & (uns - {p})):
            ONCE.add(p.id)
        if not ok[0] or p in w2.fb:
            return None
        if w2.fb & (uns - {p}):
            if used_prev[0] or not defer_ok or prev in w2.fb:
                return None
            G2 = fa.simp(G, f0, rw)
            if not ok[0] or G2.fb & uns or prev in G2.fb:
                return None

            def deferred(at):
                def val(ix, kk):
                    m = dict(zip(idx, ix))
                    kx = tm.subst(kap, m)
                    c = tm.and_(tm.cmp('<=', ZERO, kx), tm.cmp('<', kx, kk), tm.subst(G2, m))
                    d = self.decide(c)
                    if d is FALSE:
                        return sl.init.get(*ix)
                    return tm.ite(c if d is None else d, at(tm.subst(w2, m), kx), sl.init.get(*ix))
                return val
            return deferred
        if defer_ok:
            return None
        G2 = fa.simp(G, f0, rw)
        if not ok[0] or p in G2.fb or G2.fb & uns or prev in G2.fb:
            return None
        sub_i = lambda t, ix: tm.subst(t, dict(zip(idx, ix)))
        if not used_prev[0]:
            def val(ix, kk):
                kx = sub_i(kap, ix)
                c = tm.and_(tm.cmp('<=', ZERO, kx), tm.cmp('<', kx, kk), sub_i(G2, ix))
                d = self.decide(c)
                if d is FALSE:
                    return sl.init.get(*ix)
                return tm.ite(c if d is None else d, sub_i(w2, ix), sl.init.get(*ix))
            return val
        # recurrence along dim
        i_of = tm.linear_in(kap, i_d)
        r = tm.from_poly(i_of[1])
        kk_ = tm.bound(hint='k')
        ik = tm.mul(const(step), tm.sub(kk_, r))          # index written in iteration kk_
        H = tm.subst(w2, {i_d: ik})
        inv = tm.subst(tm.subst(sl.init.get(*idx), {i_d: ik}), {})
        Gk = tm.subst(G2, {i_d: ik})
        h = tm.ite(Gk, H, inv) if G2 is not TRUE else H
        base = sl.init.get(*[tm.mul(const(step), tm.sub(const(-1), r)) if q == dim else i for q, i in enumerate(idx)])
        f = solve_rec(kk_, prev, h, base)
        if f is None:
            L = Fold(kk_, None, [(prev, base, h)], [], self.src())
            self.notes.add(('fold', self.src()))

            def f(j):
                return tm.mk('fold', self.refold(L, tm.add(j, ONE)), 'end', prev, kind=prev.kind)

        def val(ix, kk):
            kx = sub_i(kap, ix)
            c = tm.and_(tm.cmp('<=', ZERO, kx), tm.cmp('<', kx, kk))
            d = self.decide(c)
            if d is FALSE:
                return sl.init.get(*ix)
            v = f(kx)
            if nd > 1:
                v = tm.subst(v, {i: x for q, (i, x) in enumerate(zip(idx, ix)) if q != dim})
            return tm.ite(c if d is None else d, v, sl.init.get(*ix))
        return val

    def solve_grow(self, sl, k, sub_solved, allph, sol_s, sol_a, facts0):
        """appends"""
        if sl.lenph not in sol_s:
            return None
        c_v = self.grow_item(sl, k, sub_solved, facts0)
        if c_v is None:
            return None
        c, item = c_v
        uns = frozenset(q for q in allph if q not in sol_s and q not in sol_a)
        if (c.fb | item(tuple(tm.bound() for _ in sl.init.shape[1:])).fb) & uns:
            return None
        return lambda idx, kk: self.grow_content(sl, k, c, item, kk).get(*idx)

    def grow_item(self, sl, k, sub_solved, facts0):
        u = sl.new.shape[0]
        r = affine(u, sl.lenph)
        if r is None or not is_one(r[0]):
            return None
        c = zero_one(r[1])
        if c is None:
            return None
        i = tm.bound(hint='i')
        rest = tuple(tm.bound(hint='r') for _ in sl.init.shape[1:])
        pf = facts0 + (tm.cmp('<=', ZERO, i), tm.cmp('<', i, sl.lenph))
        old = fa.simp(sl.new.get(i, *rest), pf)
        if old is not tm.mk('sel', sl.ph, 'n', (i,) + rest, kind=sl.content.dtype):
            return None
        c1 = sub_solved(c, k)

        def item(rs):
            v = sl.new.get(sl.lenph, *rs)
            v = fa.simp(v, facts0 + ((c,) if c is not TRUE else ()))
            return sub_solved(v, k)
        return c1, item

    def no_repeats(self, sl, inner):
        """an empty list that only takes values it does not hold yet: the (lo, hi) they are drawn from or None; False otherwise"""
        if sl.init.ndim != 1 or sl.init.shape[0] is not ZERO:
            return False
        ln, sel = sl.lenph, lambda j: tm.mk('sel', sl.ph, 'n', (j,), kind=sl.content.dtype)

        def ok(u, v, cs):
            if u.op == 'ite':
                c = u.args[0]
                return ok(u.args[1], v, cs + (c,)) and ok(u.args[2], v, cs + (tm.not_(c),))
            if u is ln:
                return True
            if u is not tm.add(ln, ONE):
                return False
            x = fa.simp(v, cs)
            no = tm.not_(tm.exists(ZERO, ln, lambda j: tm.cmp('==', sel(j), x)))
            if x.op == 'opq' and x.args[0] == 'rng.randint' and not any(d.fb & inner for d in x.args[1][1:3]):
                rngs.append(x.args[1][1:3])
            else:
                rngs.append(None)
            return any(no is c or c.op == 'and' and no in c.args[0] for c in cs)
        rngs = []
        j = tm.bound(hint='j')
        kept = fa.simp(sl.new.get(j), (tm.cmp('<=', ZERO, j), tm.cmp('<', j, ln)))
        if kept is not sel(j) or not ok(sl.new.shape[0], sl.new.get(ln), ()) or not rngs:
            return False
        return rngs[0] if all(r == rngs[0] for r in rngs) else None

    def grow_content(self, sl, k, c, item, kk, wrap=None):
        at = lambda t, j: tm.subst(t, {k: j}) if wrap is None else wrap(t, j)
        isl = sl.content.islist
        dt = sl.content.dtype
        if c is TRUE:
            new = Arr((kk,) + sl.init.shape[1:], lambda i, *r: at(item(r), i), dt, isl)
        else:
            if sl.init.ndim != 1:
                raise Unsupported('conditional append of arrays')
            new = Filt(kk, lambda i: at(c, i), lambda i: at(item(()), i), dt, isl)
        if sl.init.shape[0] is ZERO:
            return new if isinstance(new, Arr) else _LazyPos(self, new)
        return self.as_arr(self.concat([sl.init, new]))

    # ------------------------------------------------------------ states after the loop
    def finish_hazards(self, h0, k, n, sub_solved, uns):
        hs = self.hazards[h0:]
        del self.hazards[h0:]
        for c, exc, src in hs:
            c1 = sub_solved(c, k)
            if c1.fb & uns or n is None:
                continue
            self.hazards.append((tm.exists(ZERO, n, lambda j: tm.subst(c1, {k: j})), exc, src))

    def final_state(self, pre, end, slots, head, last, nonempty, n, sol_s, sol_a, at_head, L, uns, arrs, k, sub_solved):
        st = pre.copy()
        if end is None:
            return st
        for cell, v in end.heap.items():
            if cell not in st.heap and not any(s.box == cell for s in slots.values()):
                st.heap[cell] = self.map_value(v, last)
        for sl in slots.values():
            what, key = sl.key
            if sl.kind == 'undef':
                v = end.env.get(key, UNDEF)
                if v is UNDEF:
                    continue
                m = self.map_value(v, last)
                if nonempty is not None:
                    d = self.decide(nonempty)
                    m = m if d is TRUE else self.merge(nonempty, m, UNDEF)
                st.env[key] = m
                continue
            if sl.kind == 'poison':
                if what == 'v':
                    v = end.env.get(key, UNDEF)
                    iv = pre.env.get(key, UNDEF)
                    m = self.map_value(v, last)
                    d = self.decide(nonempty) if nonempty is not None else None
                    st.env[key] = m if d is TRUE else Alt(nonempty, m, iv) if nonempty is not None else m
                else:
                    st.heap[key] = POISON
                continue
            if sl.kind in ('scalar', 'opq'):
                v = head(sl.ph)
                if sl.kind == 'opq':
                    v = Opaque(v)
            elif sl.kind == 'small':
                c = sl.content
                v = Arr(c.shape, (lambda c: lambda *i: head(c.get(*i)))(c), c.dtype, c.islist)
            elif sl.kind == 'array':
                c = sl.content
                fr = self.frame_of(sl, k, sub_solved, uns, n)
                if sl.ph in uns and fr is not None:
                    fr, rnd = fr

                    def kept(x, rnd=rnd, L=L):
                        # rounded in some iteration or not: a Boolean of its own
                        for d in rnd:
                            x = tm.ite(tm.opq('rounded?', const(L.name), d, kind='bool'), tm.fn('around', x, d), x)
                        return x
                    v = Arr(c.shape, (lambda c, sl, fr, kept: lambda *i: tm.ite(fr(i), head(c.get(*i)), kept(sl.init.get(*i))))(c, sl, fr, kept), c.dtype, c.islist)
                else:
                    v = Arr(c.shape, (lambda c: lambda *i: head(c.get(*i)))(c), c.dtype, c.islist)
            else:
                v = self.final_grow(sl, k, n, head, sol_s, sol_a, at_head, L, uns, sub_solved)
            if what == 'h':
                st.heap[key] = v
            elif sl.kind == 'scalar':
                st.env[key] = v
            else:
                cell = next(self.cells)
                st.heap[cell] = v
                st.env[key] = Ref(cell)
        return st

    def frame_of(self, sl, k, sub_solved, uns, n):
        """condition (of the index) that some iteration may write the element"""
        if n is None or sl.ph not in uns:
            return None
        idx = tuple(tm.bound(hint='i') for _ in range(sl.new.ndim))
        u = sub_solved(sl.new.get(*idx), k)
        own = tm.mk('sel', sl.ph, 'n', idx, kind=sl.content.dtype)
        conds = []
        rnd = []

        def walk(t, cs, wrap=None):
            if t is own:
                if wrap is not None and wrap not in rnd:
                    rnd.append(wrap)
                return
            if t.op == 'ite':
                walk(t.args[1], cs + [t.args[0]], wrap)
                walk(t.args[2], cs + [tm.not_(t.args[0])], wrap)
                return
            if t.op == 'fn' and t.args[0] == 'around' and len(t.args) == 3 and tm.is_int_const(t.args[2]) and wrap in (None, t.args[2]):
                return walk(t.args[1], cs, t.args[2])
            conds.append([c for c in cs])
        walk(u, [])
        if len(rnd) > 1:
            return None
        if len(conds) > 60:
            return None
        # forget what depends on the state: over-approximates the written set
        g = [tm.and_(*[weaken(c, uns) for c in cs]) for cs in conds]
        G = tm.or_(*g)
        if G is TRUE:
            return None
        return (lambda ix: tm.exists(ZERO, n, lambda j: tm.subst(G, dict(zip((k,) + idx, (j,) + tuple(ix)))))), rnd

    def final_grow(self, sl, k, n, head, sol_s, sol_a, at_head, L, uns, sub_solved):
        c_v = self.grow_item(sl, k, sub_solved, ())
        if c_v is not None and n is not None and not (c_v[0].fb & uns):
            c, item = c_v
            wrap = lambda t, j: at_head(t, j)
            v = self.grow_content(sl, k, c, item, n, wrap)
            if isinstance(v, _LazyPos):
                return v.filt
            return v
        c = sl.content
        ln = head(sl.lenph)
        return Arr((ln,) + c.shape[1:], lambda *i: head(c.get(*i)), c.dtype, c.islist)

    def map_state(self, pre, start, st, f, cond):
        r = pre.copy()
        for key, v in st.env.items():
            if pre.env.get(key, UNDEF) is v:
                continue
            r.env[key] = self.map_value(v, f)
        for cell, v in st.heap.items():
            if pre.heap.get(cell) is v:
                continue
            r.heap[cell] = self.map_value(v, f)
        return r

    def map_value(self, v, f):
        if isinstance(v, T):
            return f(v)
        if isinstance(v, Arr):
            return Arr(tuple(f(d) for d in v.shape), lambda *i: self.map_value(v.get(*i), f), v.dtype, v.islist)
        if isinstance(v, Filt):
            return Filt(f(v.n), lambda j: f(v.pred(j)), lambda j: f(v.val(j)), v.dtype, v.islist)
        if isinstance(v, Cat):
            return Cat([self.map_value(x, f) for x in v.parts], v.islist)
        if isinstance(v, PyList):
            return PyList([self.map_value(x, f) for x in v.items])
        if isinstance(v, Tup):
            return Tup([self.map_value(x, f) for x in v.items])
        if isinstance(v, PyDict):
            return PyDict({k: self.map_value(x, f) for k, x in v.d.items()})
        if isinstance(v, Opaque):
            return Opaque(f(v.t))
        if isinstance(v, Alt):
            return Alt(f(v.c), self.map_value(v.a, f), self.map_value(v.b, f))
        if isinstance(v, Ref):
            if not v.maps:
                return v
            return Ref(v.cell, [VMap([f(d) for d in m.shape], (lambda m: lambda *i: tuple(f(x) for x in m.fwd(*i)))(m),
                                     (lambda m: lambda *i: (lambda r: (f(r[0]), tuple(f(x) for x in r[1])))(m.inv(*i)))(m)) for m in v.maps])
        return v


class _LazyPos:
    """positional access to a selection"""

    def __init__(self, it, filt):
        self.filt = filt
        self.arr = it.pos_arr(filt)

    def get(self, *i):
        return self.arr.get(*i)
