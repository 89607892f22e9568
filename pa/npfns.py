"""numpy functions as operations on abstract values."""
from fractions import Fraction
from . import terms as tm
from .terms import T, const, ZERO, ONE, TRUE, FALSE, NONE, NAN, INF, PI, J
from .values import *
from .npmodel import b2i, canon_type, HALF, TWO
from .nplib import ELEM, EPSF
from .libfns import bind, BIN, CMPF, NUMK


class NpFns:
    # ------------------------------------------------------------ elementwise
    def numpy_fn(self, f, args, kw):
        """functions described by a table; None when there is no entry"""
        if 'out' in kw:
            return self.into(kw['out'], self.numpy_or_lib(f, args, {k: v for k, v in kw.items() if k != 'out'}))
        if 'where' in kw:
            raise Unsupported('where= argument')
        if f in ELEM:
            n = ELEM[f]
            return self.map1(lambda t: self.elem_fn(n, t), args[0])
        if f in ('floor', 'ceil', 'trunc', 'rint', 'fix'):
            g = 'trunc' if f == 'fix' else f
            return self.map1(lambda t: tm.fn('tofloat', tm.fn(g, t)) if t.kind != 'int' else t, args[0])
        if f in BIN:
            return self.mapn(lambda p, q: self.sop(BIN[f], p, q), args[:2])
        if f in CMPF:
            return self.compare(CMPF[f], args[0], args[1])
        if f in ('square',):
            return self.map1(lambda t: tm.power(b2i(t), TWO), args[0])
        if f == 'negative':
            return self.map1(lambda t: tm.neg(b2i(t)), args[0])
        if f == 'reciprocal':
            return self.map1(lambda t: tm.div(ONE, t), args[0])
        if f in ('maximum', 'minimum', 'fmax', 'fmin'):
            g = 'max2' if 'max' in f else 'min2'
            return self.mapn(lambda p, q: tm.fn(g, b2i(p), b2i(q)), args[:2])
        if f == 'hypot':
            return self.mapn(lambda p, q: tm.fn('sqrt', tm.add(tm.power(p, TWO), tm.power(q, TWO))), args[:2])
        if f == 'arctan2':
            return self.mapn(lambda p, q: tm.fn('arctan2', p, q), args[:2])
        if f in ('log10', 'log2', 'log1p', 'expm1', 'exp2'):
            ten = const(10) if f == 'log10' else TWO
            g = {'log1p': lambda t: tm.fn('log', tm.add(ONE, t)), 'expm1': lambda t: tm.sub(tm.fn('exp', t), ONE), 'exp2': lambda t: tm.power(TWO, t)}.get(f) \
                or (lambda t: tm.div(tm.fn('log', t), tm.fn('log', ten)))
            return self.map1(g, args[0])
        if f in ('deg2rad', 'radians'):
            return self.map1(lambda t: tm.div(tm.mul(t, PI), const(180)), args[0])
        if f in ('rad2deg', 'degrees'):
            return self.map1(lambda t: tm.div(tm.mul(t, const(180)), PI), args[0])
        if f in ('logical_and', 'logical_or', 'logical_xor'):
            g = {'logical_and': lambda p, q: tm.and_(p, q), 'logical_or': lambda p, q: tm.or_(p, q),
                 'logical_xor': lambda p, q: tm.or_(tm.and_(p, tm.not_(q)), tm.and_(tm.not_(p), q))}[f]
            return self.mapn(lambda p, q: g(self.truth(p), self.truth(q)), args[:2])
        if f in ('logical_not', 'invert', 'bitwise_not'):
            return self.map1(lambda t: tm.not_(self.truth(t)), args[0])
        if f == 'isinf':
            return self.map1(lambda t: tm.cmp('==', tm.fn('abs', t), INF) if t.kind != 'int' else FALSE, args[0])
        if f == 'isfinite':
            return self.map1(lambda t: self.finite(t), args[0])
        if f in ('isreal', 'isrealobj'):
            return self.map1(lambda t: tm.cmp('==', tm.fn('imag', t), ZERO) if t.kind in ('complex', 'any') else TRUE, args[0])
        if f == 'nan_to_num':
            r = self.scalar(kw['nan']) if 'nan' in kw else ZERO
            return self.map1(lambda t: tm.ite(tm.isnan(t), r, t), args[0])
        if f == 'heaviside':
            return self.mapn(lambda p, q: tm.ite(tm.cmp('<', p, ZERO), ZERO, tm.ite(tm.cmp('==', p, ZERO), q, ONE)), args[:2])
        if f == 'angle':
            return self.map1(lambda t: tm.fn('arctan2', tm.fn('imag', t), tm.fn('real', t)), args[0])
        return None

    def numpy_or_lib(self, f, args, kw):
        return self.builtin('numpy.' + f, args, kw)

    def into(self, out, r):
        self.store_all(out, r)
        return out

    def elem_fn(self, n, t):
        if t.kind in ('str', 'none'):
            self.raise_if(TRUE, 'TypeError')
        if t.kind == 'bool' and n in ('abs',):
            return t
        t = b2i(t)
        if n == 'sign' and t.kind == 'int':
            return tm.fn('sign', t)
        return tm.fn(n, t)

    def finite(self, t):
        if t.kind == 'int' or t.kind == 'bool':
            return TRUE
        return tm.and_(tm.not_(tm.isnan(t)), tm.cmp('!=', tm.fn('abs', t), INF))

    def np_around(self, args, kw):
        b = bind(['a', 'decimals', 'out'], args, kw, {'decimals': ZERO})
        d = self.scalar(b['decimals'])
        return self.map1(lambda t: tm.fn('around', b2i(t), d) if t.kind not in ('str', 'none') else self.raise_if(TRUE, 'TypeError'), b['a'])

    np_round = np_round_ = np_around

    def np_clip(self, args, kw):
        b = bind(['a', 'a_min', 'a_max'], args, kw, {'a_min': NONE, 'a_max': NONE})
        if 'min' in b:
            b['a_min'] = b['min']
        if 'max' in b:
            b['a_max'] = b['max']
        r = b['a']
        if self.rd(b['a_min']) is not NONE:
            r = self.mapn(lambda p, q: tm.fn('max2', p, q), [r, b['a_min']])
        if self.rd(b['a_max']) is not NONE:
            r = self.mapn(lambda p, q: tm.fn('min2', p, q), [r, b['a_max']])
        return r

    def np_where(self, args, kw):
        if len(args) == 1:
            return self.nonzero(args[0])
        return self.mapn(lambda c, p, q: tm.ite(self.truth(c), p, q), args)

    def np_select(self, args, kw):
        cs, vs = self.seq_items(args[0]), self.seq_items(args[1])
        r = args[2] if len(args) > 2 else kw.get('default', ZERO)
        for c, v in reversed(list(zip(cs, vs))):
            r = self.box(self.np_where([c, v, r], {}))
        return r

    def np_nonzero(self, args, kw):
        return self.nonzero(args[0])

    def np_flatnonzero(self, args, kw):
        x = self.rd(args[0])
        if isinstance(x, Arr) and x.ndim == 2:
            return self.nonzero(self.ravel(x)).items[0]
        return self.nonzero(x).items[0]

    def np_argwhere(self, args, kw):
        f = self.rd(self.nonzero(args[0]).items[0])
        pa = self.pos_arr(f)
        if self.rd(args[0]).ndim == 1 if isinstance(self.rd(args[0]), Arr) else True:
            return Arr((pa.shape[0], ONE), lambda i, j: pa.get(i), 'int', False, None)
        raise Unsupported('argwhere')

    # ------------------------------------------------------------ construction
    def np_array(self, args, kw):
        x = self.rd(args[0])
        dt = self.dt_of(kw.get('dtype') if 'dtype' in kw else args[1] if len(args) > 1 else None)
        nd = self.intc(kw['ndmin']) if 'ndmin' in kw else 0
        r = self.fresh(x)
        if dt is not None:
            s = isinstance(r, Shuffled)
            r = self.astype(r, dt)
            if s and type(r) is Filt:
                r = Shuffled(r.n, r.p, r.v, r.dtype)
        if isinstance(r, Arr):
            while r.ndim < nd:
                r0 = r
                r = Arr((ONE,) + r0.shape, (lambda r0: lambda i, *k: r0.get(*k))(r0), r0.dtype)
        return r

    def fresh(self, x):
        """the value as an array"""
        if isinstance(x, Opaque):
            return Opaque(x.t)
        if isinstance(x, T):
            if x.kind == 'any':
                return x
            return Arr((), lambda: x, x.kind)
        if isinstance(x, Filt):
            return (Shuffled if isinstance(x, Shuffled) else Filt)(x.n, x.p, x.v, x.dtype)
        if isinstance(x, Cat):
            return Cat(x.parts)
        a = self.as_arr(x)
        return Arr(a.shape, a.f, a.dtype, False, a.filt)

    def np_asarray(self, args, kw):
        v = args[0]
        x = self.rd(v)
        dt = self.dt_of(kw.get('dtype') if 'dtype' in kw else args[1] if len(args) > 1 else None)
        if isinstance(x, (Arr, Filt, Cat)) and not getattr(x, 'islist', False) and (dt is None or dt == getattr(x, 'dtype', None)):
            return v
        return self.np_array([v], {'dtype': Builtin(dt)} if dt else {})

    np_asanyarray = np_ascontiguousarray = np_asfarray = np_asarray

    def np_copy(self, args, kw):
        return self.fresh(self.rd(args[0]))

    def np_atleast_1d(self, args, kw):
        if len(args) > 1:
            return Tup([self.box(self.np_atleast_1d([a], {})) for a in args])
        v = args[0]
        x = self.rd(v)
        if isinstance(x, (Filt, Cat)):
            return v if not x.islist else self.fresh(x)
        if isinstance(x, T) and x.kind == 'any' or isinstance(x, Opaque):
            return v
        a = self.as_arr(x)
        if a.ndim == 0:
            return Arr((ONE,), lambda i: a.get(), a.dtype)
        return v if isinstance(x, Arr) and not x.islist else Arr(a.shape, a.f, a.dtype)

    def np_atleast_2d(self, args, kw):
        v = args[0]
        x = self.rd(v)
        if isinstance(x, Opaque) or isinstance(x, T) and x.kind == 'any':
            return tm.opq('lib.numpy.atleast_2d', self.reify(x))
        a = self.as_arr(x)
        if a.ndim == 0:
            return Arr((ONE, ONE), lambda i, j: a.get(), a.dtype)
        if a.ndim == 1:
            return Arr((ONE, a.shape[0]), lambda i, j: a.get(j), a.dtype)
        return v

    def fill_dt(self, b, d='float'):
        return self.dt_of(b.get('dtype')) or d

    def np_zeros(self, args, kw):
        b = bind(['shape', 'dtype', 'order'], args, kw)
        dt = self.fill_dt(b)
        z = {'int': ZERO, 'bool': FALSE}.get(dt, const(0.0))
        return self.filled(b['shape'], lambda *i: z, dt)

    def np_ones(self, args, kw):
        b = bind(['shape', 'dtype', 'order'], args, kw)
        dt = self.fill_dt(b)
        z = {'int': ONE, 'bool': TRUE}.get(dt, const(1.0))
        return self.filled(b['shape'], lambda *i: z, dt)

    def np_full(self, args, kw):
        b = bind(['shape', 'fill_value', 'dtype'], args, kw)
        v = self.rd(b['fill_value'])
        if not isinstance(v, T) and not (isinstance(v, Arr) and v.ndim == 0):
            a = self.as_arr(v)
            r = self.filled(b['shape'], lambda *i: None, a.dtype)
            self.check_bcast(a.shape, r.shape)
            g = self.broadcast_to(a, r.shape)
            return Arr(r.shape, g, a.dtype)
        v = self.scalar(v)
        dt = self.dt_of(b.get('dtype')) or v.kind
        v = self.cast_to(v, dt) if dt != 'any' else v
        return self.filled(b['shape'], lambda *i: v, dt)

    def np_empty(self, args, kw):
        b = bind(['shape', 'dtype', 'order'], args, kw)
        self.nempty = getattr(self, 'nempty', 0) + 1
        nm = 'uninitialised memory %d' % self.nempty
        dt = self.fill_dt(b)
        return self.filled(b['shape'], lambda *i: tm.elem(nm, '', dt, ZERO, *i), dt)

    def like(self, f, args, kw):
        x = self.rd(args[0])
        kw = dict(kw)
        rest = list(args[1:])
        if isinstance(x, T) and x.kind in NUMK:
            sh, dt = Tup([]), x.kind
        elif isinstance(x, (Filt, Cat)):
            sh, dt = Tup([self.size(x)]), getattr(x, 'dtype', 'float')
        else:
            a = self.as_arr(x)
            sh, dt = Tup(a.shape), a.dtype
        if kw.get('dtype') is None or self.rd(kw['dtype']) is NONE:
            if f == 'full' and len(rest) > 1:
                kw['dtype'] = rest.pop()
            elif f != 'full' and rest:
                kw['dtype'] = rest.pop()
            else:
                kw['dtype'] = Builtin(dt)
        return self.builtin('numpy.' + f, [sh] + rest, kw)

    def np_zeros_like(self, args, kw):
        return self.like('zeros', args, kw)

    def np_ones_like(self, args, kw):
        return self.like('ones', args, kw)

    def np_full_like(self, args, kw):
        return self.like('full', args, kw)

    def np_empty_like(self, args, kw):
        return self.like('empty', args, kw)

    def np_eye(self, args, kw):
        b = bind(['N', 'M', 'k', 'dtype'], args, kw)
        n = self.scalar(b['N'])
        m = self.scalar(b['M']) if 'M' in b and self.rd(b['M']) is not NONE else n
        return self.filled(Tup([n, m]), lambda i, j: tm.ite(tm.cmp('==', i, j), const(1.0), const(0.0)), self.fill_dt(b))

    np_identity = np_eye

    def np_arange(self, args, kw):
        if any(k in kw for k in ('start', 'stop', 'step')):
            b = bind(['start', 'stop', 'step', 'dtype'], args, kw, {'start': ZERO, 'stop': NONE, 'step': ONE})
            if self.rd(b['stop']) is NONE:
                b['start'], b['stop'] = ZERO, b['start']
            args = [b['start'], b['stop'], b['step']]
            if args[2] is ONE:
                args = args[:2]
        ts = [self.scalar(a) for a in args]
        for t in ts:
            if t.kind in ('str', 'none'):
                self.raise_if(TRUE, 'TypeError')
        lo, hi, st = (ZERO, ts[0], ONE) if len(ts) == 1 else (ts[0], ts[1], ONE) if len(ts) == 2 else ts[:3]
        n = tm.fn('ceil', tm.div(tm.sub(hi, lo), st)) if st is not ONE or 'float' in (lo.kind, hi.kind) else tm.sub(hi, lo)
        if not self.know(tm.cmp('<=', ZERO, n)):
            n = tm.fn('max2', n, ZERO)
        dt = self.dt_of(kw.get('dtype')) or tm.join_kind(*[t.kind for t in ts])
        if dt == 'bool':
            dt = 'int'
        return Arr((n,), lambda i: self.cast_to(tm.add(lo, tm.mul(st, i)), dt), dt)

    def np_linspace(self, args, kw):
        b = bind(['start', 'stop', 'num', 'endpoint', 'retstep', 'dtype', 'axis'], args, kw, {'num': const(50), 'endpoint': TRUE})
        lo, hi, n = self.scalar(b['start']), self.scalar(b['stop']), self.scalar(b['num'])
        e = self.truth(b['endpoint'])
        d = tm.sub(n, ONE) if e is TRUE else n
        st = tm.div(tm.sub(hi, lo), d)
        return Arr((n,), lambda i: tm.fn('tofloat', tm.add(lo, tm.ite(tm.cmp('==', d, ZERO), ZERO, tm.mul(st, i)))), 'float')

    def np_diag(self, args, kw):
        a = self.as_arr(args[0])
        if a.ndim == 0:
            return self.lib_call('numpy.diag', args, kw)
        if a.ndim == 2:
            n = a.shape[0]
            return Arr((n,), lambda i: a.get(i, i), a.dtype)
        return Arr((a.shape[0], a.shape[0]), lambda i, j: tm.ite(tm.cmp('==', i, j), a.get(i), ZERO), a.dtype)

    np_diagonal = np_diag

    def np_meshgrid(self, args, kw):
        xs = [self.as_arr(a) for a in args]
        if len(xs) != 2 or any(x.ndim != 1 for x in xs):
            raise Unsupported('meshgrid')
        ij = 'indexing' in kw and self.scalar(kw['indexing']).args[0] == 'ij'
        x, y = xs
        if ij:
            sh = (x.shape[0], y.shape[0])
            return PyList([self.box(Arr(sh, lambda i, j: x.get(i), x.dtype)), self.box(Arr(sh, lambda i, j: y.get(j), y.dtype))])
        sh = (y.shape[0], x.shape[0])
        return PyList([self.box(Arr(sh, lambda i, j: x.get(j), x.dtype)), self.box(Arr(sh, lambda i, j: y.get(i), y.dtype))])

    # ------------------------------------------------------------ joining
    def np_concatenate(self, args, kw):
        ax = self.axis_of(kw) or (self.scalar(args[1]) if len(args) > 1 else None)
        if ax is None and 'axis' in kw:
            ax = NONE
        x = self.rd(args[0])
        items = x.items if isinstance(x, (Tup, PyList)) else None
        if items is None:
            a = self.as_arr(x)
            if tm.is_int_const(a.shape[0]):
                items = [self.getitem(args[0], const(i)) for i in range(int(tm.cval(a.shape[0])))]
            else:
                raise Unsupported('concatenate')
        if not items:
            self.raise_if(TRUE, 'ValueError')
        for i in items:
            y = self.rd(i)
            if isinstance(y, T) and y.kind in NUMK or isinstance(y, Arr) and y.ndim == 0 and y.dtype != 'any':
                self.raise_if(TRUE, 'ValueError')
            if isinstance(y, Opaque) or isinstance(y, T):
                return tm.opq('lib.numpy.concatenate', *[self.reify(i) for i in items])
        if ax is not None and ax is not NONE and tm.cval(ax) != 0:
            if tm.cval(ax) in (1, -1) and all(self.as_arr(i).ndim == 2 for i in items):
                t = [self.transpose(self.rd(i)) for i in items]
                return self.transpose(self.concat(t))
            if not (tm.cval(ax) == -1):
                raise Unsupported('concatenate axis')
        return self.concat(items)

    def np_append(self, args, kw):
        b = bind(['arr', 'values', 'axis'], args, kw)
        if 'axis' in b and self.rd(b['axis']) is not NONE:
            return self.np_concatenate([Tup([b['arr'], b['values']])], {'axis': b['axis']})
        xs = []
        for v in (b['arr'], b['values']):
            x = self.rd(v)
            if isinstance(x, Opaque) or isinstance(x, T) and x.kind == 'any':
                return tm.opq('lib.numpy.append', self.reify(b['arr']), self.reify(b['values']))
            if isinstance(x, T):
                x = self.at1(x)
            elif not isinstance(x, (Filt, Cat)):
                x = self.ravel(self.as_arr(x))
            xs.append(x)
        return self.concat(xs)

    def np_hstack(self, args, kw):
        items = [self.at1(i) if not isinstance(self.rd(i), (PyList, Tup)) else self.as_arr(i) for i in self.seq_items(args[0])]
        if all(isinstance(i, Arr) and i.ndim == 2 for i in items):
            return self.transpose(self.concat([self.transpose(i) for i in items]))
        return self.concat(items)

    def np_vstack(self, args, kw):
        items = self.seq_items(args[0])
        if any(isinstance(self.rd(i), Opaque) or isinstance(self.rd(i), T) and self.rd(i).kind == 'any' for i in items):
            return tm.opq('lib.numpy.vstack', *[self.reify(i) for i in items])
        rows = []
        for i in items:
            a = self.as_arr(i)
            rows.append(Arr((ONE,) + a.shape, (lambda a: lambda k, *r: a.get(*r))(a), a.dtype) if a.ndim == 1 else a)
        for r in rows[1:]:
            self.check_bcast(r.shape[1:], rows[0].shape[1:])
        return self.concat_arrs(rows)

    np_row_stack = np_vstack

    def np_stack(self, args, kw):
        ax = self.axis_of(kw)
        a = self.as_arr(PyList(self.seq_items(args[0])))
        a = Arr(a.shape, a.f, a.dtype)
        if ax is None or tm.cval(ax) == 0:
            return a
        if a.ndim == 2 and tm.cval(ax) in (1, -1):
            return self.transpose(a)
        raise Unsupported('stack axis')

    def np_column_stack(self, args, kw):
        return self.transpose(self.np_vstack(args, kw))

    def np_tile(self, args, kw):
        a = self.as_arr(args[0])
        r = self.rd(args[1])
        reps = [self.scalar(i) for i in r.items] if isinstance(r, (Tup, PyList)) else [self.scalar(r)]
        if a.ndim == 0:
            return Arr(reps, lambda *i: a.get(), a.dtype)
        if len(reps) == 1 and a.ndim == 1:
            return Arr((tm.mul(reps[0], a.shape[0]),), lambda i: a.get(ZERO if a.shape[0] is ONE else tm.fn('mod', i, a.shape[0])), a.dtype)
        if len(reps) == 2 and a.ndim <= 2:
            b = a if a.ndim == 2 else Arr((ONE,) + a.shape, lambda i, j: a.get(j), a.dtype)
            m = lambda i, n, r: ZERO if n is ONE else i if r is ONE else tm.fn('mod', i, n)
            return Arr([tm.mul(p, q) for p, q in zip(reps, b.shape)], lambda i, j: b.get(m(i, b.shape[0], reps[0]), m(j, b.shape[1], reps[1])), a.dtype)
        if len(reps) == 1 and a.ndim == 2:
            return self.np_tile([a, Tup([ONE, reps[0]])], {})
        raise Unsupported('tile')

    def np_repeat(self, args, kw):
        a = self.as_arr(args[0])
        r = self.scalar(args[1])
        if a.ndim == 0:
            return Arr((r,), lambda i: a.get(), a.dtype)
        if a.ndim == 1:
            return Arr((tm.mul(a.shape[0], r),), lambda i: a.get(ZERO if a.shape[0] is ONE else tm.fn('floor', tm.div(i, r))), a.dtype)
        raise Unsupported('repeat')

    def np_delete(self, args, kw):
        a = self.ravel(self.as_arr(args[0])) if 'axis' not in kw and len(args) < 3 else self.as_arr(args[0])
        if a.ndim != 1:
            raise Unsupported('delete')
        n = a.shape[0]
        i = self.rd(args[1])
        if isinstance(i, SliceV):
            ln, fwd, inv = self.slice_map(i, n)
            return self.drop(a, lambda p: inv(p)[0])
        if isinstance(i, T):
            w = self.wrap(i, n)
            m = tm.sub(n, ONE)
            return Arr((m,), lambda k: a.get(tm.ite(tm.cmp('<', k, w), k, tm.add(k, ONE))), a.dtype)
        it = self.as_index(i)
        if isinstance(it, Filt):
            if it.is_index():
                return self.drop(a, lambda p: tm.and_(self.below(p, it.n, n), it.pred(p)))
            return self.drop(a, lambda p: tm.exists(ZERO, it.n, lambda k: tm.and_(it.pred(k), tm.cmp('==', self.wrapq(it.val(k), n), p))))
        if it.dtype == 'bool':
            return self.drop(a, lambda p: it.get(p))
        if it.ndim == 0:
            return self.np_delete([args[0], it.get()], {})
        if it.shape[0] is ZERO:
            return Arr(a.shape, a.f, a.dtype)
        self.index_hazard(it, n)
        return self.drop(a, lambda p: tm.exists(ZERO, it.shape[0], lambda j: tm.cmp('==', self.wrapq(it.get(j), n), p)))

    def drop(self, a, gone):
        return Filt(a.shape[0], lambda p: tm.not_(gone(p)), lambda p: a.get(p), a.dtype)

    def np_insert(self, args, kw):
        a = self.as_arr(args[0])
        if a.ndim != 1:
            raise Unsupported('insert')
        i = self.scalar(args[1])
        v = self.rd(args[2])
        n = a.shape[0]
        if i.kind != 'int':
            raise Unsupported('insert')
        w = self.wrap(i, tm.add(n, ONE))
        if isinstance(v, T):
            v = self.cast(v, a.dtype)
            return Arr((tm.add(n, ONE),), lambda k: tm.ite(tm.cmp('<', k, w), a.get(k), tm.ite(tm.cmp('==', k, w), v, a.get(tm.sub(k, ONE)))), a.dtype)
        b = self.as_arr(v)
        return self.concat_arrs([Arr((w,), a.f, a.dtype), b, Arr((tm.sub(n, w),), lambda k: a.get(tm.add(k, w)), a.dtype)])

    def np_pad(self, args, kw):
        a = self.as_arr(args[0])
        w = self.rd(args[1])
        mode = self.scalar(args[2] if len(args) > 2 else kw.get('mode', const('constant')))
        if a.ndim != 1 or mode.op != 'str':
            raise Unsupported('pad')
        if isinstance(w, T):
            l = r = w
        else:
            it = self.seq_items(args[1])
            if len(it) == 1:
                it = self.seq_items(it[0])
            l, r = self.scalar(it[0]), self.scalar(it[-1])
        n = a.shape[0]
        if mode.args[0] == 'constant':
            c = kw.get('constant_values', ZERO)
            x = self.rd(c)
            cl, cr = (x, x) if isinstance(x, T) else [self.scalar(z) for z in self.seq_items(c)]
        elif mode.args[0] == 'edge':
            cl, cr = a.get(ZERO), a.get(tm.sub(n, ONE))
        else:
            raise Unsupported('pad mode')
        cl, cr = self.cast(cl, a.dtype), self.cast(cr, a.dtype)
        return Arr((tm.add(n, l, r),), lambda i: tm.ite(tm.cmp('<', i, l), cl, tm.ite(tm.cmp('<', i, tm.add(l, n)), a.get(tm.sub(i, l)), cr)), a.dtype)

    def np_roll(self, args, kw):
        a = self.as_arr(args[0])
        s = self.scalar(args[1])
        if a.ndim != 1:
            raise Unsupported('roll')
        n = a.shape[0]
        return Arr(a.shape, lambda i: a.get(tm.fn('mod', tm.sub(i, s), n)), a.dtype)

    def np_flip(self, args, kw):
        return self.getitem(args[0], SliceV(NONE, NONE, const(-1)))

    np_flipud = np_flip

    # ------------------------------------------------------------ shapes
    def np_size(self, args, kw):
        if len(args) > 1:
            return self.getitem(self.attr(self.arrv(args[0]), 'shape'), args[1])
        return self.size(args[0])

    def arrv(self, v):
        x = self.rd(v)
        return v if isinstance(x, (Arr, Filt, Cat)) and not x.islist else self.fresh(x)

    def np_shape(self, args, kw):
        return self.attr(self.arrv(args[0]), 'shape')

    def np_ndim(self, args, kw):
        x = self.rd(args[0])
        if isinstance(x, T):
            return ZERO if x.kind != 'any' else tm.opq('.ndim', x, kind='int')
        return const(self.as_arr(x).ndim) if not isinstance(x, (Filt, Cat)) else ONE

    def np_reshape(self, args, kw):
        s = self.rd(args[1] if len(args) > 1 else kw['newshape'])
        return self.reshape(args[0], s.items if isinstance(s, (Tup, PyList)) else [s])

    def np_ravel(self, args, kw):
        return self.ravel(self.as_arr(args[0]))

    def np_squeeze(self, args, kw):
        return self.squeeze(args[0])

    def np_transpose(self, args, kw):
        return self.transpose(args[0])

    def np_expand_dims(self, args, kw):
        ax = self.intc(args[1] if len(args) > 1 else kw['axis'])
        a = self.as_arr(args[0])
        if a.ndim == 1:
            return self.getitem(args[0], Tup([NONE, SliceV(NONE, NONE, NONE)] if ax == 0 else [SliceV(NONE, NONE, NONE), NONE]))
        raise Unsupported('expand_dims')

    def np_isscalar(self, args, kw):
        x = self.rd(args[0])
        if isinstance(x, T):
            return TRUE if x.kind in NUMK or x.kind == 'str' else FALSE if x.kind == 'none' else tm.opq('isscalar', x, kind='bool')
        return FALSE

    def np_iterable(self, args, kw):
        x = self.rd(args[0])
        return const(not (isinstance(x, T) and x.kind in NUMK))

    def np_broadcast_to(self, args, kw):
        a = self.as_arr(args[0])
        r = self.filled(args[1], lambda *i: None, a.dtype)
        return Arr(r.shape, self.broadcast_to(a, r.shape), a.dtype)
