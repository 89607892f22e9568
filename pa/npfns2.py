"""numpy functions: reductions, sets, linear algebra, random numbers; and the methods of library and built-in objects."""
from fractions import Fraction
from . import terms as tm
from .terms import T, const, ZERO, ONE, TRUE, FALSE, NONE, NAN, INF, PI, J
from .values import *
from .npmodel import CoreMixin, b2i, canon_type, HALF, TWO
from .nplib import LibMixin, ELEM, EPSF, MUTATORS
from .libfns import FnMixin, bind, NUMK
from .npfns import NpFns


class NpRed:
    # ------------------------------------------------------------ reductions
    def red(self, args, kw, names=('a', 'axis')):
        b = bind(list(names), args, kw)
        for k in ('where', 'initial', 'out'):
            if k in b and self.rd(b[k]) is not NONE:
                raise Unsupported(k + '= argument')
        v = b['a']
        if 'dtype' in b and self.rd(b['dtype']) is not NONE and self.dt_of(b['dtype']) not in ('float', 'complex'):
            raise Unsupported('reduction with an integer type')
        ax = b.get('axis')
        if ax is not None:
            ax = self.scalar(ax)
            ax = None if ax is NONE else ax
        x = self.rd(v)
        if isinstance(x, Arr) and x.dtype == 'str' or isinstance(x, PyList) and any(isinstance(self.rd(i), T) and self.rd(i).kind in ('str',) for i in x.items):
            self.raise_if(TRUE, 'TypeError')
        return b, v, ax

    def keep(self, b, v, ax, r):
        if 'keepdims' not in b or self.truth(b['keepdims']) is not TRUE:
            return r
        a = self.as_arr(v)
        if ax is None or a.ndim == 1:
            t = self.scalar(r)
            return Arr([ONE] * a.ndim, lambda *i: t, t.kind)
        k = int(tm.cval(ax)) % a.ndim
        ra = self.as_arr(r)
        return Arr(ra.shape[:k] + (ONE,) + ra.shape[k:], lambda *i: ra.get(*(i[:k] + i[k + 1:])), ra.dtype)

    def np_sum(self, args, kw):
        b, v, ax = self.red(args, kw)
        return self.keep(b, v, ax, self.sum_(v, ax))

    def np_mean(self, args, kw):
        b, v, ax = self.red(args, kw)
        return self.keep(b, v, ax, self.mean_(v, ax))

    def np_average(self, args, kw):
        b = bind(['a', 'axis', 'weights'], args, kw)
        if 'weights' in b and self.rd(b['weights']) is not NONE:
            w = b['weights']
            return self.binop('Div', self.sum_(self.binop('Mult', self.arrv(b['a']), self.arrv(w))), self.sum_(w))
        return self.np_mean([b['a']], {'axis': b['axis']} if 'axis' in b else {})

    def np_var(self, args, kw):
        b, v, ax = self.red(args, kw, ('a', 'axis', 'dtype', 'out', 'ddof'))
        return self.keep(b, v, ax, self.var_(v, ax, self.scalar(b['ddof']) if 'ddof' in b else ZERO))

    def np_std(self, args, kw):
        return self.map1(lambda t: tm.fn('sqrt', t), self.np_var(args, kw))

    def np_prod(self, args, kw):
        b, v, ax = self.red(args, kw)
        return self.prod_(v, ax)

    np_product = np_prod

    def np_min(self, args, kw):
        b, v, ax = self.red(args, kw)
        return self.keep(b, v, ax, self.order('min', v, ax))

    np_amin = np_min

    def np_max(self, args, kw):
        b, v, ax = self.red(args, kw)
        return self.keep(b, v, ax, self.order('max', v, ax))

    np_amax = np_max

    def np_median(self, args, kw):
        b, v, ax = self.red(args, kw)
        return self.order('median', v, ax)

    def np_argmin(self, args, kw):
        b, v, ax = self.red(args, kw)
        return self.order('argmin', v, ax)

    def np_argmax(self, args, kw):
        b, v, ax = self.red(args, kw)
        x = self.rd(v)
        if isinstance(x, Arr) and x.dtype == 'bool' and x.ndim == 1:
            self.raise_if(tm.cmp('==', x.shape[0], ZERO), 'ValueError', hazard=True)
            f = tm.first(ZERO, x.shape[0], lambda j: x.get(j))
            return tm.ite(tm.cmp('==', f, x.shape[0]), ZERO, f)
        return self.order('argmax', v, ax)

    def np_unravel_index(self, args, kw):
        b = bind(['indices', 'shape'], args, kw, {})
        i = self.rd(b['indices'])
        sh = [self.scalar(s) for s in self.seq_items(b['shape'])]
        if not isinstance(i, T) or len(sh) not in (1, 2) or set(b) - {'indices', 'shape'}:
            raise Unsupported('unravel_index')
        if len(sh) == 1:
            return Tup([i])
        return Tup([tm.fn('floor', tm.div(i, sh[1])), tm.fn('mod', i, sh[1])])

    def np_ptp(self, args, kw):
        b, v, ax = self.red(args, kw)
        return self.binop('Sub', self.order('max', v, ax), self.order('min', v, ax))

    def np_any(self, args, kw):
        b, v, ax = self.red(args, kw)
        return self.any_(v, ax)

    def np_all(self, args, kw):
        b, v, ax = self.red(args, kw)
        return self.all_(v, ax)

    def np_count_nonzero(self, args, kw):
        b, v, ax = self.red(args, kw)
        return self.sum_(self.map1(lambda t: self.truth(t), v), ax)

    def nonnan(self, v):
        x = self.rd(v)
        if isinstance(x, Filt):
            return Filt(x.n, lambda k: tm.and_(x.pred(k), tm.not_(tm.isnan(x.val(k)))), x.v, x.dtype)
        a = self.ravel(self.as_arr(x))
        return Filt(a.shape[0], lambda k: tm.not_(tm.isnan(a.get(k))), lambda k: a.get(k), a.dtype)

    def np_nanmean(self, args, kw):
        return self.mean_(self.nonnan(args[0]))

    def np_nansum(self, args, kw):
        return self.sum_(self.nonnan(args[0]))

    def np_nanvar(self, args, kw):
        return self.var_(self.nonnan(args[0]), None, self.scalar(kw['ddof']) if 'ddof' in kw else ZERO)

    def np_nanstd(self, args, kw):
        return tm.fn('sqrt', self.np_nanvar(args, kw))

    def np_nanmedian(self, args, kw):
        return self.order('median', self.pos_arr(self.nonnan(args[0])))

    def np_nanmin(self, args, kw):
        return self.order('min', self.pos_arr(self.nonnan(args[0])))

    def np_nanmax(self, args, kw):
        return self.order('max', self.pos_arr(self.nonnan(args[0])))

    def np_cumsum(self, args, kw):
        x = self.rd(args[0])
        a = self.as_arr(x)
        if a.ndim != 1:
            raise Unsupported('cumsum')
        return Arr(a.shape, lambda i: tm.total(ZERO, tm.add(i, ONE), lambda j: b2i(a.get(j))), 'int' if a.dtype in ('bool', 'int') else a.dtype)

    def np_cumprod(self, args, kw):
        a = self.as_arr(args[0])
        if a.ndim != 1:
            raise Unsupported('cumprod')
        if tm.is_int_const(a.shape[0]) and tm.cval(a.shape[0]) <= 12:
            n = int(tm.cval(a.shape[0]))
            ps, p = [], ONE
            for i in range(n):
                p = tm.mul(p, b2i(a.get(const(i))))
                ps.append(p)
            return Arr(a.shape, lambda i: self.pick(ps, i), a.dtype)
        return Arr(a.shape, lambda i: tm.opq('prod', tm.lam(tm.add(i, ONE), lambda j: b2i(a.get(j))), kind=a.dtype), a.dtype)

    def np_diff(self, args, kw):
        b = bind(['a', 'n', 'axis', 'prepend', 'append'], args, kw, {'n': ONE})
        r = b['a']
        a = self.rd(r)
        ends = [k for k in ('prepend', 'append') if k in b and self.rd(b[k]) is not NONE]
        if not isinstance(a, T) and (ends or 'axis' in b):
            ax = self.intc(b['axis']) if 'axis' in b else -1
            nd = self.as_arr(a).ndim
            if ends and nd != 1 or ax not in (-1, nd - 1):
                raise Unsupported('diff along an axis')
        if ends:
            r = self.np_concatenate([Tup([self.ends(b[k]) for k in ('prepend',) if k in ends] + [r] + [self.ends(b[k]) for k in ('append',) if k in ends])], {})
        for _ in range(self.intc(b['n'])):
            r = self.diff_(r)
        return r

    def ends(self, v):
        """what diff puts before or after its sequence: a number is a sequence of one"""
        x = self.rd(v)
        return Tup([x]) if isinstance(x, T) else v

    def np_ediff1d(self, args, kw):
        b = bind(['ary', 'to_end', 'to_begin'], args, kw, {})
        r = self.diff_(self.np_ravel([b['ary']], {}))
        pre = [self.ends(b['to_begin'])] if 'to_begin' in b and self.rd(b['to_begin']) is not NONE else []
        post = [self.ends(b['to_end'])] if 'to_end' in b and self.rd(b['to_end']) is not NONE else []
        return self.np_concatenate([Tup(pre + [r] + post)], {}) if pre or post else r

    def np_gradient(self, args, kw):
        edge = self.intc(kw['edge_order']) if 'edge_order' in kw else 1
        if set(kw) - {'edge_order', 'axis'} or 'axis' in kw and self.intc(kw['axis']) not in (0, -1) or edge not in (1, 2) or len(args) > 2:
            raise Unsupported('gradient')
        r = self.gradient_(args[0], edge)
        if len(args) > 1:
            d = self.rd(args[1])
            if not isinstance(d, T):
                raise Unsupported('gradient spacing')
            return self.binop('Div', r, d)
        return r

    def np_convolve(self, args, kw):
        b = bind(['a', 'v', 'mode'], args, kw, {'mode': const('full')})
        a, v = self.as_arr(b['a']), self.as_arr(b['v'])
        mode = self.scalar(b['mode'])
        if mode.op != 'str':
            raise Unsupported('convolve')
        n, m = a.shape[0], v.shape[0]
        self.raise_if(tm.or_(tm.cmp('==', n, ZERO), tm.cmp('==', m, ZERO)), 'ValueError', hazard=True)
        full = lambda k: tm.total(tm.fn('max2', ZERO, tm.sub(k, tm.sub(m, ONE))), tm.fn('min2', n, tm.add(k, ONE)), lambda j: tm.mul(a.get(j), v.get(tm.sub(k, j))))
        dt = self.join_dtype(a.dtype, v.dtype)
        if mode.args[0] == 'full':
            return Arr((tm.sub(tm.add(n, m), ONE),), full, dt)
        if mode.args[0] == 'valid':
            mn = tm.fn('min2', n, m) if not self.know(tm.cmp('<=', m, n)) else m
            mx = tm.fn('max2', n, m) if mn is not m else n
            return Arr((tm.add(tm.sub(mx, mn), ONE),), lambda k: full(tm.add(k, tm.sub(mn, ONE))), dt)
        mx = n if self.know(tm.cmp('<=', m, n)) else tm.fn('max2', n, m)
        mn = m if mx is n else tm.fn('min2', n, m)
        return Arr((mx,), lambda k: full(tm.add(k, tm.fn('floor', tm.div(tm.sub(mn, ONE), TWO)))), dt)

    def np_dot(self, args, kw):
        if 'out' in kw:
            return self.into(kw['out'], self.matmul(args[0], args[1], True))
        return self.matmul(args[0], args[1], True)

    def np_matmul(self, args, kw):
        return self.matmul(args[0], args[1])

    def np_inner(self, args, kw):
        return self.matmul(args[0], args[1], True)

    np_vdot = np_inner

    def np_outer(self, args, kw):
        a, b = self.ravel(self.as_arr(args[0])), self.ravel(self.as_arr(args[1]))
        return Arr((a.shape[0], b.shape[0]), lambda i, j: tm.mul(b2i(a.get(i)), b2i(b.get(j))), self.join_dtype(a.dtype, b.dtype))

    def np_poly(self, args, kw):
        """coefficients of the monic polynomial with the given roots"""
        a = self.as_arr(args[0])
        if a.ndim == 0:
            a = Arr((ONE,), lambda i: a.get(), a.dtype)
        if a.ndim != 1:
            raise Unsupported('characteristic polynomial')
        n = a.shape[0]
        k = a.dtype if a.dtype in ('float', 'complex') else 'float'
        l = tm.lam(n, lambda j: a.get(j))
        if n is ZERO:
            return tm.tofloat(ONE) if hasattr(tm, 'tofloat') else ONE
        return Arr((tm.add(n, ONE),), lambda i: tm.opq('polycoef', l, i, kind=k), k)

    def np_sort_complex(self, args, kw):
        return self.np_sort(args, {})

    def np_polyval(self, args, kw):
        p = self.as_arr(args[0])
        if not tm.is_int_const(p.shape[0]):
            raise Unsupported('polyval')
        n = int(tm.cval(p.shape[0]))

        def f(x):
            r = ZERO
            for i in range(n):
                r = tm.add(tm.mul(r, x), p.get(const(i)))
            return r
        return self.map1(f, args[1])

    # ------------------------------------------------------------ linear algebra
    def la_inv(self, args, kw):
        x = self.rd(args[0])
        if isinstance(x, Arr) and x.ndim == 2 and all(d is ONE for d in x.shape):
            self.raise_if(tm.cmp('==', x.get(ZERO, ZERO), ZERO), 'LinAlgError', hazard=True)
            return Arr((ONE, ONE), lambda i, j: tm.div(ONE, x.get(ZERO, ZERO)), 'float')
        if isinstance(x, Arr) and x.ndim != 2 and x.dtype != 'any':
            self.raise_if(TRUE, 'LinAlgError')
        t = tm.opq('inv', self.reify(x))
        if isinstance(x, Arr):
            return Arr(x.shape, lambda i, j: tm.opq('item', t, i, j, kind='float'), 'float')
        return t

    sl_inv = la_inv

    def la_norm(self, args, kw):
        x = self.rd(args[0])
        if len(args) == 1 and not kw and not isinstance(x, Opaque) and not (isinstance(x, T) and x.kind == 'any'):
            return tm.fn('sqrt', self.sum_(self.map1(lambda t: tm.power(tm.fn('abs', t), TWO), x)))
        return tm.opq('lib.numpy.linalg.norm', *([self.reify(a) for a in args] + [tm.opq('kw:' + k, self.reify(kw[k])) for k in sorted(kw)]), kind='float')

    def la_eigh(self, args, kw):
        a = self.as_arr(args[0])
        if a.ndim != 2:
            raise Unsupported('eigh')
        t = self.reify(a)
        n = a.shape[0]
        return Tup([self.box(Arr((n,), lambda i: tm.opq('eigval', t, i, kind='float'), 'float')),
                    self.box(Arr((n, n), lambda i, j: tm.opq('eigvec', t, i, j, kind='float'), 'float'))])

    def la_cholesky(self, args, kw):
        a = self.rd(args[0])
        if not isinstance(a, Arr) or a.ndim != 2:
            return self.lib_call('scipy.linalg.cholesky', args, kw)
        t = tm.opq('cholesky', self.reify(a), *[tm.opq('kw:' + k, self.reify(kw[k])) for k in sorted(kw)])
        return Arr(a.shape, lambda i, j: tm.opq('item', t, i, j, kind='float'), 'float')

    sl_cholesky = la_cholesky

    def ft_fft(self, args, kw):
        return self.fourier('fft', args, kw)

    def ft_ifft(self, args, kw):
        return self.fourier('ifft', args, kw)

    def fourier(self, name, args, kw):
        a = self.as_arr(args[0])
        if a.dtype == 'any' and a.ndim == 0:
            return self.lib_call('numpy.fft.' + name, args, kw)
        extra = [tm.opq('kw:' + k, self.reify(kw[k])) for k in sorted(kw)] + [self.reify(x) for x in args[1:]]
        if extra and not (set(kw) <= {'axis'}):
            return self.lib_call('numpy.fft.' + name, args, kw)
        ax = self.axis_of(kw)
        k = a.ndim - 1 if ax is None else int(tm.cval(ax)) % a.ndim

        def get(*i):
            line = tm.lam(a.shape[k], lambda j: a.get(*(list(i[:k]) + [j] + list(i[k + 1:]))))
            return tm.opq(name, line, i[k], kind='complex')
        return Arr(a.shape, get, 'complex')

    # ------------------------------------------------------------ sets and sorting
    def np_sort(self, args, kw):
        return self.sort_(args[0])

    # ------------------------------------------------------------ functions that write into their argument
    def np_put(self, args, kw):
        b = bind(['a', 'ind', 'v', 'mode'], args, kw, {'mode': const('raise')})
        v = self.rd(b['v'])
        if b['mode'] is not const('raise') or self.as_arr(self.rd(b['a'])).ndim != 1:
            raise Unsupported('put')
        if not isinstance(v, T):
            va = self.as_arr(v)
            ind = self.rd(b['ind'])
            if va.ndim == 0 or va.ndim == 1 and va.shape[0] is ONE:
                v = va.get(*[ZERO] * va.ndim)
            elif va.ndim != 1 or isinstance(ind, T) or self.as_arr(ind).shape[0] is not va.shape[0]:
                raise Unsupported('put')
        self.setitem(b['a'], b['ind'], v)
        return NONE

    def np_copyto(self, args, kw):
        b = bind(['dst', 'src', 'casting', 'where'], args, kw, {'casting': NONE, 'where': TRUE})
        w = b['where']
        if w is TRUE:
            self.store_all(b['dst'], self.rd(b['src']))
            return NONE
        return self.np_putmask([b['dst'], w, b['src']], {}, True)

    def np_putmask(self, args, kw, same=False):
        b = bind(['a', 'mask', 'values'], args, kw, {})
        x, m, v = self.as_arr(self.rd(b['a'])), self.as_arr(self.rd(b['mask'])), self.rd(b['values'])
        if m.dtype != 'bool' or m.ndim != x.ndim:
            raise Unsupported('putmask')
        if not isinstance(v, T):
            va = self.as_arr(v)
            if va.ndim != x.ndim or any(p is not q for p, q in zip(va.shape, x.shape)):
                raise Unsupported('putmask')
            self.write(b['a'], va.get, m.get)
            return NONE
        self.write(b['a'], lambda *i: v, m.get)
        return NONE

    def np_place(self, args, kw):
        b = bind(['arr', 'mask', 'vals'], args, kw, {})
        v = self.rd(b['vals'])
        if isinstance(v, PyList) and len(v.items) == 1 and isinstance(self.rd(v.items[0]), T):
            v = self.rd(v.items[0])
        if not isinstance(v, T):
            raise Unsupported('place')
        return self.np_putmask([b['arr'], b['mask'], v], {})

    def estimator(self, obj, t, name, args, kw):
        """scikit-learn: fitting forgets earlier fits, and polynomial features depend on the settings alone"""
        root = t
        while root.op == 'opq' and root.args[0] == 'after.fit':
            root = root.args[1][0]
        if root.op != 'opq' or root.args[0] not in ('lib.sklearn.preprocessing.PolynomialFeatures', 'lib.sklearn.linear_model.LinearRegression'):
            return None
        features = root.args[0].endswith('Features')
        if name not in (('fit', 'fit_transform', 'transform') if features else ('fit', 'predict')):
            return None
        b = bind(['X', 'y'], args, kw, {'y': NONE})
        ts = [self.reify(b['X'])] + ([] if self.rd(b['y']) is NONE or features else [self.reify(b['y'])])
        if name in ('transform', 'predict') and t is root:
            self.raise_if(TRUE, 'ValueError')
        if name == 'predict':
            return Opaque(tm.opq('.predict', t, *ts))
        if name != 'transform':
            st = Opaque(tm.opq('after.fit', root, *ts))
            if isinstance(obj, Ref):
                self.st.heap[obj.cell] = st
            else:
                obj = self.box(st)
            if name == 'fit':
                return obj
        return Opaque(tm.opq('.fit_transform', root, *ts))

    def np_lexsort(self, args, kw):
        ks = self.rd(args[0])
        if len(args) != 1 or kw or not isinstance(ks, (Tup, PyList)) or not ks.items:
            raise Unsupported('lexsort')
        ks = [self.as_arr(self.rd(k)) for k in ks.items]
        if any(k.ndim != 1 for k in ks):
            raise Unsupported('lexsort')
        if len(ks) == 1:
            return self.argsort_(ks[0])
        ls = [self.reify_arr(k) for k in ks]
        return Arr(ks[0].shape, lambda p: tm.opq('lexat', p, *ls, kind='int'), 'int')

    def np_argsort(self, args, kw):
        return self.argsort_(args[0])

    def np_unique(self, args, kw):
        c = 'return_counts' in kw and self.truth(kw['return_counts']) is TRUE
        for k in ('return_index', 'return_inverse'):
            if k in kw and self.truth(kw[k]) is not FALSE:
                raise Unsupported('unique ' + k)
        return self.unique_(args[0], c)

    def sets(self, args, f, name):
        s = self.index_sets(args[:2])
        if s is None:
            return tm.opq('lib.numpy.' + name, self.reify(args[0]), self.reify(args[1]))
        n, (p, q) = s
        return Filt(n, lambda k: f(p(k), q(k)), lambda k: k, 'int')

    def np_intersect1d(self, args, kw):
        return self.sets(args, lambda p, q: tm.and_(p, q), 'intersect1d')

    def np_union1d(self, args, kw):
        return self.sets(args, lambda p, q: tm.or_(p, q), 'union1d')

    def np_setdiff1d(self, args, kw):
        return self.sets(args, lambda p, q: tm.and_(p, tm.not_(q)), 'setdiff1d')

    def np_setxor1d(self, args, kw):
        return self.sets(args, lambda p, q: tm.or_(tm.and_(p, tm.not_(q)), tm.and_(tm.not_(p), q)), 'setxor1d')

    def np_isin(self, args, kw):
        inv = 'invert' in kw and self.truth(kw['invert']) is TRUE
        f = (lambda t: tm.not_(self.contains(t, args[1]))) if inv else (lambda t: self.contains(t, args[1]))
        return self.map1(f, args[0])

    np_in1d = np_isin

    def np_compress(self, args, kw):
        ax = self.axis_of(kw)
        c = self.as_arr(args[0])
        a = self.as_arr(args[1])
        if a.ndim == 1:
            return self.getitem(a, Arr(c.shape, lambda i: self.truth(c.get(i)), 'bool'))
        if a.ndim == 2 and ax is not None:
            k = int(tm.cval(ax)) % 2
            i = Arr(c.shape, lambda i: self.truth(c.get(i)), 'bool')
            full = SliceV(NONE, NONE, NONE)
            return self.getitem(a, Tup([i, full] if k == 0 else [full, i]))
        raise Unsupported('compress')

    def np_take(self, args, kw):
        return self.getitem(self.arrv(args[0]), args[1])

    def np_searchsorted(self, args, kw):
        b = bind(['a', 'v', 'side'], args, kw, {'side': const('left')})
        a = self.as_arr(b['a'])
        left = self.scalar(b['side']).args[0] == 'left'
        # number of elements below (sorted input)
        return self.map1(lambda t: tm.total(ZERO, a.shape[0], lambda j: tm.ite(tm.cmp('<' if left else '<=', a.get(j), t), ONE, ZERO)), b['v'])

    def np_interp(self, args, kw):
        b = bind(['x', 'xp', 'fp'], args, kw, {})
        xp, fp = self.as_arr(b['xp']), self.as_arr(b['fp'])
        n = xp.shape[0]
        self.raise_if(tm.cmp('==', n, ZERO), 'ValueError')
        self.raise_if(tm.not_(tm.cmp('==', n, fp.shape[0])), 'ValueError')
        ONE_ = tm.const(1)

        def at(t):
            c = tm.total(ZERO, n, lambda j: tm.ite(tm.cmp('<=', xp.get(j), t), ONE_, ZERO))
            i = tm.sub(c, ONE_)
            slope = tm.div(tm.sub(fp.get(c), fp.get(i)), tm.sub(xp.get(c), xp.get(i)))
            inner = tm.add(fp.get(i), tm.mul(slope, tm.sub(t, xp.get(i))))
            return tm.ite(tm.cmp('==', c, ZERO), fp.get(ZERO), tm.ite(tm.cmp('==', c, n), fp.get(i), inner))
        return self.map1(at, b['x'])

    def np_digitize(self, args, kw):
        b = bind(['x', 'bins', 'right'], args, kw, {'right': FALSE})
        a = self.as_arr(b['bins'])
        right = self.truth(b['right']) is TRUE
        if b['right'] is not FALSE and self.truth(b['right']) not in (TRUE, FALSE):
            raise Unsupported('digitize')
        return self.map1(lambda t: tm.total(ZERO, a.shape[0], lambda j: tm.ite(tm.cmp('<' if right else '<=', a.get(j), t), ONE, ZERO)), b['x'])

    # ------------------------------------------------------------ types
    def np_finfo(self, args, kw):
        a = self.rd(args[0]) if args else None
        return Opaque(tm.opq('finfo.float' if isinstance(a, Builtin) and a.name in ('float', 'numpy.float64', 'builtins.float') else 'finfo'))

    def np_dtype(self, args, kw):
        return args[0]

    def cast_fn(self, args, dt):
        x = self.rd(args[0]) if args else const(0)
        return self.astype(x, dt) if not (isinstance(x, T) and x.kind in ('str', 'none')) else (self.py_float if dt == 'float' else self.py_int)([x], {})

    def np_float64(self, args, kw):
        return self.cast_fn(args, 'float')

    np_float32 = np_float_ = np_double = np_float64

    def np_int64(self, args, kw):
        return self.cast_fn(args, 'int')

    np_int32 = np_int_ = np_intp = np_int64

    def np_complex128(self, args, kw):
        return self.cast_fn(args, 'complex')

    def np_bool_(self, args, kw):
        return self.truth(args[0])

    def np_common_type(self, args, kw):
        return Builtin('dtype:' + tm.join_kind('float', *[self.as_arr(a).dtype for a in args]))

    def np_errstate(self, args, kw):
        return NONE

    def np_iscomplexobj(self, args, kw):
        return const(self.as_arr(args[0]).dtype == 'complex')

    def np_array_equal(self, args, kw):
        a, b = self.as_arr(args[0]), self.as_arr(args[1])
        if a.ndim != b.ndim:
            return FALSE
        if a.ndim == 1:
            n = a.shape[0]
            return tm.and_(tm.cmp('==', n, b.shape[0]), tm.not_(tm.exists(ZERO, n, lambda j: tm.cmp('!=', a.get(j), b.get(j)))))
        raise Unsupported('array_equal')

    # ------------------------------------------------------------ random numbers
    def rn_randint(self, args, kw):
        b = bind(['low', 'high', 'size', 'dtype'], args, kw, {'high': NONE, 'size': NONE})
        lo, hi = self.scalar(b['low']), self.scalar(b['high'])
        if hi is NONE:
            lo, hi = ZERO, lo
        self.raise_if(tm.cmp('<=', hi, lo), 'ValueError', hazard=True)
        sz = self.rd(b['size'])
        return self.rng_draw('randint', [lo, hi], 'int', None if sz is NONE else b['size'])

    def rn_normal(self, args, kw):
        b = bind(['loc', 'scale', 'size'], args, kw, {'loc': const(0.0), 'scale': const(1.0), 'size': NONE})
        sz = self.rd(b['size'])
        return self.rng_draw('normal', [b['loc'], b['scale']], 'float', None if sz is NONE else b['size'])

    def rn_uniform(self, args, kw):
        b = bind(['low', 'high', 'size'], args, kw, {'low': const(0.0), 'high': const(1.0), 'size': NONE})
        sz = self.rd(b['size'])
        return self.rng_draw('uniform', [b['low'], b['high']], 'float', None if sz is NONE else b['size'])

    def rn_rand(self, args, kw):
        return self.rng_draw('uniform', [const(0.0), const(1.0)], 'float', Tup(args) if args else None)

    def rn_randn(self, args, kw):
        return self.rng_draw('normal', [const(0.0), const(1.0)], 'float', Tup(args) if args else None)

    def rn_random(self, args, kw):
        sz = args[0] if args else kw.get('size')
        return self.rng_draw('uniform', [const(0.0), const(1.0)], 'float', sz)

    def rn_seed(self, args, kw):
        self.st.heap['#rng'] = tm.opq('rng.seed', *[self.reify(a) for a in args])
        return NONE

    def rn_choice(self, args, kw):
        b = bind(['a', 'size', 'replace', 'p'], args, kw, {'size': NONE})
        sz = self.rd(b['size'])
        return self.rng_draw('choice', [b['a']] + [b[k] for k in ('replace', 'p') if k in b], 'any', None if sz is NONE else b['size'])

    def rn_permutation(self, args, kw):
        return self.rng_draw('permutation', args, 'any')


class MethodMixin:
    NPM = {'sum', 'mean', 'std', 'var', 'min', 'max', 'argmin', 'argmax', 'any', 'all', 'prod', 'cumsum', 'cumprod', 'round', 'clip', 'ptp', 'dot', 'squeeze', 'ravel',
           'conj', 'conjugate', 'nonzero', 'argsort', 'repeat', 'searchsorted', 'take', 'diagonal'}

    def method(self, obj, name, args, kw):
        if isinstance(obj, BoundM):
            raise Unsupported('method of a method')
        x = self.rd(obj)
        if isinstance(x, Alt):
            raise Unsupported('method of alternatives')
        if isinstance(x, PySet):
            f = {'union': 'np_union1d', 'intersection': 'np_intersect1d', 'difference': 'np_setdiff1d', 'symmetric_difference': 'np_setxor1d', 'update': 'np_union1d',
                 'intersection_update': 'np_intersect1d', 'difference_update': 'np_setdiff1d', 'symmetric_difference_update': 'np_setxor1d', 'add': 'np_union1d'}.get(name)
            if not f:
                raise Unsupported('set.' + name)
            r = obj
            for a in args:
                r = self.box(self.set_of(getattr(self, f)([r, self.box(PyList([a])) if name == 'add' else a], {})))
            if name == 'add' or name.endswith('update'):
                self.replace(obj, self.rd(r))
                return NONE
            return r
        if isinstance(x, PyList) and not x.items and name in ('union', 'update') and args:
            r = self.box(self.py_set([args[0]], {}))
            for a in args[1:]:
                r = self.method(r, 'union', [a], {})
            if name == 'update':
                self.replace(obj, self.rd(r))
                return NONE
            return r
        if isinstance(x, Opaque) or isinstance(x, T) and x.kind not in NUMK and x.op != 'str' and x.kind != 'str':
            t = x.t if isinstance(x, Opaque) else x
            if name in ('evaluate', 'pdf', '__call__'):
                r = self.kde_at(t, args, kw)
                if r is not None:
                    return r
            ts = [self.reify(a) for a in args] + [tm.opq('kw:' + k, self.reify(kw[k])) for k in sorted(kw)]
            r = self.estimator(obj, t, name, args, kw)
            if r is not None:
                return r
            if name in MUTATORS and isinstance(obj, Ref):
                self.st.heap[obj.cell] = Opaque(tm.opq('after.' + name, t, *ts))
                if name == 'fit':
                    return obj
            return Opaque(tm.opq('.' + name, t, *ts))
        if isinstance(x, T):
            if x.kind == 'str' or x.op == 'str':
                if x.op == 'str' and name in ('lower', 'upper', 'strip') and not args:
                    return const(getattr(x.args[0], name)())
                if x.op == 'str' and name in ('startswith', 'endswith') and all(self.scalar(a).op == 'str' for a in args):
                    return const(getattr(x.args[0], name)(*[self.scalar(a).args[0] for a in args]))
                if name in ('lower', 'upper', 'strip', 'format', 'join'):
                    return tm.opq('text', x, kind='str')
                if name in ('mean', 'sum'):
                    self.raise_if(TRUE, 'AttributeError')
                raise Unsupported('str.' + name)
            if name in ('item', 'copy', 'conjugate', 'conj'):
                return x if name in ('item', 'copy') else tm.fn('conj', x)
            if name in ('astype',):
                return self.cast_to(x, self.dt_of(args[0]) or x.kind)
            if name in ('is_integer',):
                return tm.cmp('==', tm.fn('floor', x), x)
            if name in self.NPM:
                return self.builtin('numpy.' + name, [x] + list(args), kw)
            if name in ('reshape', 'flatten'):
                return self.array_method(obj, Arr((), lambda: x, x.kind), name, args, kw)
            if name == 'tolist':
                return x
            raise Unsupported('method %s of a number' % name)
        if isinstance(x, PyDict):
            return self.dict_method(obj, x, name, args, kw)
        if isinstance(x, PyList) or getattr(x, 'islist', False) or isinstance(x, Tup):
            return self.list_method(obj, x, name, args, kw)
        return self.array_method(obj, x, name, args, kw)

    def array_method(self, v, x, name, args, kw):
        if name == 'ravel':
            return self.ravel(self.as_arr(x)) if isinstance(x, Arr) and x.ndim != 1 else v
        if name in self.NPM:
            return self.builtin('numpy.' + name, [v] + list(args), kw)
        if name == 'copy':
            return self.fresh(x)
        if name == 'astype':
            return self.astype(x, self.dt_of(args[0] if args else kw.get('dtype')))
        if name == 'flatten':
            return self.ravel(self.as_arr(x)) if isinstance(x, Arr) else self.fresh(x)
        if name == 'reshape':
            s = self.rd(args[0])
            if len(args) == 1:
                return self.reshape(x, s.items if isinstance(s, (Tup, PyList)) else [s])
            return self.reshape(x, args)
        if name == 'transpose':
            return self.transpose(v)
        if name == 'tolist':
            return self.to_list(x)
        if name == 'item':
            return self.scalar(x) if not args else self.getitem(x, args[0])
        if name == 'sort':
            r = self.sort_(x)
            self.store_all(v, r) if isinstance(r, Arr) else self.replace(v, r)
            return NONE
        if name == 'fill':
            t = self.scalar(args[0])
            self.write(v, lambda *i: t, lambda *i: TRUE)
            return NONE
        if name == 'put':
            return self.np_put([v] + list(args), kw)
        if name == 'view':
            return v
        if name in ('append', 'extend', 'index', 'insert', 'pop', 'remove'):
            self.raise_if(TRUE, 'AttributeError')
        raise Unsupported('ndarray.' + name)

    def replace(self, v, c):
        if isinstance(v, Ref) and not v.maps:
            self.st.heap[v.cell] = c
            return
        raise Unsupported('in-place change of a temporary')

    def list_method(self, v, x, name, args, kw):
        if name == 'append':
            return self.list_append(v, x, args[0])
        if name == 'extend':
            self.list_extend(v, args[0])
            return NONE
        if name == 'copy':
            return PyList(x.items) if isinstance(x, PyList) else x
        if name == 'index':
            s = self.scalar(args[0])
            a = self.as_arr(x)
            n = a.shape[0]
            f = tm.first(ZERO, n, lambda j: tm.cmp('==', a.get(j), s))
            self.raise_if(tm.not_(tm.exists(ZERO, n, lambda j: tm.cmp('==', a.get(j), s))), 'ValueError', hazard=True)
            return f
        if name == 'count':
            s = self.scalar(args[0])
            a = self.as_arr(x)
            return tm.total(ZERO, a.shape[0], lambda j: b2i(tm.cmp('==', a.get(j), s)))
        if name == 'insert':
            i = self.scalar(args[0])
            if isinstance(x, PyList) and tm.is_int_const(i):
                l = list(x.items)
                l.insert(int(tm.cval(i)), args[1])
                self.replace(v, PyList(l))
                return NONE
            if i is ZERO:
                r = self.concat([PyList([args[1]]), x])
                self.replace(v, Arr(r.shape, r.f, r.dtype, True) if isinstance(r, Arr) else r)
                return NONE
        if name == 'pop' and isinstance(x, PyList):
            if not x.items:
                self.raise_if(TRUE, 'IndexError')
            i = self.intc(args[0]) if args else -1
            l = list(x.items)
            r = l.pop(i)
            self.replace(v, PyList(l))
            return r
        if name == 'reverse':
            if isinstance(x, PyList):
                self.replace(v, PyList(list(reversed(x.items))))
            else:
                a = self.as_arr(x)
                self.replace(v, Arr(a.shape, lambda i: a.get(tm.sub(tm.sub(a.shape[0], ONE), i)), a.dtype, True))
            return NONE
        if name == 'sort':
            if kw:
                raise Unsupported('list.sort options')
            self.replace(v, self.py_sorted([x], {}))
            return NONE
        if name == 'clear':
            self.replace(v, PyList([]))
            return NONE
        if name == 'add' and isinstance(x, PyList):
            return self.list_append(v, x, args[0])
        raise Unsupported('list.' + name)

    def list_append(self, v, x, e):
        if isinstance(x, PyList):
            self.replace(v, PyList(x.items + [e]))
            return NONE
        y = self.rd(e)
        if isinstance(x, Arr) and x.ndim > 1:
            ya = self.as_arr(y)
            y1 = Arr((ONE,) + ya.shape, lambda i, *r: ya.get(*r), ya.dtype)
            r = self.concat_arrs([x, y1], True)
        else:
            if not isinstance(y, T):
                y = self.scalar(y)
            r = self.concat([x, Arr((ONE,), lambda i: y, y.kind, True)])
        if isinstance(r, (Arr, Filt)):
            r = Arr(r.shape, r.f, r.dtype, True) if isinstance(r, Arr) else Filt(r.n, r.p, r.v, r.dtype, True)
        elif isinstance(r, Cat):
            r = Cat(r.parts, True)
        self.replace(v, r)
        return NONE

    def dict_method(self, v, x, name, args, kw):
        if name == 'get':
            k = self.scalar(args[0])
            if k in x.d:
                return x.d[k]
            if all(q.op == 'str' for q in x.d) and k.op == 'str':
                return args[1] if len(args) > 1 else NONE
            raise Unsupported('dict.get')
        if name == 'keys':
            return PyList(list(x.d))
        if name == 'values':
            return PyList(list(x.d.values()))
        if name == 'items':
            return PyList([Tup([k, w]) for k, w in x.d.items()])
        if name == 'copy':
            return PyDict(x.d)
        if name == 'update':
            d = dict(x.d)
            if args:
                d.update(self.rd(args[0]).d)
            for k, w in kw.items():
                d[const(k)] = w
            self.replace(v, PyDict(d))
            return NONE
        if name == 'pop':
            k = self.scalar(args[0])
            d = dict(x.d)
            if k in d:
                r = d.pop(k)
                self.replace(v, PyDict(d))
                return r
        raise Unsupported('dict.' + name)


class NumpyMixin(CoreMixin, LibMixin, FnMixin, NpFns, NpRed, MethodMixin):
    pass
