"""Calls of library functions and methods as operations on abstract values; everything unknown becomes an uninterpreted call."""
from fractions import Fraction
from . import terms as tm
from . import npsig
from .terms import T, const, ZERO, ONE, TRUE, FALSE, NONE, NAN, INF, PI, J
from .values import *
from .npmodel import CoreMixin, b2i, canon_type, HALF, TWO
from .nplib import LibMixin, ELEM, MATH, SIG, DEF, ALIAS, MUTATORS, EPSF

NUMK = ('int', 'float', 'bool', 'complex')
EXC = {'ValueError', 'TypeError', 'IndexError', 'KeyError', 'Exception', 'RuntimeError', 'ZeroDivisionError', 'NotImplementedError', 'AssertionError',
       'ArithmeticError', 'OverflowError', 'UserWarning', 'RuntimeWarning'}
UNARY = {'floor', 'ceil', 'trunc', 'rint', 'fix'}
BIN = {'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult', 'divide': 'Div', 'true_divide': 'Div', 'power': 'Pow', 'float_power': 'Pow', 'mod': 'Mod', 'remainder': 'Mod',
       'floor_divide': 'FloorDiv', 'bitwise_and': 'BitAnd', 'bitwise_or': 'BitOr', 'bitwise_xor': 'BitXor'}
CMPF = {'less': 'Lt', 'less_equal': 'LtE', 'greater': 'Gt', 'greater_equal': 'GtE', 'equal': 'Eq', 'not_equal': 'NotEq'}


def bind(names, args, kwargs, defaults=None):
    r = dict(defaults or {})
    for n, a in zip(names, args):
        r[n] = a
    if len(args) > len(names):
        raise Unsupported('library call with too many arguments')
    for k, v in kwargs.items():
        r[k] = v
    return r


class FnMixin:
    def intc(self, v):
        """Python int of a constant argument"""
        t = self.scalar(v)
        if not tm.is_int_const(t):
            raise Unsupported('symbolic structural argument')
        return int(tm.cval(t))

    def axis_of(self, kw):
        a = kw.get('axis')
        if a is None:
            return None
        a = self.scalar(a)
        return None if a is NONE else a

    # ------------------------------------------------------------ dispatch
    def builtin(self, name, args, kwargs):
        name = ALIAS.get(name, name)
        if name.startswith('dtype:'):
            raise Unsupported('call of a dtype')
        root, _, last = name.rpartition('.')
        if root == '':
            m = getattr(self, 'py_' + name, None)
            if m is not None:
                return m(args, kwargs)
            if name in EXC or name.endswith('Error'):
                return tm.opq('exc:' + name)
            raise Unsupported('built-in ' + name)
        if root == 'math':
            return self.math_fn(last, args)
        if root == 'warnings':
            return NONE
        if root == 'operator' and last in ('add', 'sub', 'mul', 'truediv', 'lt', 'le', 'gt', 'ge', 'eq', 'ne'):
            o = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div'}.get(last)
            if o:
                return self.binop(o, *args)
            return self.compare({'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE', 'eq': 'Eq', 'ne': 'NotEq'}[last], *args)
        if root in ('numpy', 'numpy.linalg', 'numpy.random', 'numpy.fft', 'numpy.ma', 'scipy.linalg'):
            pre = {'numpy': 'np_', 'numpy.linalg': 'la_', 'numpy.random': 'rn_', 'numpy.fft': 'ft_', 'numpy.ma': 'ma_', 'scipy.linalg': 'sl_'}[root]
            m = getattr(self, pre + last, None)
            if m is not None:
                if pre == 'np_':
                    args, kwargs = npsig.normal(self, last, args, kwargs)
                return m(args, kwargs)
            if root == 'numpy':
                r = self.numpy_fn(last, args, kwargs)
                if r is not None:
                    return r
            if root == 'numpy.ma':
                return self.builtin('numpy.' + last, args, kwargs)
        return self.lib_call(name, args, kwargs)

    def lib_call(self, name, args, kwargs):
        """an uninterpreted library call, normalised to keyword form where the signature is known"""
        if name in ('numpy.add.at', 'numpy.subtract.at') and len(args) == 3 and not kwargs and isinstance(self.rd(args[1]), Tup):
            a, v = self.as_arr(self.rd(args[0])), self.as_arr(self.rd(args[2]))
            ix = [self.as_arr(self.rd(i)) for i in self.rd(args[1]).items]
            if a.ndim == len(ix) == 2 and v.ndim < 2 and all(i.ndim == 1 and i.dtype == 'int' for i in ix) and ix[0].shape[0] is ix[1].shape[0]:
                for i, n in zip(ix, a.shape):
                    self.index_hazard(i, n)
                vs = self.broadcast_to(v, ix[0].shape)
                sg = tm.add if name == 'numpy.add.at' else tm.sub
                hit = lambda j, p, q: tm.and_(tm.cmp('==', self.wrapq(ix[0].get(j), a.shape[0]), p), tm.cmp('==', self.wrapq(ix[1].get(j), a.shape[1]), q))
                self.write(args[0], lambda p, q: sg(a.get(p, q), tm.total(ZERO, ix[0].shape[0], lambda j: tm.ite(hit(j, p, q), vs(j), ZERO))), lambda p, q: TRUE)
                return NONE
            raise Unsupported('writes into its argument: ' + name)
        if name in ('numpy.add.at', 'numpy.subtract.at') and len(args) == 3 and not kwargs:
            a, ix, v = self.as_arr(self.rd(args[0])), self.as_arr(self.rd(args[1])), self.as_arr(self.rd(args[2]))
            if a.ndim == 1 and ix.ndim == 1 and ix.dtype == 'int' and v.ndim < 2:
                self.index_hazard(ix, a.shape[0])
                vs = self.broadcast_to(v, ix.shape)
                sg = tm.add if name == 'numpy.add.at' else tm.sub
                self.write(args[0], lambda p: sg(a.get(p), tm.total(ZERO, ix.shape[0], lambda j: tm.ite(tm.cmp('==', self.wrapq(ix.get(j), a.shape[0]), p), vs(j), ZERO))), lambda p: TRUE)
                return NONE
        if name.startswith('numpy.') and name.rsplit('.', 1)[-1] in ('at', 'fill_diagonal', 'put_along_axis', 'place', 'putmask', 'copyto', 'shuffle') or 'out' in kwargs and self.rd(kwargs['out']) is not NONE:
            raise Unsupported('writes into its argument: ' + name)
        self.notes.add('library call ' + name)
        sig = SIG.get(name)
        if sig is not None:
            kw = bind(sig, args, kwargs)
            d = DEF.get(name, {})
            if name == 'scipy.signal.welch':
                self.norm_welch(kw)
            ts = []
            for n in sig:
                if n in kw:
                    t = self.reify(kw[n])
                    if n in d and t is d[n]:
                        continue
                    ts.append(tm.opq('kwsig:' + n, t))
            for n in sorted(set(kw) - set(sig)):
                ts.append(tm.opq('kw:' + n, self.reify(kw[n])))
        else:
            ts = [self.reify(a) for a in args] + [tm.opq('kw:' + k, self.reify(kwargs[k])) for k in sorted(kwargs)]
        if name in ('scipy.optimize.brentq', 'scipy.optimize.bisect', 'scipy.optimize.brenth', 'scipy.optimize.ridder'):
            # a bracket without a sign change is refused; followed only where the program is prepared for it
            if any(self.catching):
                # the function it is given may fail too, and that is the caller's to hear of
                self.raise_if(tm.opq('fails.call.' + name, *ts, kind='bool'), 'ArithmeticError')
                self.raise_if(tm.opq('fails.' + name, *ts, kind='bool'), 'ValueError')
            return tm.opq('lib.' + name, *ts, kind='float')
        return Opaque(tm.opq('lib.' + name, *ts))

    def norm_welch(self, kw):
        """segment and transform lengths that merely repeat the length of the given window"""
        w = self.rd(kw.get('window', NONE))
        if not isinstance(w, Opaque) or w.t.op != 'opq' or w.t.args[0] != 'lib.scipy.signal.windows.hann':
            return
        m = [a.args[1][0] for a in w.t.args[1] if a.op == 'opq' and a.args[0] == 'kwsig:M']
        if not m:
            return
        sc_ = lambda k: kw.get(k) if isinstance(kw.get(k), T) else self.rd(kw[k]) if k in kw else None
        if sc_('nperseg') in (m[0], NONE):
            kw.pop('nperseg', None)
        if 'nperseg' not in kw:
            if sc_('nfft') in (m[0], NONE):
                kw.pop('nfft', None)
            if sc_('noverlap') is tm.fn('floor', tm.div(m[0], const(2))):
                kw.pop('noverlap')

    # ------------------------------------------------------------ math
    def math_fn(self, f, args):
        ts = [self.scalar(a) for a in args]
        if any(t.kind in ('str', 'none') for t in ts):
            self.raise_if(TRUE, 'TypeError')
        if f in ('floor', 'ceil', 'trunc'):
            return tm.fn(f, ts[0])
        if f == 'pow':
            return tm.fn('tofloat', tm.power(ts[0], ts[1]))
        if f == 'hypot':
            return tm.fn('sqrt', tm.add(tm.power(ts[0], TWO), tm.power(ts[1], TWO)))
        if f == 'log10':
            return tm.div(tm.fn('log', ts[0]), tm.fn('log', const(10)))
        if f == 'log2':
            return tm.div(tm.fn('log', ts[0]), tm.fn('log', TWO))
        if f == 'atan2':
            return tm.fn('arctan2', ts[0], ts[1])
        if f == 'radians':
            return tm.div(tm.mul(ts[0], PI), const(180))
        if f == 'degrees':
            return tm.div(tm.mul(ts[0], const(180)), PI)
        if f in ('isnan', 'isinf', 'isfinite'):
            return self.numpy_fn(f, args, {})
        if f == 'fsum':
            return self.sum_(args[0])
        if f == 'prod':
            return self.prod_(args[0])
        if f == 'copysign':
            return tm.ite(tm.cmp('<', ts[1], ZERO), tm.neg(tm.fn('abs', ts[0])), tm.fn('abs', ts[0]))
        n = MATH.get(f) or ELEM.get(f)
        if n:
            if n == 'log' and len(ts) == 2:
                return tm.div(tm.fn('log', ts[0]), tm.fn('log', ts[1]))
            if n == 'sqrt' or n == 'log':
                self.raise_if(tm.cmp('<', ts[0], ZERO), 'ValueError', hazard=True)
            return tm.fn(n, ts[0])
        return tm.opq('lib.math.' + f, *ts, kind='float')

    # ------------------------------------------------------------ Python built-ins
    def py_len(self, args, kw):
        v = args[0]
        x = self.rd(v)
        if isinstance(x, (PyList, Tup)):
            return const(len(x.items))
        if isinstance(x, PyDict):
            return const(len(x.d))
        if isinstance(x, Opaque):
            return tm.opq('len', x.t, kind='int')
        if isinstance(x, T):
            if x.op == 'str':
                return const(len(x.args[0]))
            if x.kind in NUMK or x.kind == 'none':
                self.raise_if(TRUE, 'TypeError')
            return tm.opq('len', x, kind='int')
        if isinstance(x, Filt):
            return x.length()
        if isinstance(x, Cat):
            return self.size(x)
        a = self.as_arr(x)
        if a.ndim == 0:
            self.raise_if(TRUE, 'TypeError')
        return a.shape[0]

    def py_range(self, args, kw):
        ts = [self.scalar(a) for a in args]
        for t in ts:
            if t.kind in ('float', 'str', 'none', 'complex'):
                self.raise_if(TRUE, 'TypeError')
        if len(ts) == 1:
            return Range(ZERO, ts[0], ONE)
        if len(ts) == 2:
            return Range(ts[0], ts[1], ONE)
        return Range(*ts)

    def py_abs(self, args, kw):
        return self.map1(lambda t: tm.fn('abs', b2i(t)), args[0])

    def minmax(self, head, args, kw):
        if 'key' in kw or 'default' in kw:
            raise Unsupported('min/max with key')
        if len(args) == 1:
            x = self.rd(args[0])
            if isinstance(x, Tup):
                x = PyList(x.items)
            if isinstance(x, PyList) and x.items:
                ts = [self.scalar(i) for i in x.items]
                return self.fold2(head, ts)
            return self.order(head, x)
        return self.fold2(head, [self.scalar(a) for a in args])

    def fold2(self, head, ts):
        r = ts[0]
        for t in ts[1:]:
            # min(a, b) keeps a unless b < a; with NaN the comparison is false
            if r.kind == 'int' and t.kind == 'int':
                d = self.decide(tm.cmp('<=', r, t))
                if d is not None:
                    r = (r if d is TRUE else t) if head == 'min' else (t if d is TRUE else r)
                    continue
                r = tm.fn(head + '2', r, t)
            elif r.kind == 'str' or t.kind == 'str' or r.kind == 'none' or t.kind == 'none':
                self.raise_if(TRUE, 'TypeError')
            else:
                c = tm.cmp('<', t, r) if head == 'min' else tm.cmp('<', r, t)
                r = tm.ite(c, t, r)
        return r

    def py_min(self, args, kw):
        return self.minmax('min', args, kw)

    def py_max(self, args, kw):
        return self.minmax('max', args, kw)

    def py_sum(self, args, kw):
        x = self.rd(args[0])
        start = self.scalar(args[1]) if len(args) > 1 else self.scalar(kw['start']) if 'start' in kw else ZERO
        if isinstance(x, (PyList, Tup)):
            r = start
            for i in x.items:
                r = self.binop('Add', r, i)
            return r
        if isinstance(x, Arr) and x.ndim > 1:
            r = self.sum_(x, ZERO)
        else:
            r = self.sum_(x)
        return r if start is ZERO else self.binop('Add', start, r)

    def py_int(self, args, kw):
        if not args:
            return ZERO
        t = self.scalar(args[0])
        if t.kind == 'none':
            self.raise_if(TRUE, 'TypeError')
        if t.op == 'str':
            try:
                return const(int(t.args[0]))
            except ValueError:
                self.raise_if(TRUE, 'ValueError')
        if t.kind == 'bool':
            return b2i(t)
        if t.kind == 'int':
            return t
        if t.kind == 'complex':
            self.raise_if(TRUE, 'TypeError')
        self.raise_if(tm.isnan(t), 'ValueError', hazard=True)
        return tm.fn('trunc', t) if t.kind == 'float' else tm.fn('toint', t)

    def py_float(self, args, kw):
        t = self.scalar(args[0]) if args else const(0.0)
        if t.kind == 'none':
            self.raise_if(TRUE, 'TypeError')
        if t.op == 'str':
            s = t.args[0].lower()
            if s in ('nan',):
                return NAN
            if s in ('inf', '+inf', 'infinity'):
                return INF
            try:
                return const(float(s))
            except ValueError:
                self.raise_if(TRUE, 'ValueError')
        if t.kind == 'complex':
            self.raise_if(TRUE, 'TypeError')
        return tm.fn('tofloat', b2i(t))

    def py_bool(self, args, kw):
        return self.truth(args[0]) if args else FALSE

    def py_complex(self, args, kw):
        a = self.scalar(args[0])
        b = self.scalar(args[1]) if len(args) > 1 else ZERO
        return tm.add(a, tm.mul(b, J))

    def py_str(self, args, kw):
        t = self.scalar(args[0]) if args else const('')
        return t if t.op == 'str' else tm.opq('text', kind='str')

    py_repr = py_format = py_str

    def py_list(self, args, kw):
        if not args:
            return PyList([])
        return self.to_list(args[0])

    def to_list(self, v):
        from .loops import IterV
        x = self.rd(v)
        if isinstance(x, (PyList, Tup)):
            return PyList(x.items)
        if isinstance(x, PyDict):
            return PyList(list(x.d))
        if isinstance(x, PySet):
            return Shuffled(x.n, x.p, x.v, x.dtype, True)
        if isinstance(x, Filt):
            return Filt(x.n, x.p, x.v, x.dtype, True)
        if isinstance(x, Cat):
            return Cat(x.parts, True)
        if isinstance(x, T) and x.op == 'str':
            return PyList([const(c) for c in x.args[0]])
        if isinstance(x, T) and x.kind in NUMK:
            self.raise_if(TRUE, 'TypeError')
        a = self.as_arr(x)
        if a.ndim == 1 and tm.is_int_const(a.shape[0]) and tm.cval(a.shape[0]) <= 16:
            return PyList([self.box(a.get(const(i))) for i in range(int(tm.cval(a.shape[0])))])
        return Arr(a.shape, a.f, a.dtype, True)

    def py_tuple(self, args, kw):
        if not args:
            return Tup([])
        x = self.rd(args[0])
        if isinstance(x, Arr) and x.ndim == 2 and tm.is_int_const(x.shape[0]) and tm.cval(x.shape[0]) <= 16:
            return Tup([self.getitem(args[0], const(i)) for i in range(int(tm.cval(x.shape[0])))])
        r = self.to_list(args[0])
        if isinstance(r, PyList):
            return Tup(r.items)
        return r

    def py_set(self, args, kw):
        if not args:
            return PyList([])
        r = self.rd(args[0])
        if isinstance(r, Filt):
            u = self.unique_(r)
            return PySet(u.n, u.p, u.v, u.dtype, True) if isinstance(u, Filt) else u
        if isinstance(r, (PyList, Tup)):
            out = []
            for i in r.items:
                if not any(i is o for o in out):
                    out.append(i)
            return PyList(out)
        return self.unique_(r)

    py_frozenset = py_set

    def py_dict(self, args, kw):
        d = {}
        if args:
            x = self.rd(args[0])
            if isinstance(x, PyDict):
                d = dict(x.d)
            else:
                for it in self.seq_items(args[0]):
                    k, v = self.unpack(it, 2)
                    d[self.scalar(k)] = v
        for k, v in kw.items():
            d[const(k)] = v
        return PyDict(d)

    def py_sorted(self, args, kw):
        if 'key' in kw:
            raise Unsupported('sorted with key')
        x = self.rd(args[0])
        if isinstance(x, PySet):
            x = Filt(x.n, x.p, x.v, x.dtype, True)
        if isinstance(x, (PyList, Tup)):
            if all(tm.is_const(self.scalar(i)) for i in x.items):
                return PyList(sorted([self.scalar(i) for i in x.items], key=lambda t: tm.cval(t)))
        r = self.sort_(x, True)
        if 'reverse' in kw and self.scalar(kw['reverse']) is TRUE:
            a = self.as_arr(r)
            return Arr(a.shape, lambda i: a.get(tm.sub(tm.sub(a.shape[0], ONE), i)), a.dtype, True)
        return r

    def lazy_iter(self, it):
        from .loops import IterV
        return IterV(it)

    def py_enumerate(self, args, kw):
        st = self.scalar(args[1]) if len(args) > 1 else self.scalar(kw['start']) if 'start' in kw else ZERO
        it = self.iter_of(args[0])
        if it[0] == 'items':
            return self.lazy_iter(('items', [Tup([tm.add(st, const(i)), x]) for i, x in enumerate(it[1])]))
        kind, n, item, guard = it
        if guard is None:
            return self.lazy_iter((kind, n, lambda k: Tup([tm.add(st, k), self.box(item(k))]), None))
        rank = lambda k: tm.total(ZERO, k, lambda j: tm.ite(guard(j), ONE, ZERO))
        return self.lazy_iter((kind, n, lambda k: Tup([tm.add(st, rank(k)), self.box(item(k))]), guard))

    def py_zip(self, args, kw):
        its = [self.iter_of(a) for a in args]
        if all(i[0] == 'items' for i in its):
            return self.lazy_iter(('items', [Tup(x) for x in zip(*[i[1] for i in its])]))
        ls = []
        for a, it in zip(args, its):
            if it[0] == 'items':
                items = it[1]
                ls.append((const(len(items)), (lambda items: lambda k: self.pick(items, k))(items)))
            elif it[3] is None:
                ls.append((it[1], it[2]))
            else:
                f = Filt(it[1], it[3], it[2])
                pa = self.pos_arr(f)
                ls.append((pa.shape[0], pa.get))
        # selections of the same elements walk together
        if all(i[0] != 'items' and i[3] is not None for i in its):
            k = tm.bound()
            if all(i[1] is its[0][1] and i[3](k) is its[0][3](k) for i in its):
                return self.lazy_iter((its[0][0], its[0][1], lambda k: Tup([self.box(i[2](k)) for i in its]), its[0][3]))
        n = ls[0][0]
        for m, _ in ls[1:]:
            if m is not n:
                d = self.decide(tm.cmp('<=', n, m))
                n = n if d is TRUE else m if d is FALSE else tm.fn('min2', n, m)
        return self.lazy_iter(('sym', n, lambda k: Tup([self.box(g(k)) for _, g in ls]), None))

    def py_reversed(self, args, kw):
        it = self.iter_of(args[0])
        if it[0] == 'items':
            return self.lazy_iter(('items', list(reversed(it[1]))))
        kind, n, item, guard = it
        f = lambda k: tm.sub(tm.sub(n, ONE), k)
        return self.lazy_iter((kind, n, lambda k: item(f(k)), None if guard is None else (lambda k: guard(f(k)))))

    def py_map(self, args, kw):
        it = self.iter_of(args[1])
        if len(args) != 2:
            raise Unsupported('map')
        if it[0] == 'items':
            return self.lazy_iter(('items', [self.call(args[0], [x], {}) for x in it[1]]))
        kind, n, item, guard = it
        return self.lazy_iter((kind, n, lambda k: self.call(args[0], [self.box(item(k))], {}), guard))

    def py_iter(self, args, kw):
        return args[0]

    def py_all(self, args, kw):
        x = self.rd(args[0])
        if isinstance(x, (PyList, Tup)):
            return tm.and_(*[self.truth(i) for i in x.items])
        return self.all_(x)

    def py_any(self, args, kw):
        x = self.rd(args[0])
        if isinstance(x, (PyList, Tup)):
            return tm.or_(*[self.truth(i) for i in x.items])
        return self.any_(x)

    def py_print(self, args, kw):
        return NONE

    def py_round(self, args, kw):
        d = self.scalar(args[1]) if len(args) > 1 else self.scalar(kw['ndigits']) if 'ndigits' in kw else NONE
        t = self.scalar(args[0])
        if t.kind in ('str', 'none'):
            self.raise_if(TRUE, 'TypeError')
        if d is NONE:
            return tm.fn('rint', t)
        return tm.fn('around', t, d)

    def py_pow(self, args, kw):
        return self.binop('Pow', *args[:2])

    def py_divmod(self, args, kw):
        return Tup([self.binop('FloorDiv', *args), self.binop('Mod', *args)])

    def py_slice(self, args, kw):
        ts = [self.scalar(a) for a in args]
        if len(ts) == 1:
            return SliceV(NONE, ts[0], NONE)
        return SliceV(ts[0], ts[1], ts[2] if len(ts) > 2 else NONE)

    def py_callable(self, args, kw):
        x = self.rd(args[0])
        if isinstance(x, T):
            return const(x.kind in ('fn', 'any')) if x.kind != 'any' else tm.opq('callable', x, kind='bool')
        return const(isinstance(x, (Fn, Builtin, BoundM)))

    def py_hasattr(self, args, kw):
        return tm.opq('hasattr', self.reify(args[0]), self.scalar(args[1]), kind='bool')

    def py_getattr(self, args, kw):
        n = self.scalar(args[1])
        if n.op == 'str':
            return self.attr(args[0], n.args[0])
        raise Unsupported('getattr')

    def py_type(self, args, kw):
        x = self.rd(args[0])
        if isinstance(x, T):
            if x.op == 'elem' and x.kind in ('int', 'float'):
                return Builtin('numpy.' + x.kind + '64')
            if x.kind in NUMK:
                return Builtin(x.kind)
            if x.kind == 'str':
                return Builtin('str')
            return tm.opq('type', x, kind='type')
        if isinstance(x, (PyList,)) or getattr(x, 'islist', False):
            return Builtin('list')
        if isinstance(x, Tup):
            return Builtin('tuple')
        if isinstance(x, PyDict):
            return Builtin('dict')
        if isinstance(x, (Arr, Filt, Cat)):
            return Builtin('numpy.ndarray')
        return tm.opq('type', self.reify(x), kind='type')

    def py_isinstance(self, args, kw):
        x = self.rd(args[0])
        ty = self.rd(args[1])
        names = [self.rd(i) for i in ty.items] if isinstance(ty, Tup) else [ty]
        r = FALSE
        for n in names:
            if isinstance(n, Tup):
                r = tm.or_(r, self.py_isinstance([x, n], {}))
                continue
            if not isinstance(n, Builtin):
                raise Unsupported('isinstance of %r' % (n,))
            r = tm.or_(r, self.is_a(x, n.name))
        return r

    def is_a(self, x, n):
        last = n.split('.')[-1]
        if isinstance(x, Alt):
            return tm.ite(x.c, self.is_a(self.rd(x.a), n), self.is_a(self.rd(x.b), n))
        if isinstance(x, T):
            k = x.kind
            if k == 'any':
                return tm.opq('isinstance', x, const(last), kind='bool')
            if k == 'str':
                return const(last in ('str', 'Sequence', 'Iterable', 'object'))
            if k == 'none':
                return const(last in ('NoneType', 'object'))
            np_ = x.op == 'elem'
            if last in ('str', 'list', 'tuple', 'dict', 'ndarray', 'set', 'Sequence', 'Iterable', 'bytes', 'complexfloating', 'complex') and k != 'complex':
                return FALSE
            if last in ('Number', 'object', 'generic') or (last in ('Real',) and k != 'complex'):
                return TRUE if last != 'generic' else const(np_)
            if k == 'int':
                if last in ('Integral', 'integer', 'int_', 'int64'):
                    return TRUE if last in ('Integral',) or np_ else FALSE
                if last == 'int':
                    return tm.opq('isinstance', x, const('int'), kind='bool') if np_ else TRUE
                return FALSE
            if k == 'bool':
                return const(last in ('bool', 'bool_', 'int'))
            if k == 'float':
                if last in ('float', 'float64', 'floating'):
                    return TRUE if last == 'float' or np_ else FALSE
                return FALSE
            if k == 'complex':
                return const(last in ('complex', 'complexfloating', 'complex128'))
            return tm.opq('isinstance', x, const(last), kind='bool')
        if isinstance(x, Opaque):
            return tm.opq('isinstance', x.t, const(last), kind='bool')
        isl = isinstance(x, PyList) or getattr(x, 'islist', False)
        if isl:
            return const(last in ('list', 'Sequence', 'Iterable', 'object', 'Sized'))
        if isinstance(x, Tup):
            return const(last in ('tuple', 'Sequence', 'Iterable', 'object', 'Sized'))
        if isinstance(x, PyDict):
            return const(last in ('dict', 'Mapping', 'Iterable', 'object', 'Sized'))
        if isinstance(x, (Arr, Filt, Cat)):
            return const(last in ('ndarray', 'Iterable', 'object', 'Sized'))
        return FALSE

    def py_issubclass(self, args, kw):
        x, y = self.rd(args[0]), self.rd(args[1])
        if isinstance(x, Builtin) and isinstance(y, Builtin):
            k = self.dt_of(x)
            last = y.name.split('.')[-1]
            if k and last in ('complexfloating', 'floating', 'integer', 'inexact', 'number'):
                return const({'complexfloating': k == 'complex', 'floating': k == 'float', 'integer': k == 'int', 'inexact': k in ('float', 'complex'), 'number': True}[last])
        return tm.opq('issubclass', self.reify(x), self.reify(y), kind='bool')
