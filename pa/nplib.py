"""Library functions: built-ins, math, numpy, and the scipy/sklearn entry points, as operations on abstract values."""
from fractions import Fraction
from . import terms as tm
from .terms import T, const, ZERO, ONE, TRUE, FALSE, NONE, NAN, INF, PI, J
from .values import *
from .npmodel import CoreMixin, b2i, canon_type, HALF, TWO

EPSF = const(Fraction(1, 2 ** 52))

ELEM = {'sqrt': 'sqrt', 'log': 'log', 'exp': 'exp', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'arctan': 'arctan', 'arcsin': 'arcsin',
        'arccos': 'arccos', 'sinh': 'sinh', 'cosh': 'cosh', 'tanh': 'tanh', 'arcsinh': 'asinh', 'abs': 'abs', 'absolute': 'abs', 'fabs': 'abs',
        'sign': 'sign', 'conj': 'conj', 'conjugate': 'conj', 'real': 'real', 'imag': 'imag', 'cbrt': 'cbrt', 'isnan': 'isnan', 'sinc': 'sinc'}
MATH = {'atan': 'arctan', 'asin': 'arcsin', 'acos': 'arccos', 'erf': 'erf', 'erfc': 'erfc'}

# positional parameter names of library calls that are kept uninterpreted (so that keyword and positional use agree)
SIG = {'scipy.signal.welch': ['x', 'fs', 'window', 'nperseg', 'noverlap', 'nfft', 'detrend', 'return_onesided', 'scaling', 'axis', 'average'],
       'scipy.signal.windows.hann': ['M', 'sym'],
       'scipy.interpolate.interp1d': ['x', 'y', 'kind', 'axis', 'copy', 'bounds_error', 'fill_value', 'assume_sorted'],
       'sklearn.preprocessing.PolynomialFeatures': ['degree', 'interaction_only', 'include_bias', 'order'],
       'sklearn.linear_model.LinearRegression': ['fit_intercept'],
       'scipy.stats.gaussian_kde': ['dataset', 'bw_method', 'weights'],
       'scipy.optimize.brentq': ['f', 'a', 'b', 'args', 'xtol', 'rtol', 'maxiter', 'full_output', 'disp'],
       'scipy.optimize.fminbound': ['func', 'x1', 'x2', 'args', 'xtol', 'maxfun', 'full_output', 'disp'],
       'scipy.linalg.cholesky': ['a', 'lower', 'overwrite_a', 'check_finite'],
       'numpy.cov': ['m', 'y', 'rowvar', 'bias', 'ddof', 'fweights', 'aweights'],
       'numpy.fft.fft': ['a', 'n', 'axis', 'norm']}
DEF = {'scipy.signal.windows.hann': {'sym': TRUE},
       'scipy.interpolate.interp1d': {'kind': const('linear'), 'axis': const(-1), 'copy': TRUE, 'bounds_error': NONE, 'fill_value': NAN, 'assume_sorted': FALSE},
       'scipy.stats.gaussian_kde': {'bw_method': NONE, 'weights': NONE},
       'scipy.optimize.brentq': {'xtol': const(2e-12), 'maxiter': const(100), 'full_output': FALSE, 'disp': TRUE},
       'scipy.optimize.fminbound': {'xtol': const(1e-5), 'maxfun': const(500), 'full_output': const(0), 'disp': const(1)},
       'numpy.fft.fft': {'n': NONE, 'axis': const(-1), 'norm': NONE},
       'scipy.signal.welch': {'fs': const(1.0), 'window': const('hann'), 'nperseg': NONE, 'noverlap': NONE, 'nfft': NONE, 'detrend': const('constant'),
                              'return_onesided': TRUE, 'scaling': const('density'), 'axis': const(-1), 'average': const('mean')},
       'sklearn.preprocessing.PolynomialFeatures': {'degree': const(2), 'interaction_only': FALSE, 'include_bias': TRUE, 'order': const('C')},
       'sklearn.linear_model.LinearRegression': {'fit_intercept': TRUE},
       'scipy.linalg.cholesky': {'lower': FALSE, 'overwrite_a': FALSE, 'check_finite': TRUE},
       'numpy.cov': {'y': NONE, 'rowvar': TRUE, 'bias': FALSE, 'ddof': NONE, 'fweights': NONE, 'aweights': NONE}}
ALIAS = {'scipy.signal.hann': 'scipy.signal.windows.hann', 'scipy.stats.kde.gaussian_kde': 'scipy.stats.gaussian_kde',
         'scipy.signal.spectral.welch': 'scipy.signal.welch', 'scipy.special.erf': 'math.erf', 'scipy.special.erfc': 'math.erfc',
         'numpy.linalg.linalg.norm': 'numpy.linalg.norm', 'numpy.core.umath.sqrt': 'numpy.sqrt', 'math.fabs': 'numpy.abs'}
MUTATORS = {'fit', 'fit_transform', 'partial_fit', 'set_params', 'update', 'seed', 'shuffle'}
NOTHING = object()


class LibMixin:
    # ------------------------------------------------------------ names
    def libconst(self, name):
        last = name.split('.')[-1]
        root = name.split('.')[0]
        if root in ('numpy', 'math', 'scipy', 'cmath'):
            if last == 'pi':
                return PI
            if last in ('nan', 'NaN', 'NAN'):
                return NAN
            if name == 'numpy.ma.masked':
                return NAN
            if last in ('inf', 'Inf', 'infty'):
                return INF
            if last == 'newaxis':
                return NONE
            if last == 'e' and root in ('numpy', 'math'):
                return tm.fn('exp', ONE)
            if last == 'tau':
                return tm.mul(TWO, PI)
        return None

    def lib_item(self, b, idx):
        if b.name == 'numpy.mgrid':
            items = list(idx.items) if isinstance(idx, Tup) else [idx]
            return self.mgrid(items, isinstance(idx, Tup))
        if b.name in ('numpy.r_', 'numpy.c_'):
            items = list(idx.items) if isinstance(idx, Tup) else [idx]
            if b.name == 'numpy.r_' and not any(isinstance(i, SliceV) for i in items):
                return self.concat([self.at1(i) for i in items])
        if b.name in ('numpy.s_', 'numpy.index_exp'):
            return idx
        return tm.opq('lib.' + b.name, self.reify(idx))

    def at1(self, v):
        x = self.rd(v)
        if isinstance(x, T):
            return Arr((ONE,), lambda i: x, x.kind)
        return x

    def mgrid(self, items, many):
        axes = []
        for s in items:
            if not isinstance(s, SliceV):
                raise Unsupported('mgrid')
            lo = ZERO if s.lo is NONE else s.lo
            st = s.step
            cnt = None
            if isinstance(st, T) and st.kind == 'complex':
                # n*1j asks for n points including both ends
                cnt = tm.fn('toint', tm.fn('abs', tm.fn('imag', st))) if not (st.op == 'mul' and J in st.args[0]) else tm.mul(*[z for z in st.args[0] if z is not J])
            if cnt is None:
                step = ONE if st is NONE else st
                cnt = tm.fn('ceil', tm.div(tm.sub(s.hi, lo), step))
                axes.append((cnt, (lambda lo, step: lambda i: tm.add(lo, tm.mul(step, i)))(lo, step)))
            else:
                d = tm.div(tm.sub(s.hi, lo), tm.sub(cnt, ONE))
                axes.append((cnt, (lambda lo, d: lambda i: tm.add(lo, tm.mul(d, i)))(lo, d)))
        sh = tuple(a[0] for a in axes)
        arrs = [Arr(sh, (lambda f, k: lambda *i: f(i[k]))(f, k), 'float') for k, (n, f) in enumerate(axes)]
        if not many:
            return arrs[0]
        return PyList([self.box(a) for a in arrs])

    def attr(self, v, name):
        if isinstance(v, Mod):
            if v.repo is not None:
                g = self.globals(v.repo)
                if name in g:
                    return self.lazy(g, name, v.repo)
                sub = self.loader.find(v.name + '.' + name)
                if sub is not None:
                    return Mod(v.name + '.' + name, sub)
                raise Unsupported('%s has no %s' % (v.name, name))
            full = v.name + '.' + name
            c = self.libconst(full)
            if c is not None:
                return c
            if full in ('numpy.linalg', 'numpy.random', 'numpy.fft', 'numpy.ma', 'scipy.linalg', 'scipy.stats', 'scipy.signal', 'scipy.signal.windows',
                        'scipy.optimize', 'scipy.special', 'scipy.interpolate', 'numpy.lib', 'numpy.polynomial'):
                return Mod(full)
            return Builtin(full)
        if isinstance(v, Builtin):
            return Builtin(v.name + '.' + name)
        x = self.rd(v)
        if isinstance(x, Alt):
            return self.merge(x.c, self.box(self.attr(x.a, name)), self.box(self.attr(x.b, name)))
        if isinstance(x, Opaque):
            if x.t.op == 'opq' and x.t.args[0] == 'finfo' and name in ('eps', 'tiny', 'max', 'min', 'resolution'):
                return tm.opq('finfo.' + name, kind='float')
            if x.t.op == 'opq' and x.t.args[0] == 'finfo.float' and name in ('eps', 'tiny', 'max', 'min', 'resolution'):
                return {'eps': const(2.0 ** -52), 'tiny': const(2.0 ** -1022)}.get(name) or tm.opq('finfo.' + name, kind='float')
            if name.endswith('_') and not name.startswith('_'):
                return tm.opq('.' + name, x.t)
            return BoundM(v, name)
        if isinstance(x, T) and x.kind in ('int', 'float', 'bool', 'complex'):
            if name == 'real':
                return tm.fn('real', x)
            if name == 'imag':
                return tm.fn('imag', x)
            if name == 'T':
                return x
            if name == 'size':
                return ONE
            if name == 'ndim':
                return ZERO
            if name == 'shape':
                return Tup([])
            if name == 'dtype':
                return Builtin('dtype:' + x.kind)
            return BoundM(x, name)
        if isinstance(x, T):
            if x.kind == 'str' or x.op == 'str':
                return BoundM(x, name)
            if name in ('T', 'real', 'imag', 'size', 'shape', 'ndim', 'dtype', 'eps', 'itemsize', 'char', 'type', 'root', 'x'):
                if name == 'T' and x.op == 'opq' and x.args[0] == '.T':
                    return x.args[1][0]
                return tm.opq('.' + name, x, kind='int' if name in ('size', 'ndim') else 'any')
            return BoundM(v if isinstance(v, Ref) else x, name)
        if isinstance(x, (Arr, Filt, Cat)):
            if not (getattr(x, 'islist', False)):
                a = x
                if name == 'size':
                    return self.size(x)
                if name == 'ndim':
                    return const(x.ndim) if isinstance(x, Arr) else ONE
                if name == 'shape':
                    return Tup(x.shape) if isinstance(x, Arr) else Tup([self.size(x)])
                if name == 'dtype':
                    return Builtin('dtype:' + (x.dtype if not isinstance(x, Cat) else 'any'))
                if name == 'T':
                    return self.transpose(v)
                if name == 'real':
                    return self.map1(lambda t: tm.fn('real', t), x)
                if name == 'imag':
                    return self.map1(lambda t: tm.fn('imag', t), x)
                if name == 'flat':
                    return self.ravel(self.as_arr(x))
                if name == 'itemsize':
                    return const(8)
            elif name in ('size', 'ndim', 'shape', 'T', 'dtype', 'mean', 'sum', 'std', 'max', 'min', 'real', 'imag', 'astype', 'flatten', 'reshape', 'ravel'):
                self.raise_if(TRUE, 'AttributeError')
            return BoundM(v, name)
        if isinstance(x, (PyList, PyDict, Tup)):
            if name in ('size', 'ndim', 'shape', 'T', 'dtype', 'mean', 'sum', 'std', 'max', 'min', 'real', 'imag', 'astype', 'flatten', 'reshape', 'ravel'):
                self.raise_if(TRUE, 'AttributeError')
            return BoundM(v, name)
        if isinstance(x, Fn):
            return tm.opq('attr.' + name)
        if isinstance(x, BoundM):
            return BoundM(x, name)
        raise Unsupported('attribute %s of %s' % (name, type(x).__name__))

    # ------------------------------------------------------------ shapes
    def size(self, v):
        x = self.rd(v)
        if isinstance(x, T):
            return ONE if x.kind in ('int', 'float', 'bool', 'complex', 'str', 'none') else tm.opq('.size', x, kind='int')
        if isinstance(x, Filt):
            return x.length()
        if isinstance(x, Cat):
            return tm.add(*[self.size(p) for p in x.parts])
        a = self.as_arr(x)
        n = ONE
        for d in a.shape:
            n = tm.mul(n, d)
        return n

    def transpose(self, v):
        x = self.rd(v)
        if isinstance(x, (Filt, Cat)):
            return x
        x = self.as_arr(x)
        if x.ndim < 2:
            return v if isinstance(v, Ref) else x
        if x.ndim != 2:
            raise Unsupported('transpose')
        filt = None
        if x.filt is not None:
            ax, n, p, g = x.filt
            filt = (1 - ax, n, p, lambda i, j: g(j, i))
        sh = (x.shape[1], x.shape[0])
        if isinstance(v, Ref) and filt is None and not x.islist:
            return Ref(v.cell, v.maps + (VMap(sh, lambda i, j: (j, i), lambda i, j: (TRUE, (j, i))),))
        return Arr(sh, lambda i, j: x.get(j, i), x.dtype, False, filt)

    def ravel(self, x):
        x = self.as_arr(x)
        if x.ndim == 1:
            return Arr(x.shape, x.f, x.dtype)
        if x.ndim == 0:
            return Arr((ONE,), lambda i: x.get(), x.dtype)
        n = ONE
        for d in x.shape:
            n = tm.mul(n, d)
        return Arr((n,), lambda k: x.get(*self.unflat(k, x.shape)), x.dtype)

    def unflat(self, k, shape):
        idx = []
        for d in reversed(shape[1:]):
            if d is ONE:
                idx.append(ZERO)
                continue
            idx.append(tm.fn('mod', k, d))
            k = tm.fn('floor', tm.div(k, d))
        idx.append(k)
        return list(reversed(idx))

    def reshape(self, v, shape):
        x = self.as_arr(v)
        if x.dtype == 'any' and x.ndim == 0:
            t = x.get()
            sh = [self.scalar(s) for s in shape]
            def at(*i):
                k = i[0]
                for d, j in zip(sh[1:], i[1:]):
                    k = tm.add(tm.mul(k, d), j)
                return tm.opq('item', t, k, kind='float')
            return Arr(sh, at, 'float')
        sh = [self.scalar(s) for s in shape]
        total = ONE
        for d in x.shape:
            total = tm.mul(total, d)
        if any(tm.is_int_const(s) and tm.cval(s) == -1 for s in sh):
            rest = ONE
            for s in sh:
                if not (tm.is_int_const(s) and tm.cval(s) == -1):
                    rest = tm.mul(rest, s)
            q = total if rest is ONE else tm._reint(tm.div(total, rest))
            sh = [q if tm.is_int_const(s) and tm.cval(s) == -1 else s for s in sh]
        if len(sh) == x.ndim and all(p is q for p, q in zip(sh, x.shape)):
            return Arr(x.shape, x.f, x.dtype)
        new = ONE
        for s in sh:
            new = tm.mul(new, s)
        if new is not total:
            d = self.decide(tm.cmp('==', new, total))
            if d is FALSE:
                self.raise_if(TRUE, 'ValueError')
            if d is None:
                self.raise_if(tm.cmp('!=', new, total), 'ValueError', hazard=True)
        nz = [k for k, d in enumerate(x.shape) if d is not ONE]
        nn = [k for k, d in enumerate(sh) if d is not ONE]
        if len(nz) <= 1 and len(nn) <= 1:
            def get(*i):
                ix = [ZERO] * x.ndim
                if nz:
                    ix[nz[0]] = i[nn[0]] if nn else ZERO
                return x.get(*ix)
            return Arr(sh, get, x.dtype)
        fl = self.ravel(x)

        def get(*i):
            k = i[0]
            for d, j in zip(sh[1:], i[1:]):
                k = tm.add(tm.mul(k, d), j)
            return fl.get(k)
        return Arr(sh, get, x.dtype)

    def squeeze(self, v):
        x = self.as_arr(v)
        if x.dtype == 'any' and x.ndim == 0:
            return x.get()
        keep = [k for k, d in enumerate(x.shape) if d is not ONE]
        if len(keep) == x.ndim:
            return Arr(x.shape, x.f, x.dtype)

        def get(*i):
            ix = [ZERO] * x.ndim
            for k, j in zip(keep, i):
                ix[k] = j
            return x.get(*ix)
        if not keep:
            return Arr((), lambda: get(), x.dtype)
        return Arr([x.shape[k] for k in keep], get, x.dtype)

    def dt_of(self, v):
        if v is None:
            return None
        x = self.rd(v)
        if x is NONE:
            return None
        n = x.name if isinstance(x, Builtin) else x.args[0] if isinstance(x, T) and x.op == 'str' else None
        if n is None:
            return None
        n = n.split('dtype:')[-1].split('.')[-1].rstrip('_')
        for k in ('float', 'int', 'complex', 'bool'):
            if n.startswith(k) or n.startswith('u' + k):
                return k
        return {'double': 'float', 'd': 'float', 'f8': 'float', 'i8': 'int', 'object': 'any', 'longdouble': 'float', 'i': 'int', 'intp': 'int'}.get(n)

    def astype(self, v, dt):
        if dt is None or dt == 'any':
            return self.rd(v)
        x = self.rd(v)
        if isinstance(x, Filt):
            return Filt(x.n, x.p, lambda k: self.cast_to(x.val(k), dt), dt)
        if isinstance(x, Cat):
            return Cat([self.astype(p, dt) for p in x.parts])
        if isinstance(x, T):
            return self.cast_to(x, dt)
        a = self.as_arr(x)
        if a.dtype == 'str' and dt in ('float', 'int'):
            return Arr(a.shape, lambda *i: tm.opq('parse', a.get(*i), kind=dt), dt)
        return Arr(a.shape, lambda *i: self.cast_to(self.scalar(a.get(*i)), dt), dt)

    def cast_to(self, t, dt):
        if dt == 'complex' and t.kind != 'complex':
            return tm.fn('tofloat', t)       # the value is the same; the array's type records that it is complex
        if dt == 'float' and t.kind == 'any':
            return t
        return self.cast(t, dt)

    # ------------------------------------------------------------ reductions
    def over(self, v, axis, f):
        """apply f(n, elem) along an axis (None: all)"""
        x = self.rd(v)
        if isinstance(x, T):
            if x.kind == 'any':
                return None
            x = self.as_arr(x)
        if isinstance(x, Filt):
            return f(x.n, x.val, x.pred)
        x = self.as_arr(x)
        if x.dtype == 'any' and x.ndim == 0:
            return None
        ax = None if axis is None or self.rd(axis) is NONE else int(tm.cval(self.scalar(axis)))
        if x.ndim == 0:
            return f(ONE, lambda k: x.get(), None)
        if x.ndim == 1:
            return f(x.shape[0], x.get, None)
        if ax is None:
            fl = self.ravel(x)
            return f(fl.shape[0], fl.get, None)
        ax %= x.ndim
        sh = x.shape[:ax] + x.shape[ax + 1:]
        n = x.shape[ax]
        smp = lambda i: f(n, lambda k: x.get(*(list(i[:ax]) + [k] + list(i[ax:]))), None)
        r = Arr(sh, lambda *i: smp(i), 'float')
        r.dtype = smp([tm.bound() for _ in sh]).kind
        return r

    def sum_(self, v, axis=None):
        if isinstance(self.rd(v), (PyList,)) and not self.rd(v).items:
            return const(0.0)

        def f(n, g, p):
            if p is None:
                return tm.total(ZERO, n, lambda k: b2i(self.scalar(g(k))))
            return tm.total(ZERO, n, lambda k: tm.ite(p(k), b2i(g(k)), ZERO))
        r = self.over(v, axis, f)
        if r is None:
            return tm.opq('lib.sum', self.reify(v))
        return r

    def cnt(self, n, p):
        return n if p is None else tm.total(ZERO, n, lambda k: b2i(p(k)))

    def mean_(self, v, axis=None):
        def f(n, g, p):
            e = (lambda k: b2i(g(k))) if p is None else (lambda k: tm.ite(p(k), b2i(g(k)), ZERO))
            return tm.div(tm.total(ZERO, n, e), self.cnt(n, p))
        r = self.over(v, axis, f)
        return tm.opq('lib.mean', self.reify(v)) if r is None else r

    def var_(self, v, axis=None, ddof=ZERO):
        def f(n, g, p):
            c = self.cnt(n, p)
            e = (lambda k: b2i(g(k))) if p is None else (lambda k: tm.ite(p(k), b2i(g(k)), ZERO))
            m = tm.div(tm.total(ZERO, n, e), c)
            if p is None:
                s = tm.total(ZERO, n, lambda k: tm.power(tm.sub(b2i(g(k)), m), TWO))
            else:
                s = tm.total(ZERO, n, lambda k: tm.ite(p(k), tm.power(tm.sub(b2i(g(k)), m), TWO), ZERO))
            return tm.div(s, tm.sub(c, ddof))
        r = self.over(v, axis, f)
        return tm.opq('lib.var', self.reify(v)) if r is None else r

    def order(self, head, v, axis=None, kind=None):
        """min, max, median, argmin, argmax"""
        x = self.rd(v)
        if isinstance(x, T):
            if x.kind != 'any':
                return ZERO if head.startswith('arg') else x
            return tm.opq(head, x, kind='int' if head.startswith('arg') else 'any')
        if isinstance(x, Filt):
            x = self.pos_arr(x)
        n = self.size(x)
        if head in ('min', 'max', 'argmin', 'argmax'):
            self.raise_if(tm.cmp('==', n, ZERO), 'ValueError', hazard=not tm.is_const(n))

        def f(n, g, p):
            smp = g(tm.bound())
            k = 'int' if head.startswith('arg') else ('float' if head == 'median' else smp.kind)
            if n is ONE:
                return ZERO if head.startswith('arg') else g(ZERO)
            if n is TWO and head in ('min', 'max'):
                return tm.fn(head + '2', g(ZERO), g(ONE))
            return tm.opq(head, tm.lam(n, lambda j: g(j)), kind=k)
        r = self.over(x, axis, f)
        return tm.opq(head, self.reify(v), kind='any') if r is None else r

    def any_(self, v, axis=None):
        x = self.rd(v)
        if isinstance(x, T):
            return self.truth(x)

        def f(n, g, p):
            if p is None:
                return tm.exists(ZERO, n, lambda k: self.truth(g(k)))
            return tm.exists(ZERO, n, lambda k: tm.and_(p(k), self.truth(g(k))))
        r = self.over(x, axis, f)
        return tm.opq('lib.any', self.reify(v), kind='bool') if r is None else r

    def all_(self, v, axis=None):
        x = self.rd(v)
        if isinstance(x, T):
            return self.truth(x)

        def f(n, g, p):
            if p is None:
                return tm.not_(tm.exists(ZERO, n, lambda k: tm.not_(self.truth(g(k)))))
            return tm.not_(tm.exists(ZERO, n, lambda k: tm.and_(p(k), tm.not_(self.truth(g(k))))))
        r = self.over(x, axis, f)
        return tm.opq('lib.all', self.reify(v), kind='bool') if r is None else r

    def prod_(self, v, axis=None):
        def f(n, g, p):
            if tm.is_int_const(n) and tm.cval(n) <= 8:
                return tm.mul(*[b2i(g(const(k))) for k in range(int(tm.cval(n)))]) if tm.cval(n) > 0 else const(1.0)
            e = (lambda k: b2i(g(k))) if p is None else (lambda k: tm.ite(p(k), b2i(g(k)), ONE))
            return tm.opq('prod', tm.lam(n, e), kind=g(tm.bound()).kind)
        r = self.over(v, axis, f)
        return tm.opq('lib.prod', self.reify(v)) if r is None else r

    # ------------------------------------------------------------ linear algebra
    def matmul(self, a, b, dot=False):
        a, b = self.rd(a), self.rd(b)
        if isinstance(a, Filt):
            a = self.pos_arr(a)
        if isinstance(b, Filt):
            b = self.pos_arr(b)
        x, y = self.as_arr(a), self.as_arr(b)
        if x.ndim == 0 or y.ndim == 0:
            if x.ndim == 0 and x.dtype == 'any' or y.ndim == 0 and y.dtype == 'any':
                pass
            if not dot:
                self.raise_if(TRUE, 'ValueError')
            return self.mapn(lambda p, q: tm.mul(b2i(p), b2i(q)), [a, b])
        ax, ay = x.ndim - 1, max(y.ndim - 2, 0)
        n, m = x.shape[ax], y.shape[ay]
        if n is not m:
            d = self.decide(tm.cmp('==', n, m))
            if d is FALSE:
                self.raise_if(TRUE, 'ValueError')
            if d is None:
                self.raise_if(tm.cmp('!=', n, m), 'ValueError', hazard=True)
        gx, gy, cnt, pr = x.get, y.get, n, None
        if x.filt is not None and x.filt[0] == ax and y.filt is not None and y.filt[0] == ay:
            k = tm.bound()
            if x.filt[1] is y.filt[1] and x.filt[2](k) is y.filt[2](k):
                gx, gy, cnt, pr = x.filt[3], y.filt[3], x.filt[1], x.filt[2]
        if x.ndim > 2 or y.ndim > 2:
            raise Unsupported('matmul')

        def cell(ix, iy):
            e = lambda k: tm.mul(b2i(gx(*(ix + [k]))), b2i(gy(*([k] + iy))))
            if pr is not None:
                return tm.total(ZERO, cnt, lambda k: tm.ite(pr(k), e(k), ZERO))
            return tm.total(ZERO, cnt, e)
        dt = self.join_dtype(x.dtype, y.dtype)
        if x.ndim == 1 and y.ndim == 1:
            return cell([], [])
        if x.ndim == 1:
            return Arr((y.shape[1],), lambda j: cell([], [j]), dt)
        if y.ndim == 1:
            return Arr((x.shape[0],), lambda i: cell([i], []), dt)
        return Arr((x.shape[0], y.shape[1]), lambda i, j: cell([i], [j]), dt)

    # ------------------------------------------------------------ index sets
    def nonzero(self, v):
        x = self.rd(v)
        if isinstance(x, Filt):
            x = self.pos_arr(x)
        x = self.as_arr(x)
        if x.ndim == 0:
            x = Arr((ONE,), lambda i, x=x: x.get(), x.dtype)
        t = lambda e: self.truth(e)
        if x.ndim == 1:
            return Tup([self.box(Filt(x.shape[0], lambda k: t(x.get(k)), lambda k: k, 'int'))])
        if x.ndim == 2:
            n = tm.mul(*x.shape)
            pr = lambda k: t(x.get(*self.unflat(k, x.shape)))
            return Tup([self.box(Filt(n, pr, lambda k: self.unflat(k, x.shape)[0], 'int')), self.box(Filt(n, pr, lambda k: self.unflat(k, x.shape)[1], 'int'))])
        raise Unsupported('nonzero')

    def index_sets(self, vs):
        """the arguments as predicates over a common index range, or None"""
        out, n = [], None
        for v in vs:
            x = self.rd(v)
            if isinstance(x, Tup) and len(x.items) == 1:
                x = self.rd(x.items[0])
            if isinstance(x, Cat):
                ps = self.index_sets(x.parts)
                if ps is None:
                    return None
                if n is not None and ps[0] is not n:
                    return None
                n = ps[0]
                q = ps[1]
                out.append(lambda k, q=q: tm.or_(*[p(k) for p in q]))
                continue
            if isinstance(x, (PyList, Arr)) and (isinstance(x, PyList) and not x.items or isinstance(x, Arr) and x.shape and x.shape[0] is ZERO):
                out.append(lambda k: FALSE)
                continue
            if not isinstance(x, Filt) or not x.is_index():
                return None
            if n is not None and x.n is not n:
                if self.decide(tm.cmp('==', x.n, n)) is not TRUE:
                    return None
            n = n or x.n
            out.append(lambda k, x=x: x.pred(k))
        if n is None:
            return None
        return n, out

    def sort_(self, v, keep_list=False):
        x = self.rd(v)
        if isinstance(x, Filt) and x.is_index():
            return Filt(x.n, x.p, x.v, x.dtype, keep_list)
        if isinstance(x, T):
            return tm.opq('lib.sort', x)
        a = self.as_arr(x)
        if a.ndim != 1:
            return tm.opq('lib.sort', self.reify(x))
        l = self.reify_arr(a)
        return Arr(a.shape, lambda p: tm.opq('sortat', l, p, kind=a.dtype), a.dtype, keep_list)

    def argsort_(self, v):
        a = self.as_arr(self.rd(v))
        if a.ndim != 1:
            return tm.opq('lib.argsort', self.reify(v))
        l = self.reify_arr(a)
        return Arr(a.shape, lambda p: tm.opq('argsortat', l, p, kind='int'), 'int')

    def unique_(self, v, counts=False):
        s = self.index_sets([v])
        if s is not None and not counts:
            return Filt(s[0], lambda k: s[1][0](k), lambda k: k, 'int')
        x = self.rd(v)
        if isinstance(x, T):
            return tm.opq('lib.unique', x)
        a = self.ravel(self.as_arr(x))
        l = self.reify_arr(a)
        n = a.shape[0]
        at = lambda p: tm.opq('sortat', l, p, kind=a.dtype)
        pr = lambda p: tm.or_(tm.cmp('==', p, ZERO), tm.cmp('!=', at(p), at(tm.sub(p, ONE))))
        f = Filt(n, pr, at, a.dtype)
        if not counts:
            return f
        c = Filt(n, pr, lambda p: tm.total(ZERO, n, lambda j: tm.ite(tm.cmp('==', a.get(j), at(p)), ONE, ZERO)), 'int')
        return Tup([self.box(f), self.box(c)])

    def diff_(self, v):
        x = self.rd(v)
        if isinstance(x, T):
            return tm.opq('lib.diff', x)
        a = self.as_arr(x)
        n = tm.sub(a.shape[0], ONE)
        if a.ndim == 2:
            m = tm.sub(a.shape[1], ONE)
            return Arr((a.shape[0], m), lambda i, j: tm.sub(b2i(a.get(i, tm.add(j, ONE))), b2i(a.get(i, j))), a.dtype)
        if not self.know(tm.cmp('<=', ZERO, n)):
            n = tm.fn('max2', n, ZERO)
        return Arr((n,), lambda i: tm.sub(b2i(a.get(tm.add(i, ONE))), b2i(a.get(i))), 'int' if a.dtype == 'bool' else a.dtype)

    def gradient_(self, v, edge=1):
        a = self.as_arr(self.rd(v))
        if a.ndim != 1:
            raise Unsupported('gradient')
        n = a.shape[0]
        self.raise_if(tm.cmp('<', n, const(edge + 1)), 'ValueError', hazard=True)
        at = lambda k: a.get(tm.add(n, const(k)) if k < 0 else const(k))

        def g(i):
            mid = tm.div(tm.sub(a.get(tm.add(i, ONE)), a.get(tm.sub(i, ONE))), TWO)
            lo = tm.sub(a.get(ONE), a.get(ZERO))
            hi = tm.sub(a.get(tm.sub(n, ONE)), a.get(tm.sub(n, TWO)))
            if edge == 2:
                lo = tm.div(tm.sub(tm.mul(const(4), at(1)), tm.add(tm.mul(const(3), at(0)), at(2))), TWO)
                hi = tm.div(tm.sub(tm.add(tm.mul(const(3), at(-1)), at(-3)), tm.mul(const(4), at(-2))), TWO)
            return tm.ite(tm.cmp('==', i, ZERO), lo, tm.ite(tm.cmp('==', i, tm.sub(n, ONE)), hi, mid))
        return Arr((n,), g, 'float')

    def filled(self, shape, f, dt):
        s = self.rd(shape)
        if isinstance(s, (Tup, PyList)):
            sh = [self.scalar(i) for i in s.items]
        elif isinstance(s, Arr) and s.ndim == 1 and tm.is_int_const(s.shape[0]):
            sh = [s.get(const(i)) for i in range(int(tm.cval(s.shape[0])))]
        else:
            sh = [self.scalar(s)]
        for d in sh:
            if d.kind == 'float':
                self.raise_if(TRUE, 'TypeError')
            if d.kind == 'int' and self.decide(tm.cmp('<', d, ZERO)) is not FALSE:
                self.raise_if(tm.cmp('<', d, ZERO), 'ValueError', hazard=True)
        return Arr(sh, f, dt)

    def rng_draw(self, what, args, kind='float', shape=None):
        st = self.st.heap.get('#rng')
        if st is None:
            st = tm.sym('rng', 'any')
        ts = [self.reify(a) for a in args]
        self.st.heap['#rng'] = tm.opq('rng.next', st, const(what), *ts)
        if shape is None:
            return tm.opq('rng.' + what, st, *ts, kind=kind)
        return self.filled(shape, lambda *i: tm.opq('rng.' + what, st, *(ts + list(i)), kind=kind), kind)
