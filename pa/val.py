"""Value numbers of terms (random interpretation, after Gulwani and Necula).

A `Val` assigns every atom (argument scalar, array element, library call, loop state) a pseudo-random value that depends on
the atom alone, and computes the value number of a term from those of its parts.  Arithmetic, sums, comparisons, rounding and
order statistics are interpreted; recurrences (`fold`), library calls and callbacks are uninterpreted symbols.
Nothing of the program under analysis is executed.
"""
import hashlib
from fractions import Fraction
from mpmath import mp, mpf, mpc
import mpmath
from . import terms as tm

mp.dps = 40
NAN = mp.nan
LIMIT = 420


class TooBig(Exception):
    pass


class Lam:
    __slots__ = ('n', 'vals', 'full', '_k')

    def __init__(self, n, vals, full):
        self.n, self.vals, self.full, self._k = n, vals, full, None

    def key(self):
        if self._k is None:
            self._k = ('L', self.n, h64(tuple(vkey(v) for v in self.vals)))
        return self._k


def h64(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), 'big')


EPS = mpf(10) ** -26


def vkey(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, mpf):
        if mpmath.isnan(v):
            return 'nan'
        if mpmath.isinf(v):
            return '+inf' if v > 0 else '-inf'
        if abs(v) < EPS:
            return 0
        s, man, ex, bc = v._mpf_
        if bc > 76:
            sh = bc - 76
            # not to the nearest: values with few digits are often exactly half way between two
            man = (man + (0x5d9f3b0c6e1a47d2893b1d << sh >> 88)) >> sh
            ex += sh
        while not man & 1:
            man >>= 1
            ex += 1
        if ex >= 0:
            r = int(man) << ex
            return -r if s else r
        return (-1 if s else 1, int(man), int(ex))
    if isinstance(v, mpc):
        if abs(v.imag) < EPS * (1 + abs(v.real)):
            return vkey(v.real)
        return ('c', vkey(v.real), vkey(v.imag))
    if isinstance(v, Lam):
        return v.key()
    if isinstance(v, (tuple, list)):
        return tuple(vkey(x) for x in v)
    return ('o', str(v))


POOL = [mpf(-1), mpf(0), mpf('0.5'), mpf(1), mpf(2)]


def isnanv(v):
    return isinstance(v, mpf) and mpmath.isnan(v)


def same(a, b):
    """equality of value numbers up to the precision of the arithmetic"""
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
        return a == b
    if isinstance(a, (bool, int, mpf, mpc)) and isinstance(b, (bool, int, mpf, mpc)):
        if isnanv(a) or isnanv(b):
            return isnanv(a) and isnanv(b)
        if a == b:
            return True
        try:
            d = abs(mpc(a) - mpc(b))
            return bool(d <= mpf(10) ** -20 * (1 + abs(mpc(a)) + abs(mpc(b))))
        except Exception:
            return False
    return vkey(a) == vkey(b)


class Undef(Exception):
    pass


class Val:
    kpos = ()           # positions (negative: from the end) that a recurrence is looked at besides the ends and the middle
    strict = False      # in the states drawn for a recurrence a division by zero leaves everything that depends on it undefined

    def __init__(self, seed, ints=None, over=None, mode='real', pnan=0.0, pbool=0.4, scale=3):
        self.seed, self.ints, self.over = seed, dict(ints or {}), dict(over or {})
        self.mode, self.pnan, self.pbool, self.scale = mode, pnan, pbool, scale
        self.memo = {}
        self.touched = None
        self.cmplog = None
        self.noround = False
        self.preal, self.marks = 0, 20     # how often a complex entry is real; states drawn for a recurrence
        self.ops = 0
        self.folds = {}

    def clone(self, over):
        o = dict(self.over)
        o.update(over)
        v = Val(self.seed, self.ints, o, self.mode, self.pnan, self.pbool, self.scale)
        v.noround, v.marks, v.strict = self.noround, self.marks, self.strict
        return v

    # ---------------------------------------------------------------- atoms
    def rnd(self, key, kind, flags=''):
        if key in self.over:
            v = self.over[key]
            if self.touched is not None:
                self.touched.setdefault(key, v)
            return v
        r = h64((self.seed, key))
        if 'n' in flags and kind != 'int' and self.pnan and (r & 0xffff) / 65536.0 < self.pnan:
            return NAN
        r >>= 16
        if kind == 'bool':
            return (r & 0xffff) / 65536.0 < self.pbool
        if kind == 'int':
            return 1 + r % 9 if 'p' in flags else r % 13 - 4
        if self.mode == 'pool' and 'x' not in flags:
            v = POOL[r % len(POOL)]
            if 'p' in flags and v <= 0:
                v = mpf('1.5')
            if 'u' in flags:
                v = (mpf('0.25'), mpf('0.5'), mpf('0.75'))[r % 3]
        else:
            u = mpf(r & 0xffffffffff) / mpf(1 << 40)
            v = (u * 2 - 1) * self.scale
            if 'p' in flags:
                v = mpf('0.2') + u * self.scale
            if 'u' in flags:          # strictly between 0 and 1
                v = mpf('0.05') + u * mpf('0.9')
        if kind == 'complex':
            r2 = h64((self.seed, key, 'im'))
            v = mpc(v, 0 if self.preal and (r2 >> 44 & 0xffff) / 65536.0 < self.preal else (mpf(r2 & 0xffffffffff) / mpf(1 << 40) * 2 - 1) * self.scale)
        if self.touched is not None and kind == 'float':
            self.touched.setdefault(key, v)
        return v

    # ---------------------------------------------------------------- evaluation
    def ev(self, t, env=None):
        if not isinstance(t, tm.T):
            raise TypeError(repr(t))
        env = env or {}
        if t.op == 'const':
            return self.cst(t)
        if t.fb:
            key = (t.id,) + tuple(self.ekey(env.get(s)) for s in sorted(t.fb, key=lambda s: s.id))
        else:
            key = t.id
        if self.touched is None:
            r = self.memo.get(key)
            if r is not None:
                return r
        elif (key, 't') in self.memo:
            return self.memo[(key, 't')]
        self.ops += 1
        if self.ops > 3000000:
            raise TooBig('evaluation')
        r = self.ev1(t, env)
        self.memo[key if self.touched is None else (key, 't')] = r
        return r

    @staticmethod
    def ekey(v):
        if isinstance(v, (int, str, tuple)):
            return v
        return vkey(v)

    _c = {}

    def cst(self, t):
        r = self._c.get(t.id)
        if r is None:
            v = t.args[0]
            if isinstance(v, bool):
                r = v
            elif t.kind == 'int' and v.denominator == 1:
                r = int(v)
            else:
                r = mpf(v.numerator) / mpf(v.denominator)
            self._c[t.id] = r
        return r

    def ev1(self, t, env, wide=40):
        op, a = t.op, t.args
        ev = self.ev
        if op == 'add':
            s = 0
            for x in a[0]:
                v = ev(x, env)
                if isinstance(v, (str, Lam)) or v is None:
                    return NAN
                s = s + v
            return s
        if op == 'mul':
            s = 1
            for x in a[0]:
                v = ev(x, env)
                if isinstance(v, (str, Lam)) or v is None:
                    return NAN
                s = s * v
            return s
        if op == 'pow':
            return self.pw(ev(a[0], env), ev(a[1], env))
        if op == 'sym':
            if t in env:
                v = env[t]
                if isinstance(v, tuple):
                    return v
                return v
            if a[1] == 'bound':
                raise KeyError('unbound %s' % a[0])
            if a[0] in self.ints:
                return self.ints[a[0]]
            return self.rnd(('sym', a[0]), t.kind, a[2])
        if op == 'cmp':
            x, y = ev(a[1], env), ev(a[2], env)
            if self.cmplog is not None and (isinstance(x, mpf) or isinstance(y, mpf)):
                l = self.cmplog.setdefault(t, [])
                if len(l) < 60:
                    l.append(env)
            return self.compare(a[0], x, y)
        if op == 'ite':
            return ev(a[1], env) if ev(a[0], env) else ev(a[2], env)
        if self.strict == 2 and op in ('and', 'or'):
            lost = False
            for x in a[0]:
                try:
                    if bool(ev(x, env)) == (op == 'or'):
                        return op == 'or'
                except Undef:
                    lost = True
            if lost:
                raise Undef
            return op == 'and'
        if op == 'and':
            return all(bool(ev(x, env)) for x in a[0])
        if op == 'or':
            return any(bool(ev(x, env)) for x in a[0])
        if op == 'not':
            return not ev(a[0], env)
        if op == 'fn':
            v = [ev(x, env) for x in a[1:]]
            if self.cmplog is not None and a[0] in ('max2', 'min2') and any(isinstance(x, mpf) for x in v):
                l = self.cmplog.setdefault(t, [])
                if len(l) < 60:
                    l.append(env)
            return self.func(a[0], v)
        if op == 'isnan':
            return isnanv(ev(a[0], env))
        if op == 'elem':
            idx = tuple(self.ikey(ev(x, env)) for x in a[3])
            return self.rnd(('elem', a[0], idx), t.kind, a[1])
        if op == 'sel':
            m = ev(a[0], env)
            idx = tuple(self.ikey(ev(x, env)) for x in a[2])
            return self.rnd(('sel', m, idx), t.kind, a[1])
        if op in ('sum', 'any', 'first', 'last'):
            lo, hi = ev(a[1], env), ev(a[2], env)
            lo, hi = self.as_int(lo), self.as_int(hi)
            if hi - lo > LIMIT:
                raise TooBig(op)
            e = dict(env)
            if op == 'sum':
                s = 0
                for j in range(lo, hi):
                    e[a[0]] = j
                    v = ev(a[3], e)
                    if isinstance(v, (str, Lam)) or v is None:
                        return NAN
                    s = s + v
                return s
            rng = range(lo, hi) if op != 'last' else range(hi - 1, lo - 1, -1)
            for j in rng:
                e[a[0]] = j
                if ev(a[3], e):
                    return True if op == 'any' else j
            return False if op == 'any' else (max(lo, hi) if op == 'first' else lo - 1)
        if op == 'nth':
            n, p = self.as_int(ev(a[1], env)), self.as_int(ev(a[3], env))
            if n > LIMIT:
                raise TooBig(op)
            e = dict(env)
            c = 0
            for j in range(0, n):
                e[a[0]] = j
                if ev(a[2], e):
                    if c == p:
                        return j
                    c += 1
            return n
        if op == 'lam':
            n = self.as_int(ev(a[1], env))
            n = max(n, 0)
            if n > 2000:
                raise TooBig('lam')
            e = dict(env)
            full = n <= wide
            idx = range(n) if full else sorted({0, 1, 2, 3, n // 3, n // 2, n // 2 + 1, n - 12, n - 4, n - 3, n - 2, n - 1, 10, 11, 12, 13, 29, 30, 31, 32, n * 5 // 7, n * 8 // 9, n * 2 // 11, *(c if c >= 0 else n + c for c in self.kpos)} & set(range(n)))
            vals = []
            for j in idx:
                e[a[0]] = j
                vals.append(ev(a[2], e))
            return Lam(n, vals, full)
        if op == 'opq':
            if a[0] in ('max', 'min', 'argmax', 'argmin') and a[1][0].op == 'lam':
                # order statistics are looked at whole: they answer to comparisons with each element
                return self.opaque(t, a[0], [self.ev1(a[1][0], env, 160)] + [ev(x, env) if isinstance(x, tm.T) else x for x in a[1][1:]])
            return self.opaque(t, a[0], [ev(x, env) if isinstance(x, tm.T) else x for x in a[1]])
        if op == 'fold':
            return a[0].value(self, a[1], a[2], env, t.kind)
        if op == 'nan':
            return NAN
        if op == 'inf':
            return mp.inf
        if op == 'imag':
            return mpc(0, 1)
        if op == 'pi':
            return +mp.pi
        if op == 'none':
            return None
        if op == 'str':
            return a[0]
        raise ValueError(op)

    @staticmethod
    def as_int(v):
        if isinstance(v, (bool, int)):
            return int(v)
        if isinstance(v, mpf) and mpmath.isfinite(v):
            r = int(mpmath.nint(v))
            if abs(v - r) < EPS:
                return r
            return int(mpmath.floor(v))
        raise TooBig('not an integer')

    @staticmethod
    def ikey(v):
        if isinstance(v, (bool, int)):
            return int(v)
        k = vkey(v)
        return k

    def pw(self, x, e):
        if isnanv(x) or isnanv(e):
            return NAN
        if isinstance(x, (str, tuple, Lam)) or x is None:
            return NAN
        try:
            if isinstance(e, int) or (isinstance(e, mpf) and mpmath.isint(e)):
                e = int(e)
                if e < 0 and (x == 0):
                    if self.strict == 2:
                        raise Undef
                    return NAN
                if abs(e) > 4000:
                    raise TooBig('power')
                if e < 0:
                    x = mpf(x) if isinstance(x, (int, bool)) else x
                    return 1 / x ** (-e)
                return x ** e
            if isinstance(x, (int, bool, mpf)) and x < 0:
                return NAN
            if x == 0:
                if e <= 0 and self.strict == 2:
                    raise Undef
                return mpf(0) if e > 0 else NAN
            return mp.power(x, e)
        except (ZeroDivisionError, OverflowError):
            return NAN

    def compare(self, op, x, y):
        if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
            return (x == y) if op == '==' else False
        if isinstance(x, (Lam, tuple)) or isinstance(y, (Lam, tuple)):
            return vkey(x) == vkey(y) if op == '==' else bool(h64((vkey(x), vkey(y))) & 1)
        if isnanv(x) or isnanv(y):
            return False
        if isinstance(x, int) and isinstance(y, int):
            return {'<': x < y, '<=': x <= y, '==': x == y}[op]
        if isinstance(x, mpc) or isinstance(y, mpc):
            if op == '==':
                return same(x, y)
            x, y = mpc(x).real, mpc(y).real
        if x == y:
            return op != '<'
        if mpmath.isinf(x) or mpmath.isinf(y):
            return {'<': x < y, '<=': x <= y, '==': False}[op]
        if abs(x - y) <= mpf(10) ** -25 * (abs(x) + abs(y)) + mpf(10) ** -30:
            return op != '<'
        if op == '==':
            return False
        return bool(x < y)

    def func(self, name, v):
        x = v[0] if v else None
        if name == 'tofloat':
            return mpf(x) if isinstance(x, (int, bool)) else x
        if any(isinstance(q, (str, Lam, tuple)) or q is None for q in v):
            return self.rnd(('fn', name, vkey(v)), 'float')
        if any(isnanv(q) for q in v):
            if name in ('max2', 'min2', 'sign', 'abs', 'around', 'mod'):
                return NAN
            return NAN
        try:
            if name == 'sqrt':
                if isinstance(x, mpc):
                    return mp.sqrt(x)
                if x < 0:
                    if abs(x) < EPS:
                        return mpf(0)
                    return NAN
                return mp.sqrt(x)
            if name == 'abs':
                return abs(x)
            if name == 'log':
                if isinstance(x, mpc):
                    return mp.log(x)
                if x < 0:
                    return NAN
                if x == 0:
                    return -mp.inf
                return mp.log(x)
            if name == 'exp':
                return mp.exp(x)
            if name in ('sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'erf', 'erfc', 'asinh', 'sinc'):
                return getattr(mp, name)(x)
            if name == 'arctan':
                return mp.atan(x)
            if name == 'arctan2':
                return mp.atan2(x, v[1])
            if name in ('arcsin', 'arccos'):
                return getattr(mp, name[0] + name[3:])(x) if abs(x) <= 1 else NAN
            if name == 'cbrt':
                return mp.cbrt(x) if x >= 0 else -mp.cbrt(-x)
            if name == 'around':
                return self.around(x, v[1])
            if name in ('floor', 'ceil', 'trunc', 'rint', 'toint'):
                if isinstance(x, mpc):
                    x = x.real
                if mpmath.isinf(x):
                    raise TooBig('inf')
                y = mpf(x)
                r = mpmath.nint(y)
                if abs(y - r) < EPS * (1 + abs(y)):
                    return int(r)
                if name == 'floor':
                    return int(mpmath.floor(y))
                if name == 'ceil':
                    return int(mpmath.ceil(y))
                if name == 'rint':
                    return int(r)
                return int(mpmath.floor(y)) if y > 0 else int(mpmath.ceil(y))
            if name == 'sign':
                if isinstance(x, mpf) and abs(x) < EPS:
                    return mpf(0)
                return (x > 0) - (x < 0)
            if name == 'real':
                return x.real if isinstance(x, mpc) else x
            if name == 'imag':
                return x.imag if isinstance(x, mpc) else mpf(0)
            if name == 'conj':
                return mp.conj(x) if isinstance(x, mpc) else x
            if name == 'mod':
                if v[1] == 0:
                    return NAN
                if isinstance(x, int) and isinstance(v[1], int):
                    return x % v[1]
                r = mpf(x) / v[1]
                f = mpmath.nint(r) if abs(r - mpmath.nint(r)) < EPS * (1 + abs(r)) else mpmath.floor(r)
                return x - v[1] * f
            if name in ('max2', 'min2'):
                if any(isinstance(q, mpc) for q in v):
                    v = [mpc(q).real for q in v]
                return max(v) if name == 'max2' else min(v)
            if name == 'divzero':
                return NAN
        except (ZeroDivisionError, OverflowError, ValueError):
            return NAN
        return self.rnd(('fn', name, vkey(v)), 'float')

    def around(self, x, d):
        d = self.as_int(d)
        if self.noround and d > 0:
            return x
        if isinstance(x, mpc):
            return mpc(self.around(x.real, d), self.around(x.imag, d))
        if isinstance(x, (int, bool)) and d >= 0:
            return x
        x = mpf(x)
        if mpmath.isinf(x):
            return x
        s = mpf(10) ** d
        y = x * s
        f = mpmath.floor(y)
        r = y - f
        if abs(r - mpf('0.5')) < mpf(10) ** -20:
            q = f if int(f) % 2 == 0 else f + 1
        else:
            q = f if r < mpf('0.5') else f + 1
        return q / s

    def smooth(self, head, v):
        """a generic linear function of the numbers in v, so that nearby arguments have nearby values"""
        r = mpf(0)
        todo = [(x, (k,)) for k, x in enumerate(v)]
        while todo:
            x, at = todo.pop()
            if isinstance(x, Lam):
                if not x.full:
                    return None
                todo += [(y, at + (k,)) for k, y in enumerate(x.vals)]
            elif isinstance(x, tuple):
                todo += [(y, at + (k,)) for k, y in enumerate(x)]
            elif isinstance(x, bool) or x is None or isinstance(x, str):
                r += mpf(h64((self.seed, head, at, str(x))) & 0xffff) / 7001
            elif isinstance(x, (int, mpf)) and mpmath.isfinite(x):
                r += x * (mpf(h64((self.seed, head, at)) & 0xffff) / 9001 - 3)
            else:
                return None
        return r

    def opaque(self, t, head, v):
        if head in ('median', 'min', 'max', 'argmax', 'argmin', 'sortat', 'argsortat') and isinstance(v[0], Lam) and v[0].full:
            xs = v[0].vals
            if any(isinstance(x, (str, Lam, tuple)) or x is None for x in xs):
                return self.rnd((head, vkey(v)), t.kind)
            if any(isinstance(x, mpc) for x in xs):
                if head not in ('sortat', 'argsortat'):
                    return self.rnd((head, vkey(v)), t.kind)
                p = self.as_int(v[1])
                if not 0 <= p < len(xs) or any(isnanv(x) for x in xs):
                    return NAN
                zs = [mpc(x) for x in xs]
                o = sorted(range(len(xs)), key=lambda i: (zs[i].real, zs[i].imag, i))
                return xs[o[p]] if head == 'sortat' else o[p]
            if not xs:
                return NAN if head in ('median', 'min', 'max') else 0
            if any(isnanv(x) for x in xs):
                if head in ('argmax', 'argmin'):
                    return [isnanv(x) for x in xs].index(True)
                return NAN
            if head in ('argmax', 'argmin'):
                b = 0
                for i, x in enumerate(xs):
                    if self.compare('<', xs[b], x) if head == 'argmax' else self.compare('<', x, xs[b]):
                        b = i
                return b
            if head in ('sortat', 'argsortat'):
                p = self.as_int(v[1])
                if not 0 <= p < len(xs):
                    return NAN
                o = sorted(range(len(xs)), key=lambda i: (xs[i], i))
                return xs[o[p]] if head == 'sortat' else o[p]
            ys = sorted(xs)
            if head == 'min':
                return ys[0]
            if head == 'max':
                return ys[-1]
            m = len(ys)
            return ys[m // 2] if m % 2 else (ys[m // 2 - 1] + ys[m // 2]) / mpf(2)
        if head == 'lexat' and all(isinstance(x, Lam) and x.full and not any(isinstance(y, (str, Lam, tuple, mpc)) or y is None or isnanv(y) for y in x.vals) for x in v[1:]):
            p, m = self.as_int(v[0]), min(len(x.vals) for x in v[1:])
            return sorted(range(m), key=lambda i: tuple(x.vals[i] for x in v[:0:-1]) + (i,))[p] if 0 <= p < m else NAN
        if head == 'prod' and isinstance(v[0], Lam) and v[0].full and not any(isinstance(x, (str, Lam, tuple)) or x is None for x in v[0].vals):
            r = 1
            for x in v[0].vals:
                r = r * x
            return r
        if head == 'polycoef' and isinstance(v[0], Lam) and v[0].full and not any(isinstance(x, (str, Lam, tuple)) or x is None for x in v[0].vals):
            c = [mpf(1)]
            for x in v[0].vals:
                c = [(c[i] if i < len(c) else 0) - (x * c[i - 1] if i else 0) for i in range(len(c) + 1)]
            p = self.as_int(v[1])
            return c[p] if 0 <= p < len(c) else NAN
        if head == 'finfo.eps':
            return mpf(2) ** (-52 if h64((self.seed, head)) & 7 else -23)
        if head == 'int_of_bool':
            return int(bool(v[0]))
        if head in ('kde', 'lib.scipy.stats.gaussian_kde'):
            r = self.smooth(head, v)
            if r is not None:
                if head != 'kde':
                    return r
                # a density is positive; neighbouring grid points are often level
                u = mpf('0.51') + mpf('0.49') * mpmath.sin(r)
                if h64((self.seed, 'level')) & 1:
                    u = (mpf(1), mpf('0.9'), mpf('0.8'), mpf('0.6'), mpf('0.3'), mpf('0.3'), mpf('0.1'), mpf('0.02'))[int(u * 8) % 8]
                return u
        return self.rnd(('opq', head, vkey(v)), t.kind, 'x' if head.startswith('lib.') else '')


class Fold:
    """A recurrence that has no closed form here: k = 0, 1, .. (< n), state slots with initial values and updates, and exits.

    slots: list of (placeholder symbol, initial value term or array lam, update term or array lam)
    exits: list of (label, condition)
    """
    count = 0
    lens = frozenset()      # slots that hold the length of a list or array
    distinct = {}      # list slots that never hold the same value twice -> (lo, hi) of the range they are drawn from, or None

    def __init__(self, k, n, slots, exits, src=None):
        self.k, self.n, self.slots, self.exits, self.src = k, n, slots, exits, src
        Fold.count += 1
        self.name = str(Fold.count)
        self.bound = frozenset([k] + [s[0] for s in slots])
        inner = tm._E
        outer = tm.fbs(n)
        for p, i, u in slots:
            outer = outer | tm.fbs(i)
            inner = inner | tm.fbs(u)
        for l, c in exits:
            inner = inner | tm.fbs(c)
        self.fb = outer | (inner - self.bound)
        self._sub = {}

    def children(self):
        return [self.n] + [x for s in self.slots for x in s] + [c for l, c in self.exits]

    def subst(self, m):
        m = {x: v for x, v in m.items() if x not in self.bound}
        if not any(x in self.fb for x in m if isinstance(x, tm.T)) and 'deep' not in m:
            return self
        key = tuple(sorted((x.id, v.id if isinstance(v, tm.T) else id(v)) for x, v in m.items() if isinstance(x, tm.T)))
        r = self._sub.get(key)
        if r is None:
            s = lambda t: tm.subst(t, m)
            r = Fold(self.k, s(self.n) if self.n is not None else None, [(p, s(i), s(u)) for p, i, u in self.slots], [(l, s(c)) for l, c in self.exits], self.src)
            r.name, r.lens, r.distinct = self.name, self.lens, {p: b and tuple(s(t) for t in b) for p, b in self.distinct.items()}
            self._sub[key] = r
        return r

    # ------------------------------------------------------------ fingerprints
    def relevant(self, terms):
        ph = {s[0]: s for s in self.slots}
        need, todo = set(), list(terms) + [c for l, c in self.exits]
        while todo:
            t = todo.pop()
            for x in tm.fbs(t):
                if x in ph and x not in need:
                    need.add(x)
                    todo.append(ph[x][2])
        return need

    def colours(self, val, env, need):
        key = (id(self), tuple(sorted(x.id for x in need)), tuple(sorted((s.id, val.ekey(env[s])) for s in self.fb if s in env)))
        r = val.folds.get(key)
        if r is not None:
            return r
        ev0 = {s: env[s] for s in self.fb if s in env}
        n = val.ev(self.n, ev0) if self.n is not None else None
        slots = [s for s in self.slots if s[0] in need]
        col = {}
        for p, i, u in slots:
            col[p] = h64(('i', vkey(val.ev(i, ev0)), p.kind if p.kind == 'arr' else ''))
        init = dict(col)
        for r in range(3):
            new = {}
            # what a slot becomes matters only where the loop goes on
            can = [True] * val.marks
            for p, i, u in slots:
                if p in self.lens:
                    # a state in which a length would fall below zero is none the program can be in
                    can = [g and not (isinstance(x, int) and x < 0) for g, x in zip(can, [self.at(val, u, ev0, col, m, n) for m in range(val.marks)])]
            on = [g and not any(self.at(val, c, ev0, col, m, n) is True for l, c in self.exits) for m, g in enumerate(can)]
            for p, i, u in slots:
                new[p] = h64((init[p], tuple(vkey(self.at(val, u, ev0, col, m, n)) if on[m] else None for m in range(val.marks))))
            col = new
        fp = h64(('F', vkey(n) if n is not None else None, tuple(sorted(col.values())),
                  tuple(sorted((l.split(':')[0], tuple(vkey(self.at(val, c, ev0, col, m, n)) if can[m] else None for m in range(val.marks))) for l, c in self.exits))))
        r = (fp, col, n, ev0, can)
        val.folds[key] = r
        return r

    def counter(self, p):
        """does slot p start at a nonnegative number and only ever grow"""
        r = self._sub.get(('counter', p.id))
        if r is None:
            i, u = [(i, u) for q, i, u in self.slots if q is p][0]

            def grows(t):
                if t is p:
                    return True
                if t.op == 'ite':
                    return grows(t.args[1]) and grows(t.args[2])
                if t.op == 'add' and p in t.args[0]:
                    return all(x is p or tm.is_int_const(x) and tm.cval(x) >= 0 for x in t.args[0])
                return False
            r = self._sub[('counter', p.id)] = isinstance(i, tm.T) and tm.is_int_const(i) and tm.cval(i) >= 0 and isinstance(u, tm.T) and grows(u)
        return r

    def kval(self, m, n, val=None):
        if m >= 10 and Val.kpos and isinstance(n, int) and n > 12:
            # positions at which one of the two sources changes its mind
            c = Val.kpos[h64(('k', val.seed, m)) % len(Val.kpos)]
            c = n + c if c < 0 else c
            if 0 <= c < n:
                return c
        if n is None or not isinstance(n, int) or n < 1:
            return [0, 1, 2, 3, 5, 8, 12][m % 7]
        c = [0, n - 1, 1, n - 2, n // 2, 2, n - 3, n // 3, 3, (2 * n) // 3]
        return min(max(c[m % 10], 0), n - 1)

    def at(self, val, t, ev0, col, m, n):
        e = dict(ev0)
        e[self.k] = self.kval(m, n, val)
        sub = val
        pool = m % 2 == 1
        key = ('mark', m)
        v2 = val.folds.get(key)
        if v2 is None:
            v2 = Val((val.seed, 'mark', m), val.ints, val.over, 'pool' if pool else 'real', 0.25 if m % 3 == 2 else 0.0, 0.5, 2)
            v2.outer = val
            v2.strict = 2 if val.strict else False
            v2.preal = (0, .5, .5, .25)[m % 4]
            v2.noround = val.noround
            val.folds[key] = v2
        for p, c in col.items():
            if p.kind == 'arr':
                e[p] = ('arr', c)
            elif p.kind == 'int' and (p in self.lens or self.counter(p)):
                e[p] = abs(v2.rnd(('mk', c), 'int'))
                if p in self.lens and m % 2:
                    e[p] %= 4
            elif p.kind in ('int', 'bool', 'complex'):
                e[p] = v2.rnd(('mk', c), p.kind)
            else:
                e[p] = v2.rnd(('mk', c), 'float')
        if not v2.strict:
            r = v2.ev(t, e)
            if isinstance(r, Lam) and any(isinstance(x, str) for x in r.vals):
                # numpy refuses to store text in a numeric array: no state behind it
                r = Lam(r.n, [NAN if isinstance(x, str) else x for x in r.vals], r.full)
            return r
        try:
            return v2.ev(t, e)
        except Undef:
            return NAN

    def unstarted(self, t):
        """t in the state before the first iteration"""
        r = self._sub.get(('start', t.id))
        if r is None:
            from .loops import rewrite
            init = {p: i for p, i, u in self.slots}

            def rw(x):
                if x.op == 'sel' and x.args[0] in init:
                    b = init[x.args[0]]
                    for j in x.args[2]:
                        if b.op != 'lam':
                            return None
                        b = tm.subst(b.args[2], {b.args[0]: rewrite(j, rw)})
                    return b
                if x is self.k:
                    return self.n
                return init[x] if x in init and x.kind != 'arr' else None
            r = rewrite(t, rw)
            r = self._sub[('start', t.id)] = r if not r.fb & self.bound else False
        return r

    def value(self, val, label, term, env, kind):
        if label == 'end' and self.n is not None and not self.exits:
            n = val.ev(self.n, env)
            t = isinstance(n, int) and n <= 0 and self.unstarted(term)
            if t:
                return val.ev(t, env)
        need = self.relevant([term])
        fp, col, n, ev0, can = self.colours(val, env, need)
        e1 = dict(env)
        for s in list(e1):
            if s in self.bound:
                del e1[s]
        vals = tuple(vkey(self.at(val, term, e1, col, m, n)) if can[m] else None for m in range(val.marks))
        if label == 'exit?':
            cand = {tuple(vkey(self.at(val, c, ev0, col, m, n)) if can[m] else None for m in range(val.marks)) for l, c in self.exits if l != 'end'}
            if self.n is not None or any(l == 'end' for l, c in self.exits):
                cand.add('end')
            return min(cand, key=lambda c: h64((val.seed, fp, c))) == vals
        if term.op == 'sel' and term.args[0] in self.distinct and kind == 'int' and len(term.args[2]) == 1 and not term.args[2][0].fb & self.bound:
            i = val.ev(term.args[2][0], env)
            if isinstance(i, int) and i >= 0:
                lo, hi = [val.ev(t, ev0) for t in self.distinct[term.args[0]] or (tm.const(-4), tm.const(9))]
                if isinstance(lo, int) and isinstance(hi, int) and lo < hi < lo + 400:
                    key = ('perm', fp, col[term.args[0]], lo, hi)
                    perm = val.folds.get(key)
                    if perm is None:
                        perm = val.folds[key] = sorted(range(lo, hi), key=lambda v: h64((val.seed, key, v)))
                    return perm[i] if i < len(perm) else hi + i - len(perm)
        return val.rnd(('fold', fp, label.split(':')[0] if isinstance(label, str) else label, vals), kind if kind in ('int', 'bool', 'complex') else 'float', 'x')
