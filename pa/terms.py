"""Value-graph terms: hash-consed, lightly normalised, with a polynomial view and random interpretation.

A term stands for the value that a program point computes, as a function of the function's arguments.  Atoms are argument
scalars, elements of argument arrays, prefix sums, library calls and loop summaries.  `Valuation` interprets the atoms by
pseudo-random values (the same atom always gets the same value) and computes a term's value number; no program code runs.
"""
import hashlib
import itertools
from fractions import Fraction
import mpmath
from mpmath import mpf, mpc, mp

mp.dps = 40
mp.pretty = True

_table = {}
_ids = itertools.count(1)
cur_src = [None]          # (file, line, function) of the construct being interpreted


class Budget(Exception):
    """the term became too large; the caller treats the construct as undecided"""


class T:
    __slots__ = ('op', 'args', 'id', 'fb', 'kind', 'src', '_poly', '__weakref__')

    def __repr__(self):
        return show(self)

    # terms are compared by identity (hash-consed)


def _key(a):
    if isinstance(a, T):
        return ('t', a.id)
    if isinstance(a, (tuple, list)):
        return tuple(_key(x) for x in a)
    if isinstance(a, (str, int, bool, Fraction, float, complex, type(None))):
        return (type(a).__name__, a)
    return ('o', id(a))


_keep = []


def mk(op, *args, kind=None):
    key = (op, _key(args), kind)
    t = _table.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.kind, t.id = op, args, kind, next(_ids)
    t.src = cur_src[0]
    t._poly = None
    if op == 'sym':
        t.fb = frozenset([t]) if args[1] == 'bound' else frozenset()
    elif op in ('sum', 'any', 'first', 'last', 'lam', 'nth'):
        # the binder scopes over the body; bounds are outside it
        if op == 'nth':
            t.fb = (fbs(args[2]) - {args[0]}) | fbs(args[1]) | fbs(args[3])
        else:
            t.fb = (fbs(args[-1]) - {args[0]}) | fbs(args[1:-1])
    elif op == 'fold':
        t.fb = (fbs(args[1:]) - args[0].bound) | args[0].fb
    else:
        t.fb = fbs(args)
    _table[key] = t
    for a in args:
        if not isinstance(a, (T, str, int, tuple, list, Fraction, float, complex, type(None))):
            _keep.append(a)
    return t


_E = frozenset()


def fbs(a):
    if isinstance(a, T):
        return a.fb
    if isinstance(a, (tuple, list)):
        r = _E
        for x in a:
            f = fbs(x)
            if f:
                r = r | f
        return r
    return getattr(a, 'fb', _E)


# ------------------------------------------------------------------ constants
def const(v):
    if isinstance(v, bool):
        return mk('const', v, kind='bool')
    if isinstance(v, int):
        return mk('const', Fraction(v), kind='int')
    if isinstance(v, Fraction):
        return mk('const', v, kind='float')
    if isinstance(v, float):
        if v != v:
            return NAN
        if v in (float('inf'), float('-inf')):
            return INF if v > 0 else mk('mul', (const(-1), INF), kind='float')
        return mk('const', Fraction(repr(v)) if v == v else v, kind='float')
    if isinstance(v, complex):
        r, i = const(v.real), const(v.imag)
        t = mul(i, J)
        return t if v.real == 0 else add(r, t)
    if isinstance(v, str):
        return mk('str', v, kind='str')
    if v is None:
        return NONE
    if v is Ellipsis:
        return mk('str', '...', kind='ellipsis')
    raise ValueError(v)


NAN = mk('nan', kind='float')
INF = mk('inf', kind='float')
J = mk('imag', kind='complex')
PI = mk('pi', kind='float')
NONE = mk('none', kind='none')
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)


def is_const(t):
    return isinstance(t, T) and t.op == 'const'


def cval(t):
    return t.args[0]


def is_int_const(t):
    return is_const(t) and not isinstance(t.args[0], bool) and t.args[0].denominator == 1


def sym(name, kind='float', flags=''):
    return mk('sym', name, 'free', flags, kind=kind)


_bn = itertools.count(1)


def bound(kind='int', hint='k'):
    return mk('sym', '%s#%d' % (hint, next(_bn)), 'bound', '', kind=kind)


# ------------------------------------------------------------------ arithmetic
def join_kind(*ks):
    order = {'bool': 0, 'int': 1, 'float': 2, 'complex': 3}
    m = -1
    for k in ks:
        if k not in order:
            return 'any'
        m = max(m, order[k])
    return ['bool', 'int', 'float', 'complex'][m]


def _num(v):
    return Fraction(int(v)) if isinstance(v, bool) else v


def add(*ts):
    flat, c, kinds = [], Fraction(0), []
    for t in ts:
        kinds.append(t.kind)
        if t.op == 'add':
            for x in t.args[0]:
                if is_const(x):
                    c += _num(cval(x))
                else:
                    flat.append(x)
        elif is_const(t):
            c += _num(cval(t))
        else:
            flat.append(t)
    k = join_kind(*kinds)
    if k == 'bool':
        k = 'int'
    if any(x is NAN for x in flat):
        return NAN
    # combine equal terms c*x
    coef = {}
    order = []
    for x in flat:
        if x.op == 'mul' and is_const(x.args[0][0]):
            cf, rest = _num(cval(x.args[0][0])), x.args[0][1:]
            base = rest[0] if len(rest) == 1 else mk('mul', rest, kind=x.kind)
        else:
            cf, base = Fraction(1), x
        if base.id not in coef:
            coef[base.id] = [Fraction(0), base]
            order.append(base.id)
        coef[base.id][0] += cf
    out = []
    for i in order:
        cf, base = coef[i]
        if cf == 0:
            continue
        out.append(base if cf == 1 else mul(mk('const', cf, kind='int' if cf.denominator == 1 else 'float'), base))
    if c != 0 or not out:
        cc = mk('const', c, kind='int' if (c.denominator == 1 and k in ('int', 'any')) else 'float')
        if not out:
            return mk('const', c, kind='int' if k == 'int' else 'float') if k != 'complex' else cc
        out.append(cc)
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk('add', tuple(out), kind=k)


def neg(t):
    return mul(const(-1), t)


def sub(a, b):
    return add(a, neg(b))


def mul(*ts):
    flat, c, kinds = [], Fraction(1), []
    for t in ts:
        kinds.append(t.kind)
        if t.op == 'mul':
            for x in t.args[0]:
                if is_const(x):
                    c *= _num(cval(x))
                else:
                    flat.append(x)
        elif is_const(t):
            c *= _num(cval(t))
        else:
            flat.append(t)
    k = join_kind(*kinds)
    if k == 'bool':
        k = 'int'
    if any(x is NAN for x in flat):
        return NAN
    if c == 0:
        return mk('const', Fraction(0), kind='int' if k == 'int' else 'float')
    pw, order = {}, []
    for x in flat:
        if x.op == 'pow' and is_const(x.args[1]):
            b, e = x.args[0], cval(x.args[1])
        else:
            b, e = x, Fraction(1)
        if b is J:
            e = e
        if b.id not in pw:
            pw[b.id] = [b, Fraction(0)]
            order.append(b.id)
        pw[b.id][1] += e
    out = []
    for i in order:
        b, e = pw[i]
        if b is J and e.denominator == 1:
            e4 = int(e) % 4
            if e4 in (2, 3):
                c = -c
            if e4 in (1, 3):
                out.append(J)
            continue
        if e == 0:
            continue
        out.append(b if e == 1 else mk('pow', b, mk('const', e, kind='int' if e.denominator == 1 else 'float'), kind=k if e > 0 and e.denominator == 1 else join_kind(k, 'float')))
    if not out:
        return mk('const', c, kind='int' if (k == 'int' and c.denominator == 1) else 'float')
    if c == 1 and len(out) == 1:
        return out[0]
    if c != 1 and len(out) == 1 and out[0].op == 'add':
        # distribute constants over sums so that linear index terms stay normal
        return add(*[mul(mk('const', c, kind='int' if c.denominator == 1 else 'float'), x) for x in out[0].args[0]])
    out.sort(key=lambda t: t.id)
    if c != 1:
        out = [mk('const', c, kind='int' if c.denominator == 1 else 'float')] + out
    return mk('mul', tuple(out), kind=k)


def power(a, b):
    if is_const(b) and not isinstance(cval(b), bool):
        e = cval(b)
        if e == 1:
            return a
        if e == 0:
            return const(1)
        if is_const(a) and e.denominator == 1 and not (cval(a) == 0 and e < 0):
            v = _num(cval(a)) ** int(e)
            return mk('const', v, kind='int' if (a.kind == 'int' and e > 0 and b.kind == 'int') else 'float')
        if e == Fraction(1, 2):
            return fn('sqrt', a)
        if a.op == 'mul' and e.denominator == 1:
            return mul(*[power(x, b) for x in a.args[0]])
        if a.op == 'pow' and is_const(a.args[1]) and e.denominator == 1:
            return power(a.args[0], mk('const', cval(a.args[1]) * e, kind='float'))
        if a.op == 'fn' and a.args[0] == 'sqrt' and e.denominator == 1 and int(e) % 2 == 0:
            return power(a.args[1], mk('const', e / 2, kind='int'))
        if a is J and e.denominator == 1:
            return mul(*([J] * (int(e) % 4))) if int(e) % 4 else const(1)
        k = a.kind if (e.denominator == 1 and e > 0) else join_kind(a.kind, 'float')
        if a.op == 'fn' and a.args[0] == 'exp' and e.denominator == 1:
            return fn('exp', mul(b, a.args[1]))
        return mk('pow', a, b, kind=k)
    return mk('pow', a, b, kind=join_kind(a.kind, b.kind, 'float') if b.kind != 'int' or a.kind != 'int' else 'int')


def div(a, b):
    if is_const(b) and cval(b) == 0:
        return mk('fn', 'divzero', a, kind='float')
    r = mul(a, power(b, const(-1)))
    if r.kind in ('int', 'bool'):
        if is_const(r):
            return mk('const', cval(r), kind='float')
        return mk('fn', 'tofloat', r, kind='float') if r.kind == 'int' and r.op in ('sym',) else _refloat(r)
    return r


def _refloat(r):
    if r.kind != 'int':
        return r
    return mk(r.op, *r.args, kind='float')


def fn(name, *args):
    a = args[0] if args else None
    if name == 'tofloat':
        if a.kind in ('float', 'complex', 'any'):
            return a
        if is_const(a):
            return mk('const', _num(cval(a)), kind='float')
        if a.op in ('add', 'mul', 'pow'):
            return _refloat(a)
        if a.op == 'ite':
            return ite(a.args[0], fn('tofloat', a.args[1]), fn('tofloat', a.args[2]))
        return mk('fn', 'tofloat', a, kind='float')
    if a is NAN and name in ('sqrt', 'log', 'exp', 'around', 'abs', 'sin', 'cos', 'tan'):
        return NAN
    if name == 'sqrt' and is_const(a):
        v = _num(cval(a))
        if v >= 0:
            import math
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return mk('const', Fraction(n, d), kind='float')
    if name == 'exp' and is_const(a) and cval(a) == 0:
        return mk('const', Fraction(1), kind='float')
    if name == 'abs':
        if is_const(a):
            return mk('const', abs(_num(cval(a))), kind=a.kind)
        if a.op == 'fn' and a.args[0] in ('abs', 'sqrt'):
            return a
        if a.op == 'mul' and is_const(a.args[0][0]):
            return mul(mk('const', abs(_num(cval(a.args[0][0]))), kind=a.args[0][0].kind), fn('abs', _rest(a)))
        return mk('fn', name, a, kind='float' if a.kind == 'complex' else a.kind)
    if name in ('floor', 'ceil', 'trunc', 'rint'):
        if is_const(a):
            v = _num(cval(a))
            import math
            r = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'rint': round}[name](v)
            return const(int(r))
        if a.kind in ('int', 'bool'):
            return a
        if a.op == 'fn' and a.args[0] == 'tofloat' and a.args[1].kind == 'int':
            return a.args[1]
        if name in ('floor', 'ceil'):
            # split the integer part off
            ip, rest = [], []
            for x in (a.args[0] if a.op == 'add' else (a,)):
                y = x.args[1] if (x.op == 'fn' and x.args[0] == 'tofloat') else x
                if int_valued(y):
                    ip.append(y)
                else:
                    rest.append(x)
            if ip:
                if not rest:
                    return _reint(add(*ip))
                return add(_reint(add(*ip)), fn(name, add(*rest)))
        elif int_valued(a):
            return _reint(a)
        return mk('fn', name, a, kind='int')
    if name == 'conj':
        if a.kind in ('int', 'float', 'bool'):
            return a
        if a.op == 'fn' and a.args[0] == 'conj':
            return a.args[1]
    if name in ('real',) and a.kind in ('int', 'float', 'bool'):
        return a
    if name == 'imag' and a.kind in ('int', 'float', 'bool'):
        return const(0)
    if name == 'isnan':
        return isnan(a)
    if name == 'around' and a.kind in ('int', 'bool') and is_const(args[1]) and cval(args[1]) >= 0:
        return a
    k = {'sign': a.kind if a.kind in ('int', 'float') else 'float', 'real': 'float', 'imag': 'float', 'conj': a.kind,
         'around': a.kind if a.kind != 'bool' else 'float', 'sqrt': 'complex' if a.kind == 'complex' else 'float',
         'exp': 'complex' if a.kind == 'complex' else 'float',
         'mod': join_kind(*[x.kind for x in args]), 'max2': join_kind(*[x.kind for x in args]),
         'min2': join_kind(*[x.kind for x in args])}.get(name, 'any' if a is not None and a.kind == 'any' else 'float')
    if name in ('max2', 'min2'):
        if all(is_const(x) for x in args):
            return (max if name == 'max2' else min)(args, key=lambda x: _num(cval(x)))
        if args[0] is args[1]:
            return args[0]
        args = tuple(sorted(args, key=lambda t: t.id))
    if name == 'mod' and all(is_int_const(x) for x in args) and cval(args[1]) != 0:
        return const(int(cval(args[0])) % int(cval(args[1])))
    return mk('fn', name, *args, kind=k)


def _rest(a):
    r = a.args[0][1:]
    return r[0] if len(r) == 1 else mk('mul', r, kind=a.kind)


def _reint(t):
    if t.kind == 'int':
        return t
    if is_const(t):
        return const(int(_num(cval(t))))
    if t.op in ('add', 'mul', 'pow'):
        return mk(t.op, *t.args, kind='int')
    return mk('fn', 'toint', t, kind='int')


def int_valued(t):
    if t.kind in ('int', 'bool') and t.op != 'mul' and t.op != 'add':
        return not (is_const(t) and _num(cval(t)).denominator != 1)
    if is_const(t):
        return not isinstance(cval(t), bool) and cval(t).denominator == 1
    if t.op == 'fn' and t.args[0] in ('floor', 'ceil', 'trunc', 'rint', 'toint'):
        return True
    if t.op == 'fn' and t.args[0] == 'tofloat':
        return int_valued(t.args[1])
    if t.op in ('add', 'mul'):
        return all(int_valued(x) for x in t.args[0])
    if t.op == 'pow':
        return is_int_const(t.args[1]) and cval(t.args[1]) > 0 and int_valued(t.args[0])
    if t.op == 'ite':
        return int_valued(t.args[1]) and int_valued(t.args[2])
    return False


# ------------------------------------------------------------------ booleans
def isnan(a):
    if a is NAN:
        return TRUE
    if a.kind in ('int', 'bool') or is_const(a) or a is PI or a is INF:
        return FALSE
    if a.op == 'ite':
        return ite(a.args[0], isnan(a.args[1]), isnan(a.args[2]))
    if a.op == 'add' or a.op == 'mul':
        return or_(*[isnan(x) for x in a.args[0]])
    if a.op == 'pow':
        return isnan(a.args[0])
    if a.op == 'fn' and a.args[0] in ('around', 'abs', 'tofloat', 'exp', 'sign', 'conj', 'real'):
        return isnan(a.args[1])
    if a.op == 'elem':
        if 'n' not in a.args[1]:
            return FALSE
        return mk('isnan', a, kind='bool')
    if a.op == 'sym' and 'n' not in a.args[2]:
        return FALSE
    if a.op == 'sum':
        b = isnan(a.args[3])
        return FALSE if b is FALSE else mk('isnan', a, kind='bool')
    return mk('isnan', a, kind='bool')


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    return mk('not', c, kind='bool')


def and_(*cs):
    out = []
    for c in cs:
        for x in (c.args[0] if c.op == 'and' else (c,)):
            if x is FALSE:
                return FALSE
            if x is TRUE or x in out:
                continue
            if not_(x) in out:
                return FALSE
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(out), kind='bool')


def or_(*cs):
    out = []
    for c in cs:
        for x in (c.args[0] if c.op == 'or' else (c,)):
            if x is TRUE:
                return TRUE
            if x is FALSE or x in out:
                continue
            if not_(x) in out:
                return TRUE
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', tuple(out), kind='bool')


def cmp(op, a, b):
    """op in < <= > >= == !="""
    if op == '>':
        return cmp('<', b, a)
    if op == '>=':
        return cmp('<=', b, a)
    if op == '!=':
        return not_(cmp('==', a, b))
    if a.op == 'str' or b.op == 'str' or a is NONE or b is NONE:
        if a.op in ('str', 'none', 'const') and b.op in ('str', 'none', 'const'):
            return const(a is b) if op == '==' else mk('cmp', op, a, b, kind='bool')
        if op == '==' and (a is NONE and b.kind in ('int', 'float', 'bool', 'str') or b is NONE and a.kind in ('int', 'float', 'bool', 'str')):
            return FALSE
        return mk('cmp', op, a, b, kind='bool')
    if a is NAN or b is NAN:
        return FALSE
    for x, y, f in ((a, b, 0), (b, a, 1)):
        if x.op == 'ite' and is_const(y):
            g = (lambda z: cmp(op, z, y)) if not f else (lambda z: cmp(op, y, z))
            r1, r2 = g(x.args[1]), g(x.args[2])
            if r1 in (TRUE, FALSE) or r2 in (TRUE, FALSE):
                return ite(x.args[0], r1, r2)
    if a.kind == 'bool' and b.kind == 'bool' and op == '==':
        if b is TRUE:
            return a
        if b is FALSE:
            return not_(a)
    d = sub(a, b)
    if is_const(d):
        v = _num(cval(d))
        return const({'<': v < 0, '<=': v <= 0, '==': v == 0}[op])
    if INF in (a, b) and (a.kind == 'int' or b.kind == 'int'):
        if op == '==':
            return FALSE
        return const(b is INF)
    return mk('cmp', op, a, b, kind='bool')


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a.kind == 'bool' and b.kind == 'bool':
        if a is TRUE:
            return or_(c, b)
        if b is FALSE:
            return and_(c, a)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    k = a.kind if a.kind == b.kind else join_kind(a.kind, b.kind)
    return mk('ite', c, a, b, kind=k)


# ------------------------------------------------------------------ array elements, opaque calls
def elem(name, flags, kind, length, *idx):
    """element of an array symbol; flags: n may be NaN, p positive, s loop state"""
    return mk('elem', name, flags, length, tuple(idx), kind=kind)


def opq(head, *args, kind='any'):
    return mk('opq', head, args, kind=kind)


# ------------------------------------------------------------------ substitution
def subst(t, m, memo=None):
    """replace terms (bound symbols, state symbols) by terms"""
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(subst(x, m, memo) for x in t)
        if isinstance(t, list):
            return [subst(x, m, memo) for x in t]
        f = getattr(t, 'subst', None)
        return f(m) if f else t
    if t in m:
        return m[t]
    if not t.fb and not m.get('deep'):
        return t
    if not m.get('deep') and not any(x in m for x in t.fb):
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op in BINDERS or t.op == 'fold':
        bs = frozenset([t.args[0]]) if t.op in BINDERS else t.args[0].bound
        hit = {x: v for x, v in m.items() if isinstance(x, T) and x not in bs}
        if len(hit) != len([x for x in m if isinstance(x, T)]):
            # shadowed symbols are not replaced inside
            m2 = dict(hit)
            if 'deep' in m:
                m2['deep'] = True
            if t.op == 'nth':
                return mk('nth', t.args[0], subst(t.args[1], m), subst(t.args[2], m2), subst(t.args[3], m), kind=t.kind)
            if t.op in ('sum', 'any', 'first', 'last'):
                return mk(t.op, t.args[0], subst(t.args[1], m), subst(t.args[2], m), subst(t.args[3], m2), kind=t.kind)
            if t.op == 'lam':
                return mk('lam', t.args[0], subst(t.args[1], m), subst(t.args[2], m2), kind=t.kind)
            return subst(t, m2) if m2 else t
        if t.op in BINDERS:
            # bounds are outside the scope of the binder, so treat them separately; rename on capture
            clash = _E
            for v in m.values():
                clash = clash | fbs(v)
            j, u = t.args[0], t
            if j in clash:
                avoid = clash | t.fb
                d = 0
                while canon(1000 + d) in avoid:
                    d += 1
                nj = canon(1000 + d)
                u = _rebind(t, nj)
            r = rebuild(u, lambda x: subst(x, m, memo))
            memo[t.id] = r
            return r
    r = rebuild(t, lambda x: subst(x, m, memo))
    memo[t.id] = r
    return r


def _rebind(t, nj):
    a, m = t.args, {t.args[0]: nj}
    if t.op == 'lam':
        return mk('lam', nj, a[1], subst(a[2], m), kind=t.kind)
    if t.op == 'nth':
        return mk('nth', nj, a[1], subst(a[2], m), a[3], kind=t.kind)
    return mk(t.op, nj, a[1], a[2], subst(a[3], m), kind=t.kind)


def rebuild(t, f):
    op, a = t.op, t.args
    if op in ('const', 'nan', 'inf', 'imag', 'pi', 'none', 'str', 'sym'):
        return t
    if op == 'add':
        return _rk(add(*[f(x) for x in a[0]]), t)
    if op == 'mul':
        return _rk(mul(*[f(x) for x in a[0]]), t)
    if op == 'pow':
        return _rk(power(f(a[0]), f(a[1])), t)
    if op == 'fn':
        return fn(a[0], *[f(x) for x in a[1:]])
    if op == 'cmp':
        return cmp(a[0], f(a[1]), f(a[2]))
    if op == 'and':
        return and_(*[f(x) for x in a[0]])
    if op == 'or':
        return or_(*[f(x) for x in a[0]])
    if op == 'not':
        return not_(f(a[0]))
    if op == 'ite':
        return ite(f(a[0]), f(a[1]), f(a[2]))
    if op == 'isnan':
        return isnan(f(a[0]))
    if op == 'elem':
        return mk('elem', a[0], a[1], f(a[2]), tuple(f(x) for x in a[3]), kind=t.kind)
    if op == 'sel':
        return mk('sel', f(a[0]), a[1], tuple(f(x) for x in a[2]), kind=t.kind)
    if op == 'sum':
        b = f(a[3])
        if is_const(b) and _num(cval(b)) == 0:
            return const(0)
        return mk('sum', a[0], f(a[1]), f(a[2]), b, kind=t.kind)
    if op == 'any':
        b = f(a[3])
        return FALSE if b is FALSE else mk('any', a[0], f(a[1]), f(a[2]), b, kind='bool')
    if op in ('first', 'last'):
        return mk(op, a[0], f(a[1]), f(a[2]), f(a[3]), kind='int')
    if op == 'nth':
        return mk('nth', a[0], f(a[1]), f(a[2]), f(a[3]), kind='int')
    if op == 'opq':
        return mk('opq', a[0], tuple(f(x) for x in a[1]), kind=t.kind)
    if op == 'fold':
        return mk(op, f(a[0]), *[f(x) for x in a[1:]], kind=t.kind)
    if op == 'lam':
        return mk('lam', a[0], f(a[1]), f(a[2]), kind=t.kind)
    raise ValueError(op)


def _rk(r, t):
    if t.kind == 'float' and r.kind == 'int':
        if r.op in ('add', 'mul', 'pow'):
            return _refloat(r)
        if is_const(r):
            return mk('const', cval(r), kind='float')
        return fn('tofloat', r)
    return r


# ------------------------------------------------------------------ polynomial view
MAXMONO = 300


def padd(p, q):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pscale(p, c):
    return {m: v * c for m, v in p.items()} if c else {}


def pmul(p, q):
    if len(p) * len(q) > MAXMONO * 4:
        raise Budget('polynomial')
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            if m is None:
                continue
            m, s = m
            v = r.get(m, 0) + c1 * c2 * s
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    if len(r) > MAXMONO:
        raise Budget('polynomial')
    return r


def mmul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    out, s = [], 1
    for a, e in d.items():
        if e == 0:
            continue
        if a.kind == 'bool':
            e = 1
        if a is J and Fraction(e).denominator == 1:
            e4 = int(e) % 4
            if e4 >= 2:
                s = -s
            e = e4 % 2
            if e == 0:
                continue
        out.append((a, e))
    out.sort(key=lambda x: (x[0].id, x[1]))
    return tuple(out), s


def poly(t):
    """polynomial view: {((atom, exponent), ...): coefficient}"""
    if t._poly is not None:
        return t._poly
    op = t.op
    if op == 'const':
        v = _num(cval(t))
        r = {(): v} if v else {}
    elif op == 'add':
        r = {}
        for x in t.args[0]:
            r = padd(r, poly(x))
            if len(r) > MAXMONO:
                raise Budget('polynomial')
    elif op == 'mul':
        r = {(): Fraction(1)}
        for x in t.args[0]:
            r = pmul(r, poly(x))
    elif op == 'pow' and is_int_const(t.args[1]) and 0 < cval(t.args[1]) <= 8:
        r = {(): Fraction(1)}
        b = poly(t.args[0])
        for _ in range(int(cval(t.args[1]))):
            r = pmul(r, b)
    elif op == 'pow' and is_const(t.args[1]):
        b = poly(t.args[0])
        if len(b) == 1:
            (m, c), = b.items()
            e = cval(t.args[1])
            if e.denominator == 1 and c != 0:
                mm, s = mmul(tuple((a, x * e) for a, x in m), ())
                r = {mm: s * c ** int(e)}
            else:
                r = {((t.args[0], e),): Fraction(1)}
        else:
            r = {((t.args[0], cval(t.args[1])),): Fraction(1)}
    elif op == 'fn' and t.args[0] == 'tofloat':
        r = poly(t.args[1])
    else:
        r = {((t, Fraction(1)),): Fraction(1)}
    t._poly = r
    return r


def from_poly(p):
    ts = []
    for m, c in p.items():
        ts.append(mul(mk('const', c, kind='int' if c.denominator == 1 else 'float'),
                      *[a if e == 1 else power(a, mk('const', Fraction(e), kind='int')) for a, e in m]))
    return add(*ts) if ts else const(0)


def linear_in(t, s):
    """(coef, rest) with t == coef*s + rest, coef rational constant, or None"""
    try:
        p = poly(t)
    except Budget:
        return None
    c, rest = Fraction(0), {}
    for m, v in p.items():
        if any(a is s for a, e in m):
            if m == ((s, 1),):
                c = v
            else:
                return None
        else:
            if any(s in a.fb or a is s for a, e in m):
                return None
            rest[m] = v
    return c, rest


# ------------------------------------------------------------------ binders
BINDERS = ('sum', 'any', 'first', 'last', 'nth', 'lam')
_depth = [0]
_canon = {}


def canon(d):
    if d not in _canon:
        _canon[d] = mk('sym', 'b%d' % d, 'bound', '', kind='int')
    return _canon[d]


def under(f):
    """call f with the canonical bound symbol of the present nesting depth; returns (symbol, result)"""
    j = canon(_depth[0])
    _depth[0] += 1
    try:
        return j, f(j)
    finally:
        _depth[0] -= 1


def depends(a, j):
    return a is j or j in a.fb


def total(lo, hi, f):
    """sum of f(j) over lo <= j < hi"""
    if is_int_const(lo) and is_int_const(hi):
        a, b = int(cval(lo)), int(cval(hi))
        if b - a <= 8:
            return add(*[f(const(t)) for t in range(a, b)]) if b > a else const(0)
    j, body = under(f)
    if body is NAN:
        return ite(cmp('<', lo, hi), NAN, const(0))
    if not depends(body, j):
        if is_const(body) and _num(cval(body)) == 0:
            return const(0)
        return mul(body, fn('max2', sub(hi, lo), const(0)))
    return mk('sum', j, lo, hi, body, kind='int' if body.kind in ('int', 'bool') else body.kind)


def exists(lo, hi, f):
    if is_int_const(lo) and is_int_const(hi):
        a, b = int(cval(lo)), int(cval(hi))
        if b - a <= 8:
            return or_(*[f(const(t)) for t in range(a, b)]) if b > a else FALSE
    j, body = under(f)
    if body is FALSE:
        return FALSE
    if not depends(body, j):
        return and_(body, cmp('<', lo, hi))
    return mk('any', j, lo, hi, body, kind='bool')


def first(lo, hi, f):
    """smallest j in [lo, hi) with f(j), or max(lo, hi)"""
    j, body = under(f)
    if body is FALSE:
        return fn('max2', lo, hi)
    if body is TRUE:
        return lo
    return mk('first', j, lo, hi, body, kind='int')


def last(lo, hi, f):
    """largest j in [lo, hi) with f(j), or lo-1"""
    j, body = under(f)
    if body is FALSE:
        return sub(lo, const(1))
    if body is TRUE:
        return sub(fn('max2', lo, hi), const(1))
    return mk('last', j, lo, hi, body, kind='int')


def nth(n, p, f):
    """index of the p-th (from 0) j in [0, n) with f(j), or n"""
    j, body = under(f)
    if body is TRUE:
        return p
    return mk('nth', j, n, body, p, kind='int')


def lam(n, f):
    j, body = under(f)
    return mk('lam', j, n, body, kind=body.kind if isinstance(body, T) else 'any')


# ------------------------------------------------------------------ printing
def show(t, depth=6):
    if not isinstance(t, T):
        return repr(t) if not isinstance(t, (tuple, list)) else '(' + ', '.join(show(x, depth) for x in t) + ')'
    if depth <= 0:
        return '..'
    d = depth - 1
    op, a = t.op, t.args
    if op == 'const':
        v = a[0]
        if isinstance(v, bool):
            return str(v)
        return str(v.numerator) if v.denominator == 1 else (repr(float(v)) if abs(v) > 1e-300 else str(v))
    if op in ('nan', 'inf', 'pi', 'none'):
        return op
    if op == 'imag':
        return '1j'
    if op == 'str':
        return repr(a[0])
    if op == 'sym':
        return a[0]
    if op == 'add':
        return '(' + ' + '.join(show(x, d) for x in a[0]) + ')'
    if op == 'mul':
        return '*'.join(show(x, d) for x in a[0])
    if op == 'pow':
        return show(a[0], d) + '**' + show(a[1], d)
    if op == 'fn':
        return a[0] + '(' + ', '.join(show(x, d) for x in a[1:]) + ')'
    if op == 'cmp':
        return '(%s %s %s)' % (show(a[1], d), a[0], show(a[2], d))
    if op in ('and', 'or'):
        return '(' + (' %s ' % op).join(show(x, d) for x in a[0]) + ')'
    if op == 'not':
        return 'not ' + show(a[0], d)
    if op == 'ite':
        return 'if(%s, %s, %s)' % (show(a[0], d), show(a[1], d), show(a[2], d))
    if op == 'isnan':
        return 'isnan(%s)' % show(a[0], d)
    if op == 'elem':
        return '%s[%s]' % (a[0], ', '.join(show(x, d) for x in a[3]))
    if op == 'sel':
        return '%s[%s]' % (show(a[0], d), ', '.join(show(x, d) for x in a[2]))
    if op in ('sum', 'any', 'first', 'last'):
        return '%s{%s<=%s<%s}(%s)' % (op, show(a[1], d), a[0].args[0], show(a[2], d), show(a[3], d))
    if op == 'lam':
        return '[%s : %s<%s]' % (show(a[2], d), a[0].args[0], show(a[1], d))
    if op == 'fold':
        return 'loop%s@%s(%s)' % (a[0].name, a[1], show(a[2], d))
    if op == 'opq':
        return '%s(%s)' % (a[0], ', '.join(show(x, d) for x in a[1]))
    return '%s(%s)' % (op, ', '.join(show(x, d) for x in a))


def subterms(t, seen=None):
    if seen is None:
        seen = {}
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen[x.id] = x
            stack.extend(x.args)
        elif isinstance(x, (tuple, list)):
            stack.extend(x)
        else:
            f = getattr(x, 'children', None)
            if f:
                stack.extend(f())
    return seen
