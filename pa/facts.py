"""Small linear reasoning over path conditions, used to drop negative-index wrapping and to resolve branches."""
from fractions import Fraction
from . import terms as tm
from .terms import T, TRUE, FALSE


def lin(t):
    """t as ({atom-monomial: coef}, const) or None"""
    try:
        p = tm.poly(t)
    except tm.Budget:
        return None
    if len(p) > 12:
        return None
    c = p.get((), Fraction(0))
    return {m: v for m, v in p.items() if m != ()}, c


def is_int(t):
    return t.kind in ('int', 'bool') or tm.int_valued(t)


def nonneg_atom(m):
    """monomials that can never be negative"""
    for a, e in m:
        if a.op == 'sym' and 'z' in a.args[2]:       # size symbols
            continue
        if a.op == 'sum' and a.kind == 'int' and a.args[3].op == 'ite' and tm.is_const(a.args[3].args[1]) and tm.is_const(a.args[3].args[2]):
            continue
        if a.op == 'fn' and a.args[0] in ('abs', 'sqrt'):
            continue
        if a.op == 'sym' and 'p' in a.args[2]:
            continue
        if e % 2 == 0 and Fraction(e).denominator == 1:
            continue
        if a.op == 'opq' and (a.args[0].endswith('.len') or a.args[0] in ('argmax', 'argmin', 'argsortat', 'lexat')):
            continue
        if a.op == 'nth' or a.op == 'first' and tm.is_int_const(a.args[1]) and tm.cval(a.args[1]) >= 0:
            continue
        if a.op == 'fn' and a.args[0] == 'mod' and tm.is_const(a.args[2]) and tm.cval(a.args[2]) > 0:
            continue
        if a.op == 'fn' and a.args[0] == 'max2' and any(tm.is_const(x) and tm.cval(x) >= 0 for x in a.args[1:]):
            continue
        return False
    return True


def fact_forms(facts):
    """linear forms f with f >= 0 implied by the facts"""
    out = []
    dis = []
    for f in facts:
        out += forms(f, True)
        for g in flatten(f):
            if g.op == 'not' and g.args[0].op == 'cmp' and g.args[0].args[0] == '==' and is_int(g.args[0].args[1]) and is_int(g.args[0].args[2]):
                dis.append(g.args[0])
    # a <= b and a != b: a < b, for integers
    for d in dis[:8]:
        ab = tm.sub(d.args[1], d.args[2])
        for x in (ab, tm.neg(ab)):
            l = lin(x)
            if l is not None and prove_ge(l, out, 2):
                m = lin(tm.sub(x, tm.const(1)))
                if m is not None and m[0]:
                    out.append(m)
                break
    # x <= max(a, b) but not x <= a: x <= b
    for f in list(out):
        r = minmax_in(f[0])
        if r is None or (r[2].args[0] == 'max2') != (r[1] > 0):
            continue
        m, v, t = r
        for p, q in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            l = replace(f, m, v, p)
            if l is None:
                continue
            g = {k: -x for k, x in l[0].items()}, -l[1] - Fraction(1, 1000)
            if prove_ge(g, out, 2):
                l = replace(f, m, v, q)
                if l is not None and l[0]:
                    out.append(l)
                break
    return out


_flat = {}


def flatten(f):
    """conjuncts of a fact"""
    r = _flat.get(f.id)
    if r is None:
        if f.op == 'and':
            r = [y for x in f.args[0] for y in flatten(x)]
        elif f.op == 'not' and f.args[0].op == 'or':
            r = [y for x in f.args[0].args[0] for y in flatten(tm.not_(x))]
        else:
            r = [f]
        _flat[f.id] = r
    return r


_fsets = {}


def fact_set(facts):
    r = _fsets.get(facts)
    if r is None:
        r = _fsets[facts] = frozenset(g.id for f in facts for g in flatten(f)) | frozenset(f.id for f in facts)
        if len(_fsets) > 20000:
            _fsets.clear()
    return r


_memo = {}


def forms(f, pos):
    key = (f.id, pos)
    if key in _memo:
        return _memo[key]
    r = []
    if f.op == 'not':
        r = forms(f.args[0], not pos)
    elif f.op == 'and' and pos:
        for x in f.args[0]:
            r = r + forms(x, True)
    elif f.op == 'or' and not pos:
        for x in f.args[0]:
            r = r + forms(x, False)
    elif f.op == 'cmp' and f.args[1].kind in ('int', 'float', 'bool', 'any') and f.args[2].kind in ('int', 'float', 'bool', 'any') \
            and f.args[1].op not in ('str', 'none') and f.args[2].op not in ('str', 'none'):
        op, a, b = f.args
        i = is_int(a) and is_int(b)
        one = tm.const(1)
        ts = []
        if pos:
            if op == '<':
                ts = [tm.sub(tm.sub(b, a), one) if i else tm.sub(b, a)]
            elif op == '<=':
                ts = [tm.sub(b, a)]
            elif op == '==':
                ts = [tm.sub(b, a), tm.sub(a, b)]
        else:
            if op == '<':
                ts = [tm.sub(a, b)]
            elif op == '<=':
                ts = [tm.sub(tm.sub(a, b), one) if i else tm.sub(a, b)]
        for t in ts:
            l = lin(t)
            if l is not None and l[0]:
                r.append(l)
    _memo[key] = r
    return r


def minmax_in(co):
    """the first monomial that is a lone minimum or maximum"""
    for m, v in co.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'fn' and m[0][0].args[0] in ('min2', 'max2'):
            return m, v, m[0][0]
    return None


def replace(d, m, v, x):
    """the form d with monomial m (coefficient v) replaced by term x"""
    l = lin(x)
    if l is None:
        return None
    n = dict(d[0])
    del n[m]
    for k, y in l[0].items():
        z = n.get(k, 0) + v * y
        if z:
            n[k] = z
        else:
            n.pop(k, None)
    return n, d[1] + v * l[1]


def prove(d, fs, depth=3):
    """prove_ge with case distinctions on minima and maxima of the goal"""
    if prove_ge(d, fs):
        return True
    if depth == 0:
        return False
    r = minmax_in(d[0])
    if r is None:
        return False
    m, v, t = r
    a, b = t.args[1:]
    da, db = replace(d, m, v, a), replace(d, m, v, b)
    if da is None or db is None:
        return False
    if (t.args[0] == 'min2') == (v > 0):
        lo, hi = (a, b)
        ab, ba = lin(tm.sub(b, a)), lin(tm.sub(a, b))
        if t.args[0] == 'max2':
            ab, ba = ba, ab
        ex = lambda l: [l] if l is not None and l[0] else []
        return prove(da, fs + ex(ab), depth - 1) and prove(db, fs + ex(ba), depth - 1)
    return prove(da, fs, depth - 1) or prove(db, fs, depth - 1)


def prove_ge(d, fs, depth=4):
    """is the linear form d >= 0 implied by the forms fs >= 0 ?"""
    co, c = d
    neg = [m for m, v in co.items() if (v < 0 and nonneg_atom(m)) or not nonneg_atom(m)]
    if c >= 0 and not neg:
        return True
    if depth == 0:
        return False
    if not neg:
        neg = list(co)
    tried = 0
    # eliminate an offending monomial with a fact that bounds it
    for m in neg[:3]:
        v = co[m]
        for f in fs:
            fv = f[0].get(m)
            if fv is None or (fv > 0) != (v > 0):
                continue
            lam = v / fv
            n = dict(co)
            for k, x in f[0].items():
                y = n.get(k, 0) - lam * x
                if y:
                    n[k] = y
                else:
                    n.pop(k, None)
            if len(n) > len(co) + 2:
                continue
            tried += 1
            if tried > 24:
                return False
            if prove_ge((n, c - lam * f[1]), fs, depth - 1):
                return True
    return False


def expand_minmax(t, facts):
    return t


def decide(c, facts, forms_=None):
    """TRUE/FALSE when the facts settle the condition, else None"""
    if c is TRUE or c is FALSE:
        return c
    ids = fact_set(facts)
    if c.id in ids:
        return TRUE
    if tm.not_(c).id in ids:
        return FALSE
    fs = forms_ if forms_ is not None else fact_forms(facts)
    return _decide(c, facts, fs)


def _decide(c, facts, fs):
    if c is TRUE or c is FALSE:
        return c
    if c.id in fact_set(facts):
        return TRUE
    if c.op == 'not':
        r = _decide(c.args[0], facts, fs)
        return None if r is None else tm.not_(r)
    if c.op == 'and':
        rs = [_decide(x, facts, fs) for x in c.args[0]]
        if any(r is FALSE for r in rs):
            return FALSE
        return TRUE if all(r is TRUE for r in rs) else None
    if c.op == 'or':
        rs = [_decide(x, facts, fs) for x in c.args[0]]
        if any(r is TRUE for r in rs):
            return TRUE
        return FALSE if all(r is FALSE for r in rs) else None
    if c.op == 'cmp':
        if tm.not_(c).id in fact_set(facts):
            return FALSE
        op, a, b = c.args
        if a.op in ('str', 'none') or b.op in ('str', 'none') or a.kind in ('str', 'none', 'complex') or b.kind in ('str', 'none', 'complex'):
            return None
        i = is_int(a) and is_int(b)
        one = tm.const(1)
        ab, ba = tm.sub(a, b), tm.sub(b, a)
        if op == '<':
            l = lin(tm.sub(ba, one) if i else None) if i else None
            if l and prove(l, fs):
                return TRUE
            l = lin(ab)
            if l and prove(l, fs):
                return FALSE
            return None
        if op == '<=':
            l = lin(ba)
            if l and prove(l, fs):
                return TRUE
            l = lin(tm.sub(ab, one)) if i else None
            if l and prove(l, fs):
                return FALSE
            return None
        if op == '==':
            if i:
                for x in (ab, ba):
                    l = lin(tm.sub(x, one))
                    if l and prove(l, fs):
                        return FALSE
            l1, l2 = lin(ab), lin(ba)
            if l1 and l2 and prove(l1, fs, 3) and prove(l2, fs, 3):
                return TRUE
    return None


def simp(t, facts, rw=None, memo=None):
    """simplify under facts, descending into branches with their conditions; rw(term, facts) may rewrite leaves"""
    if memo is None:
        memo = {}
    key = (t.id, facts)
    r = memo.get(key)
    if r is not None:
        return r
    r = _simp(t, facts, rw, memo)
    memo[key] = r
    return r


def _simp(t, facts, rw, memo):
    op, a = t.op, t.args
    if rw is not None:
        r = rw(t, facts)
        if r is not None:
            return r
    if op in ('const', 'sym', 'nan', 'inf', 'pi', 'imag', 'none', 'str'):
        return t
    if op == 'ite':
        if any(f is a[0] for f in facts):
            return simp(a[1], facts, rw, memo)
        c = simp(a[0], facts, rw, memo)
        d = decide(c, facts)
        if d is TRUE:
            return simp(a[1], facts, rw, memo)
        if d is FALSE:
            return simp(a[2], facts, rw, memo)
        return tm.ite(c, simp(a[1], facts + (c,), rw, memo), simp(a[2], facts + (tm.not_(c),), rw, memo))
    if op in ('cmp', 'not', 'and', 'or'):
        if any(f is t for f in facts):
            return tm.TRUE
        r = tm.rebuild(t, lambda x: simp(x, facts, rw, memo))
        d = decide(r, facts)
        return r if d is None else d
    if op in ('sum', 'any', 'first', 'last'):
        lo, hi = simp(a[1], facts, rw, memo), simp(a[2], facts, rw, memo)
        j = a[0]
        inner = tuple(f for f in facts if j not in f.fb) + (tm.cmp('<=', lo, j), tm.cmp('<', j, hi)) if j not in lo.fb and j not in hi.fb else tuple(f for f in facts if j not in f.fb)
        b = simp(a[3], inner, rw, memo)
        return tm.rebuild(tm.mk(op, j, lo, hi, b, kind=t.kind), lambda x: x)
    if op == 'lam':
        n = simp(a[1], facts, rw, memo)
        j = a[0]
        inner = tuple(f for f in facts if j not in f.fb)
        if j not in n.fb:
            inner += (tm.cmp('<=', tm.ZERO, j), tm.cmp('<', j, n))
        return tm.mk('lam', j, n, simp(a[2], inner, rw, memo), kind=t.kind)
    if op == 'nth':
        j = a[0]
        inner = tuple(f for f in facts if j not in f.fb)
        return tm.mk('nth', j, simp(a[1], facts, rw, memo), simp(a[2], inner, rw, memo), simp(a[3], facts, rw, memo), kind=t.kind)
    if op == 'fold':
        return t if rw is None else rwfold(t, facts, rw, memo)
    return tm.rebuild(t, lambda x: simp(x, facts, rw, memo))


def rwfold(t, facts, rw, memo):
    return t
