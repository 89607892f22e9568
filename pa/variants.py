"""For every loop and recursion: a measure each path advances, or the path that does not."""
import ast
from .progress import Exec, Lin, State, Many, dotted, atoms_of, vars_of, kinds_of

INFINITE = {'count', 'cycle', 'repeat'}
GROW = {'append', 'extend', 'insert', 'add', 'update', 'appendleft'}


def assigned(node):
    """names a loop may change (also through methods and item stores)"""
    r = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            r |= {x.id, '#' + x.id}
        elif isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)):
            b = x
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name):
                r.add(b.id)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.attr in GROW | {'pop', 'popleft', 'popitem', 'remove', 'clear', 'discard', 'sort'}:
            r |= {x.func.value.id, '#' + x.func.value.id}
    return r


def unclamp(l, strict):
    """min(A, B) - M < 0 is A - M < 0 when B >= M; trivially true (no exit) when B < M or B == M and not strict. None: says nothing"""
    for a, k in list(l.t.items()):
        if k > 0 and a[0] == 'min' or k < 0 and a[0] == 'max':
            rest = Lin({x: v for x, v in l.t.items() if x != a}, l.c)
            keep, free = [], False
            for x in a[1:]:
                v = (x.scale(k) + rest)
                c = v.const()
                if c is None:
                    keep.append(v)
                elif c < 0 or c == 0 and not strict:
                    free = True
            if free:
                return 'trivial'
            if len(keep) == 1:
                return unclamp(keep[0], strict)
    return l


class Path:
    def __init__(self, s, ch):
        self.s = s
        self.bounds = []
        self.trivial = []
        for c in s.conds:
            b = c.bound()
            if b is None:
                continue
            u = unclamp(*b)
            if u == 'trivial':
                self.trivial.append(c)
                continue
            self.bounds.append((c, u, b[1]))

    def end(self, name):
        v = self.s.env.get(name)
        return Lin.atom(('v', name)) if v is None else v


def measure(l, ch):
    """the part of a bound that the loop changes: {var: coef}, or None if it is not linear in changed variables"""
    v = {}
    for a, k in l.t.items():
        if a[0] == 'v' and a[1] in ch:
            v[a[1]] = k
        elif any(x[0] == 'v' and x[1] in ch or x[0] == 'fresh' for x in atoms_of(a)):
            return None
    return v or None


def delta(m, p):
    """how a measure moves over a path: ('by', Lin), ('times', k), ('half',) or None"""
    d = Lin()
    for n, k in m.items():
        d = d + p.end(n).scale(k) - Lin({('v', n): k})
    if d.const() is not None:
        return ('by', d.c)
    if len(m) == 1:
        (n, k), = m.items()
        e = p.end(n)
        for _ in range(2):
            if not e.c and len(e.t) == 1:
                (a, f), = e.t.items()
                if a == ('v', n):
                    return ('times', f)
                if a[0] in ('min', 'max') and f == 1:
                    c = [x for x in a[1:] if ('v', n) in x.t]
                    if len(c) == 1:
                        e = c[0]
                        continue
                if a[0] == 'op' and a[1] == 'FloorDiv' and a[2] == Lin.atom(('v', n)) and a[3].const() and a[3].c > 1 and f == 1:
                    return ('times', 1 / a[3].c)
            break
        # v = min(v + 1, M) and the like
        if len(e.t) == 1 and not e.c:
            (a, f), = e.t.items()
            if a[0] in ('min', 'max') and f == 1:
                c = [x - Lin.atom(('v', n)) for x in a[1:] if ('v', n) in x.t]
                if len(c) == 1 and c[0].const() is not None:
                    return ('by', c[0].c * k)
        # v + something
        if e.t.get(('v', n)) == 1 and len(e.t) == 1:
            return ('by', e.c * k)
    if len(m) == 2:
        # interval halving: lo = mid (+1), hi = mid (-1)
        up = [n for n, k in m.items() if k > 0]
        dn = [n for n, k in m.items() if k < 0]
        if len(up) == 1 and len(dn) == 1 and m[up[0]] == -m[dn[0]]:
            lo, hi = up[0], dn[0]
            el, eh = p.end(lo), p.end(hi)
            vl, vh = Lin.atom(('v', lo)), Lin.atom(('v', hi))
            mid = (vl + vh)
            fl = Lin.atom(('op', 'FloorDiv', mid, Lin(c=2)))
            fl2 = vl + Lin.atom(('op', 'FloorDiv', vh - vl, Lin(c=2)))
            half = mid.scale(__import__('fractions').Fraction(1, 2))
            fint = Lin.atom(('call', 'int', half))
            if eh == vh and el == half or el == vl and eh == half:
                return ('half',)
            for f in (fl, fl2, fint):
                if eh == vh and (el - f).const() is not None:
                    return ('by', 1) if (el - f).c >= 1 else ('by', 0)
                if el == vl and (eh - f).const() is not None:
                    return ('by', 1) if (eh - f).c <= 0 else None
    return None


def good(d, m):
    if d is None:
        return False
    if d[0] == 'by':
        return d[1] > 0
    if d[0] == 'half':
        return True
    if d[0] == 'times':
        (n, k), = m.items()
        return d[1] > 1 if k > 0 else 0 < d[1] < 1
    return False


class Loop:
    def __init__(self, fn, node, path, before):
        self.fn, self.node, self.path, self.before = fn, node, path, before


def loops_of(tree):
    """every loop with its innermost function (None at module level)"""
    out = []

    def go(n, fn, top):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                go(c, c, c if top is None else top)
            else:
                if isinstance(c, (ast.For, ast.While)):
                    out.append((c, fn))
                elif isinstance(c, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                    out.append((c, fn))
                go(c, fn, top)
    go(tree, None, None)
    return out


def params(fn):
    if fn is None:
        return []
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


def callbacks(fn):
    if fn is None:
        return set()
    ps = set(params(fn))
    r = {dotted(c.func).split('.')[0] for c in ast.walk(fn) if isinstance(c, ast.Call) and dotted(c.func)} & ps
    for st in ast.walk(fn):
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Lambda) and any(isinstance(x, ast.Name) and x.id in ps for x in ast.walk(st.value)):
            r |= {t.id for t in st.targets if isinstance(t, ast.Name)}
        if isinstance(st, ast.FunctionDef) and st is not fn and any(isinstance(x, ast.Call) and dotted(x.func) and dotted(x.func).split('.')[0] in r for x in ast.walk(st)):
            r.add(st.name)
    return r


def initial(fn, loop, name):
    """the last straight-line value given to a name before the loop"""
    last = None
    for st in ast.walk(fn) if fn is not None else ():
        if isinstance(st, ast.Assign) and st.lineno < loop.lineno:
            for t in st.targets:
                if isinstance(t, ast.Name) and t.id == name:
                    last = st.value
                elif isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple) and len(t.elts) == len(st.value.elts):
                    for a, b in zip(t.elts, st.value.elts):
                        if isinstance(a, ast.Name) and a.id == name:
                            last = b
    return last


def for_loop(node, fn):
    """(verdict, text)"""
    gens = [(node.target, node.iter)] if isinstance(node, ast.For) else [(g.target, g.iter) for g in node.generators]
    for t, it in gens:
        inf = infinite(it)
        if inf and isinstance(node, ast.For):
            return while_loop(node, fn, counter=t if isinstance(t, ast.Name) else None, what=inf)
        if inf and not isinstance(node, ast.GeneratorExp):
            return 'violated', '%s never ends' % inf
        if isinstance(node, ast.For) and isinstance(it, ast.Name):
            for x in body_walk(node.body):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in GROW - {'update', 'add'} and isinstance(x.func.value, ast.Name) and x.func.value.id == it.id:
                    if not exits(node.body):
                        return 'violated', 'the loop lengthens %s while it walks it (line %d)' % (it.id, x.lineno)
    return 'holds', 'walks %s, fixed when the loop starts' % ', '.join(ast.unparse(i)[:60] for t, i in gens)


def exits(body):
    return any(isinstance(x, (ast.Break, ast.Return, ast.Raise)) for x in body_walk(body))


def body_walk(body):
    for b in body:
        yield from ast.walk(b)


def infinite(it):
    if isinstance(it, ast.Call):
        n = dotted(it.func) or ''
        l = n.rsplit('.', 1)[-1]
        if l in ('count', 'cycle') and (n.startswith('itertools.') or n == l):
            return ast.unparse(it)
        if l == 'repeat' and (n == 'itertools.repeat' or n == 'repeat') and len(it.args) == 1 and not it.keywords:
            return ast.unparse(it)
        if n == 'iter' and len(it.args) == 2:
            return ast.unparse(it)
        if l in ('enumerate', 'map', 'filter', 'islice', 'takewhile') and l in ('enumerate', 'map'):
            return next((infinite(a) for a in it.args if infinite(a)), None)
        if l == 'zip':
            r = [infinite(a) for a in it.args]
            return r[0] if r and all(r) else None
    return None


def while_loop(node, fn, counter=None, what=None):
    ps = params(fn)
    ex = Exec(ps, None, callbacks=callbacks(fn))
    ex.lens = {'#' + x.func.value.id for x in ast.walk(node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name)
               and x.func.attr in GROW | {'pop', 'popleft', 'popitem', 'remove'}}
    ex.draws = {}
    ch = assigned(node)
    test = node.test if isinstance(node, ast.While) else ast.Constant(value=True)
    try:
        starts = [n for n, b in ex.branch(test, State()) if b]
        raw = []
        for s in starts:
            raw += ex.block(node.body, s)
        paths = []
        for status, s in raw:
            if status not in ('fall', 'continue'):
                continue
            if isinstance(node, ast.While):
                t, f = ex.split(test, s.copy())
                if all(any(c.value() is False for c in cs) for cs in t):
                    continue
                # contradiction with facts that still hold on unchanged values
            if counter is not None:
                s.env[counter.id] = Lin.atom(('v', counter.id)) + Lin(c=1)
            paths.append(Path(s, ch))
    except Many:
        return 'undecided', 'too many paths through the body'
    npaths = len(paths)
    if not paths:
        return 'holds', 'every path through the body leaves the loop'
    leaves = any(st in ('break', 'exit', 'raise') for st, s in raw)
    if isinstance(test, ast.Constant) and test.value and not leaves:
        return 'violated', 'no path leaves the loop'
    # --- candidates
    seen = set()
    cands = []
    for p in paths:
        for c, l, strict in p.bounds:
            m = measure(l, ch)
            if m is not None:
                k = tuple(sorted(m.items()))
                if k not in seen:
                    seen.add(k)
                    cands.append(m)
    best = None
    for m in cands:
        bad = []
        kinds = set()
        for p in paths:
            has = any(measure(l, ch) == m for c, l, st in p.bounds)
            d = delta(m, p)
            if has and good(d, m):
                kinds.add(d[0])
                continue
            bad.append((p, has, d))
        name = ' + '.join('%s%s' % ('' if k == 1 else '-' if k == -1 else '%s*' % k, n.replace('#', 'len ')) for n, k in m.items())
        stall = [b for b in bad if not random_retry(b[0])]
        if not stall:
            if 'times' in kinds:
                (n, k), = m.items()
                iv = initial(fn, node, n)
                if isinstance(iv, ast.Constant) and isinstance(iv.value, (int, float)) and iv.value == 0 and k > 0:
                    return 'violated', '%s is multiplied from 0 and never grows' % name
            if bad:
                v = coverage(ex, fn, m, bad, paths, ch)
                if v:
                    return 'violated', v
                return 'holds', 'every path advances %s, or draws again at random' % name
            return 'holds', 'every path (%d) advances %s towards the limit it is tested against' % (npaths, name)
        if best is None or len(stall) < len(best[1]):
            best = (m, stall, name, len(paths))
    # --- no measure: is there a definite reason?
    for p in paths:
        if random_retry(p):
            continue
        if stutter(p, ch):
            return 'violated', 'a path through the body (%s) changes nothing its tests read, so it repeats for ever' % where(p)
    if best is not None:
        m, stall, name, n = best
        ds = [delta(m, p) for p in paths]
        if all(d is not None and d[0] == 'by' for d in ds) and (any(d[1] > 0 for d in ds) or all(d[1] <= 0 for d in ds)):
            untested = [b for b in stall if not b[1] and b[2][1] > 0]
            still = [b for b in stall if b[2][1] <= 0]
            if still:
                p = still[0][0]
                if all(d[1] <= 0 for d in ds) and any(x is None for x in (delta(measure(l, ch), q) if measure(l, ch) else None for q in paths for c, l, s in q.bounds)):
                    pass
                else:
                    return 'violated', '%s does not advance on the path %s' % (name, where(p))
            if untested and not still:
                p = untested[0][0]
                eqs = [c for c in p.s.conds if c.op == '==' and c.neg]
                return 'violated', '%s advances but the path %s repeats without testing it against a limit' % (name, where(p))
    if best is not None:
        m, stall, name, n = best
        if any(b[2] is not None and b[2][0] == 'times' for b in stall):
            return 'violated', '%s is multiplied by a factor that does not take it to its limit (%s)' % (name, where(stall[0][0]))
    triv = [c for p in paths for c in p.trivial]
    if triv and best is None and not any(measure(l, ch) for p in paths for c, l, s in p.bounds):
        return 'violated', 'the test on line %d can never leave the loop: the quantity is clamped at the limit' % triv[0].line
    v = equality(ex, fn, node, paths, ch)
    if v:
        return v
    if callback_only(node, fn, ex, paths, ch):
        return 'violated', 'no counter bounds the loop: every test that leaves it depends on values of a function the caller passes'
    return 'undecided', 'no measure found (%d paths)' % npaths


def where(p):
    ls = []
    for c in p.s.conds:
        if c.line and c.line not in ls:
            ls.append(c.line)
    return 'with tests on lines ' + ', '.join(map(str, ls)) if ls else 'straight through'


def random_retry(p):
    return any('random' in kinds_of(c.l) or c.x is not None and 'random' in kinds_of(c.x) for c in p.s.conds)


def stutter(p, ch):
    """no value that a test on the path reads has changed when the path ends"""
    vs = set()
    for c in p.s.conds:
        for x in (c.l, c.x):
            if x is None:
                continue
            if kinds_of(x):
                return False
            vs |= vars_of(x)
    for v in vs:
        e = p.s.env.get(v)
        if e is not None and e != Lin.atom(('v', v)):
            return False
    return True


def equality(ex, fn, node, paths, ch):
    """counter compared with != only: right only if it starts at or below the limit and hits it exactly"""
    for p in paths:
        if not any(c.op == '==' and c.neg and measure(c.l, ch) for c in p.s.conds):
            return None
    names = {}
    for p in paths:
        for c in p.s.conds:
            if c.op == '==' and c.neg:
                m = measure(c.l, ch)
                if m and len(m) == 1:
                    (n, k), = m.items()
                    d = delta({n: 1}, p)
                    names.setdefault(n, []).append((c, d, k))
    for n, l in names.items():
        if len(l) != len(paths) or any(d is None or d[0] != 'by' for c, d, k in l):
            continue
        if any(d[1] == 0 for c, d, k in l):
            return 'violated', '%s does not advance on every path' % n
        if {abs(d[1]) for c, d, k in l} != {1} or len({d[1] for c, d, k in l}) != 1:
            return 'violated', '%s is only compared for equality and may step over its limit' % n
        c, d, k = l[0]
        lim = c.l.scale(-1 / k) + Lin.atom(('v', n))
        vs = vars_of(lim)
        iv = initial(fn, node, n)
        raw = []
        for v in vs:
            w = v
            for _ in range(4):
                if w in params(fn):
                    raw.append(v)
                    break
                iw = initial(fn, node, w)
                if not isinstance(iw, ast.Name):
                    break
                w = iw.id
        alias = raw + [w for v in raw for iw in [initial(fn, node, v)] if isinstance(iw, ast.Name) for w in [iw.id]]
        if raw and not any(v.startswith('#') for v in vs) and isinstance(iv, ast.Constant) and not guarded(fn, node, alias) and lim == Lin({('v', raw[0]): 1}, lim.c):
            return 'violated', '%s is only compared for equality with %s, which no check keeps at or above its start' % (n, raw[0])
        return 'holds', '%s moves by one to the value it is compared with' % n
    return None


def guarded(fn, node, names):
    for st in ast.walk(fn):
        if isinstance(st, ast.If) and st.lineno < node.lineno and any(isinstance(x, ast.Raise) for x in st.body):
            if any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(st.test)):
                return True
    return False


def callback_only(node, fn, ex, paths, ch):
    """every exit test reads only values that callback results control or compute"""
    if not any(isinstance(c, ast.Call) and (dotted(c.func) or '').split('.')[0] in ex.callbacks for c in ast.walk(node)):
        return False
    for p in paths:
        if any(measure(l, ch) for c, l, s in p.bounds):
            for c, l, s in p.bounds:
                m = measure(l, ch)
                if m and (delta(m, p) or ('by', 0))[0] == 'by' and (delta(m, p) or ('by', 0))[1] > 0:
                    return False
    return True


def coverage(ex, fn, m, bad, paths, ch):
    """random retry: the draw must reach as many values as the limit can ask for"""
    for p, has, d in bad:
        ds = {a for c in p.s.conds for x in (c.l, c.x) if x is not None for a in atoms_of(x) if a[0] == 'fresh' and a[2] == 'random'}
        lim = None
        for q in paths:
            for c, l, s in q.bounds:
                if measure(l, ch) == m:
                    lim = l
        if lim is None:
            continue
        share = fraction_of(lim)
        if share is None:
            continue
        D, pct = share
        if not percent_checked(fn, pct):
            return 'the number of draws asked for is not checked to be at most the number of samples, so distinct draws may run out'
        for a in ds:
            lo, hi = ex.draws.get(a, (None, None))
            if lo is None or hi is None:
                continue
            c = (hi - lo - Lin.atom(D)).const()
            if c is not None and c < 0:
                return 'the draw reaches %s fewer values than the limit may ask for' % (-c)
        if not any(c.op == 'in' and not c.neg for c in p.s.conds):
            extra = [c for c in p.s.conds if c.op != 'in' and 'random' in kinds_of(c.l)]
            if extra:
                return 'draws are also rejected on line %d, so fewer values than the limit may ask for remain' % extra[0].line
    return None


def fraction_of(l):
    """the atoms D, p of int(D * p / 100) in a limit"""
    for a in atoms_of(l):
        if a[0] == 'op' and a[1] == 'Mult' and all(isinstance(x, Lin) and len(x.t) == 1 and not x.c for x in a[2:]):
            x, y = [next(iter(z.t)) for z in a[2:]]
            if x[0] == 'v' and y[0] == 'v':
                return (x, y) if not likely_percent(x[1]) else (y, x)
    return None


def likely_percent(n):
    return 'perc' in n.lower() or 'pct' in n.lower() or 'rate' in n.lower() or 'share' in n.lower()


def percent_checked(fn, p):
    from .progress import Exec
    if fn is None:
        return True
    n = p[1]
    for st in (x for t in [PARENT.get(fn, fn)] + OTHERS for x in ast.walk(t)):
        if isinstance(st, (ast.If, ast.Assert)):
            for c in ast.walk(st.test):
                if isinstance(c, ast.Compare) and any(isinstance(x, ast.Name) for x in ast.walk(c)) and any(isinstance(x, ast.Constant) and x.value == 100 for x in ast.walk(c)):
                    return True
    return False


PARENT = {}
OTHERS = []     # modules imported by the one under analysis, whose checks count too


# ---- recursion
def recursion(fn, name):
    """[(line, verdict, text)] for the direct recursive calls of a function"""
    ex = Exec(params(fn), name)
    ex.draws = {}
    try:
        ex.block(fn.body, State())
    except Many:
        return [(fn.lineno, 'undecided', 'too many paths')]
    if not ex.calls:
        return []
    ps = [a.arg for a in fn.args.posonlyargs + fn.args.args]
    sites = []
    lens = {}
    for e, conds, args, kws, s in ex.calls:
        b = dict(zip(ps, args))
        b.update({k: v for k, v in kws.items() if k})
        for q, v in b.items():
            if len(v.t) == 1 and next(iter(v.t))[0] == 'list':
                lens[q] = len(next(iter(v.t))) - 1
        hb = {}
        for q, a in list(zip(ps, e.args)) + [(k.arg, k.value) for k in e.keywords if k.arg]:
            hb['#' + q] = ex.length(a, s)
        b.update(hb)
        sites.append((e, conds, b))
    ms = []
    out = []
    verdicts = []
    for e, conds, b in sites:
        own = []
        state = 'none'
        for c in conds:
            for l, strict in ([c.bound()] if c.bound() else []):
                l = expand(l, lens)
                if any(True for a in atoms_of(l) if a[0] == 'fresh'):
                    state = 'unknown'
                    continue
                d = subst(l, b, lens) - l
                own.append((l, d, c))
            if c.bound() is None and (vars_of(c.l) or kinds_of(c.l)):
                l = expand(c.l, lens)
                d = subst(l, b, lens) - l
                if d.const() == 0:
                    own.append((l, d, c))
                elif c.op == '==' and c.neg and d.const() is not None and abs(d.c) == 1:
                    own.append((l, Lin(c=1), c))
                else:
                    state = 'unknown'
        up = [x for x in own if x[1].const() is not None and x[1].c > 0 or progress_mul(x[1], x[0])]
        if up:
            verdicts.append((e.lineno, 'holds', 'each call advances %s' % ast.unparse(e)[:60], {frozenset(x[0].t.items()) for x in up}))
        elif not conds:
            verdicts.append((e.lineno, 'violated', 'the function calls itself on every path', set()))
        elif state == 'none' and own and all(x[1].const() is not None for x in own):
            verdicts.append((e.lineno, 'violated', 'the call passes on values that do not approach the base case', set()))
        else:
            verdicts.append((e.lineno, 'undecided', 'no measure found', set()))
    if len(verdicts) > 1 and all(v[1] == 'holds' for v in verdicts) and not set.intersection(*[v[3] for v in verdicts]):
        return [(verdicts[0][0], 'undecided', 'the calls advance different measures')]
    seen = {}
    for l, v, t, m in verdicts:
        if (l, t) not in seen:
            seen[(l, t)] = v
    return [(l, v, t) for (l, t), v in seen.items()]


def progress_mul(d, l):
    return False


def expand(l, lens):
    """sum(s) of a parameter that is always a list of k becomes s[0] + ... + s[k-1]"""
    r = Lin(c=l.c)
    for a, k in l.t.items():
        if a[0] == 'call' and a[1] == 'sum' and isinstance(a[2], Lin) and len(a[2].t) == 1 and not a[2].c and next(iter(a[2].t))[0] == 'v' and next(iter(a[2].t))[1] in lens:
            for i in range(lens[next(iter(a[2].t))[1]]):
                r = r + Lin({('sub', a[2], i): k})
        else:
            r = r + Lin({a: k})
    return r


def subst(l, b, lens):
    r = Lin(c=l.c)
    for a, k in l.t.items():
        r = r + suba(a, b, lens).scale(k)
    return r


def suba(a, b, lens):
    if a[0] == 'v':
        return b.get(a[1], Lin.atom(a))
    if a[0] == 'sub' and isinstance(a[2], int):
        v = subst(a[1], b, lens)
        if len(v.t) == 1 and not v.c:
            x = next(iter(v.t))
            if x[0] == 'list' and a[2] < len(x) - 1:
                return x[1:][a[2]]
        return Lin.atom(('sub', v, a[2]))
    return Lin.atom(tuple(subst(x, b, lens) if isinstance(x, Lin) else x for x in a))


def functions(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield n


def analyse(tree):
    """[(kind, line, function, verdict, text)] over a module"""
    out = []
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            PARENT[n] = tree
    for node, fn in loops_of(tree):
        v, t = while_loop(node, fn) if isinstance(node, ast.While) else for_loop(node, fn)
        out.append(('loop', node.lineno, fn.name if fn else '<module>', v, t))
    for fn in functions(tree):
        for l, v, t in recursion(fn, fn.name):
            out.append(('recursion', l, fn.name, v, t))
    out += mutual(tree)
    from . import constrec
    out += [('recursion', l, f, 'violated', t) for l, f, t in constrec.analyse(tree)]
    return out


def mutual(tree):
    """cycles of calls between different functions of a module"""
    fs = {f.name: f for f in tree.body if isinstance(f, ast.FunctionDef)}
    g = {n: {dotted(c.func) for c in ast.walk(f) if isinstance(c, ast.Call) and dotted(c.func) in fs and dotted(c.func) != n} for n, f in fs.items()}
    out = []
    for n in g:
        seen, todo = set(), list(g[n])
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += g[x]
        if n in seen:
            out.append(('recursion', fs[n].lineno, n, 'undecided', 'calls itself through %s' % ', '.join(sorted(seen - {n}))))
    return out
