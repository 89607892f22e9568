"""Recursion on constants: the arguments known at each call of a function are propagated along the call graph of its module
(one copy of a function per argument combination); a combination that certainly leads back to itself never returns."""
import ast


class Top:
    def __repr__(self):
        return '?'


TOP = Top()
BIN = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
       ast.Div: lambda a, b: a / b, ast.Pow: lambda a, b: a ** b if abs(a) < 100 and abs(b) < 10 else None}
CMP = {ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b, ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b, ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b}
CALLS = {'sum': sum, 'len': len, 'min': min, 'max': max, 'abs': abs, 'int': int, 'bool': bool, 'list': tuple, 'tuple': tuple}
ARRAY = {'sum': sum, 'max': max, 'min': min, 'abs': abs}


def known(v):
    return v is not TOP and not (isinstance(v, tuple) and not all(known(x) for x in v))


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b and b + '.' + e.attr


class Walk:
    """the calls a function makes when entered with env: (function name, args, keywords, line, certain)"""

    def __init__(self, fns):
        self.fns, self.calls = fns, []

    def ev(self, e, env, must):
        """value of e, recording calls"""
        if isinstance(e, ast.Constant):
            return e.value if isinstance(e.value, (int, float, bool, str)) or e.value is None else TOP
        if isinstance(e, ast.Name):
            return env.get(e.id, TOP)
        if isinstance(e, (ast.List, ast.Tuple)):
            r = tuple(self.ev(x, env, must) for x in e.elts)
            return TOP if any(isinstance(x, ast.Starred) for x in e.elts) else r
        try:
            if isinstance(e, ast.BinOp):
                a, b = self.ev(e.left, env, must), self.ev(e.right, env, must)
                f = BIN.get(type(e.op))
                if f is None or not known(a) or not known(b):
                    return TOP
                r = f(a, b)
                return TOP if r is None else r
            if isinstance(e, ast.UnaryOp):
                a = self.ev(e.operand, env, must)
                if not known(a):
                    return TOP
                return not a if isinstance(e.op, ast.Not) else -a if isinstance(e.op, ast.USub) else +a if isinstance(e.op, ast.UAdd) else TOP
            if isinstance(e, ast.Compare):
                l = self.ev(e.left, env, must)
                out = True
                for o, c in zip(e.ops, e.comparators):
                    r = self.ev(c, env, must and out is True and c is e.comparators[0])
                    f = CMP.get(type(o))
                    v = f(l, r) if f and known(l) and known(r) else TOP
                    if v is False:
                        return False
                    out = out if v is True else TOP
                    l = r
                return out
            if isinstance(e, ast.BoolOp):
                stop = isinstance(e.op, ast.Or)
                sure, r = must, not stop
                for x in e.values:
                    v = self.ev(x, env, sure)
                    if not known(v):
                        sure, r = False, TOP
                    elif bool(v) == stop:
                        return v if r is not TOP else TOP
                    elif r is not TOP:
                        r = v
                return r
            if isinstance(e, ast.IfExp):
                t = self.ev(e.test, env, must)
                if known(t):
                    return self.ev(e.body if t else e.orelse, env, must)
                self.ev(e.body, env, False)
                self.ev(e.orelse, env, False)
                return TOP
            if isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice):
                a, i = self.ev(e.value, env, must), self.ev(e.slice, env, must)
                return a[i] if isinstance(a, tuple) and isinstance(i, int) else TOP
            if isinstance(e, ast.Call):
                args = [self.ev(a.value if isinstance(a, ast.Starred) else a, env, must) for a in e.args]
                kws = {k.arg: self.ev(k.value, env, must) for k in e.keywords}
                d = dotted(e.func)
                if not isinstance(e.func, ast.Name):
                    self.ev(e.func, env, must)
                if d in self.fns and d not in env:
                    if any(isinstance(a, ast.Starred) for a in e.args) or None in kws:
                        args, kws = [], {}
                        self.calls.append((d, None, None, e.lineno, False))
                    else:
                        self.calls.append((d, args, kws, e.lineno, must))
                    return TOP
                f = CALLS.get(d) or (ARRAY.get(d.split('.', 1)[1]) if d and d.split('.', 1)[0] in ('np', 'numpy') and '.' in d else None)
                if f and d not in env and not kws and args and all(known(a) for a in args):
                    return f(*args)
                return TOP
        except Exception:
            return TOP
        if isinstance(e, ast.Lambda):
            inner = {k: v for k, v in env.items() if k not in {a.arg for a in e.args.args}}
            inner.update({a.arg: TOP for a in e.args.args})
            self.ev(e.body, inner, False)
            return TOP
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            inner = dict(env)
            for n in ast.walk(e):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    inner[n.id] = TOP
            for n in ast.iter_child_nodes(e):
                self.any(n, inner)
            return TOP
        for n in ast.iter_child_nodes(e):
            if isinstance(n, ast.expr):
                self.ev(n, env, must)
        return TOP

    def any(self, n, env):
        """calls somewhere in n, made or not"""
        if isinstance(n, ast.expr):
            self.ev(n, env, False)
        else:
            for c in ast.iter_child_nodes(n):
                self.any(c, env)

    def block(self, body, env, must):
        """'on', 'left' or 'maybe' left; env is updated"""
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                env.pop(s.name, None)
                continue
            if isinstance(s, ast.Return):
                if s.value is not None:
                    self.ev(s.value, env, must)
                return 'left'
            if isinstance(s, ast.Raise):
                return 'left'
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                env[s.targets[0].id] = self.ev(s.value, env, must)
                continue
            if isinstance(s, ast.If):
                t = self.ev(s.test, env, must)
                if known(t):
                    r = self.block(s.body if t else s.orelse, env, must)
                else:
                    a, b = dict(env), dict(env)
                    x, y = self.block(s.body, a, False), self.block(s.orelse, b, False)
                    both = [v for v, z in ((a, x), (b, y)) if z != 'left'] or [a]
                    for k in set(a) | set(b):
                        v = [m.get(k, TOP) for m in both]
                        env[k] = v[0] if all(w == v[0] and w is not TOP for w in v) else TOP
                    r = 'left' if x == y == 'left' else 'on' if x == y == 'on' else 'maybe'
                if r == 'left':
                    return r
                if r == 'maybe':
                    must = False
                    self.hurt = True
                continue
            for n in ast.walk(s):       # whatever the statement may assign is unknown from here
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    env[n.id] = TOP
                elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    b = n.value
                    while isinstance(b, (ast.Subscript, ast.Attribute)):
                        b = b.value
                    if isinstance(b, ast.Name):
                        env[b.id] = TOP
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in env:
                    env[n.func.value.id] = TOP
            if isinstance(s, (ast.Expr, ast.AugAssign, ast.Assign, ast.AnnAssign)):
                if s.value is not None:
                    self.ev(s.value, env, must)
                continue
            self.any(s, env)
            if any(isinstance(n, (ast.Return, ast.Raise, ast.Break, ast.Continue, ast.Assert)) for n in ast.walk(s)):
                must = False
        return 'on' if must or not getattr(self, 'hurt', False) else 'maybe'


def hashable(v):
    return v if v is TOP or not isinstance(v, tuple) else tuple(hashable(x) for x in v)


def analyse(tree, cap=600):
    """[(line, function, text)] for argument combinations that come back to themselves"""
    fns, twice = {}, set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            if n.name in fns:
                twice.add(n.name)
            fns[n.name] = n
    fns = {k: v for k, v in fns.items() if k not in twice and not v.decorator_list and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(v))}
    edges, todo = {}, []

    def enter(name, args, kws):
        a = fns[name].args
        ps = [x.arg for x in a.posonlyargs + a.args]
        env = {p: TOP for p in ps + [x.arg for x in a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]}
        if args is not None:
            w = Walk({})
            for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
                env[p] = w.ev(d, {}, True)
            for p, d in zip([x.arg for x in a.kwonlyargs], a.kw_defaults):
                if d is not None:
                    env[p] = w.ev(d, {}, True)
            for p, v in zip(ps, args):
                env[p] = v
            for k, v in kws.items():
                if k in env:
                    env[k] = v
        return name, tuple(sorted((k, hashable(v)) for k, v in env.items()))
    for f in fns:
        todo.append(enter(f, None, None))
    while todo and len(edges) < cap:
        st = todo.pop(0)
        if st in edges:
            continue
        w = Walk(fns)
        w.block(fns[st[0]].body, dict(st[1]), True)
        edges[st] = out = []
        for d, args, kws, line, sure in w.calls:
            to = enter(d, args, kws)
            out.append((to, line, sure))
            todo.append(to)
    bad = []
    for st in edges:
        # certain steps only
        seen, front = {}, [(to, line) for to, line, sure in edges[st] if sure]
        hit = None
        while front and hit is None:
            to, line = front.pop()
            if to == st:
                hit = line
            elif to not in seen and to in edges:
                seen[to] = line
                front += [(t, l) for t, l, sure in edges[to] if sure]
        if hit is not None:
            vals = ', '.join('%s=%s' % (k, list(v) if isinstance(v, tuple) else v) for k, v in st[1] if v is not TOP)
            bad.append((hit, st[0], 'calls itself for ever%s' % (' once ' + vals if vals else '')))
    return bad
