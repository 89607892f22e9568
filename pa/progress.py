"""Progress of loops and recursions: path summaries of a loop body over linear forms, and the search for a measure every path advances."""
import ast
from fractions import Fraction
import itertools

PURE = {'len', 'abs', 'min', 'max', 'int', 'float', 'bool', 'sum', 'range', 'round', 'sorted', 'list', 'tuple', 'set', 'isinstance', 'any', 'all', 'divmod', 'pow', 'str',
        'enumerate', 'zip', 'reversed', 'type', 'complex'}
IMPURE_ROOT = ('random',)
MAXPATHS = 6000


class Many(Exception):
    pass


class Lin:
    __slots__ = ('c', 't')

    def __init__(self, t=None, c=0):
        self.t = {k: v for k, v in (t or {}).items() if v}
        self.c = Fraction(c)

    @staticmethod
    def atom(a):
        return Lin({a: Fraction(1)})

    def __add__(self, o):
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + v
        return Lin(t, self.c + o.c)

    def scale(self, k):
        return Lin({a: v * k for a, v in self.t.items()}, self.c * k)

    def __sub__(self, o):
        return self + o.scale(-1)

    def const(self):
        return self.c if not self.t else None

    def key(self):
        return (tuple(sorted(self.t.items(), key=repr)), self.c)

    def __eq__(self, o):
        return isinstance(o, Lin) and self.t == o.t and self.c == o.c

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return ' + '.join(['%s*%s' % (v, k) for k, v in self.t.items()] + [str(self.c)])


def atoms_of(x):
    """every atom nested in a linear form or atom"""
    if isinstance(x, Lin):
        for a in x.t:
            yield from atoms_of(a)
    elif isinstance(x, tuple):
        yield x
        for y in x[1:]:
            if isinstance(y, (tuple, Lin)):
                yield from atoms_of(y)


def vars_of(x):
    return {a[1] for a in atoms_of(x) if a[0] == 'v'}


def kinds_of(x):
    return {a[2] for a in atoms_of(x) if a[0] == 'fresh'}


class Cond:
    """one atomic test: op in '<' '<=' '==' 'in' 'true', over values at the point of the test"""
    __slots__ = ('op', 'l', 'neg', 'line', 'x')

    def __init__(self, op, l, neg, line, x=None):
        self.op, self.l, self.neg, self.line, self.x = op, l, neg, line, x

    def key(self):
        return (self.op, self.l.key() if isinstance(self.l, Lin) else self.l, self.x.key() if isinstance(self.x, Lin) else self.x)

    def value(self):
        if self.op in ('<', '<=', '==', 'true'):
            c = self.l.const()
            if c is None:
                return None
            v = {'<': c < 0, '<=': c <= 0, '==': c == 0, 'true': c != 0}[self.op]
            return v != self.neg
        return None

    def bound(self):
        """L such that the test, as assumed, implies L < 0 (strict True) or L <= 0"""
        if self.op == '<':
            return (self.l, True) if not self.neg else (self.l.scale(-1), False)
        if self.op == '<=':
            return (self.l, False) if not self.neg else (self.l.scale(-1), True)
        if self.op == 'true' and not self.neg and len(self.l.t) == 1 and next(iter(self.l.t))[0] == 'v' and next(iter(self.l.t))[1].startswith('#'):
            return self.l.scale(-1), True
        return None


class State:
    __slots__ = ('env', 'conds', 'known')

    def __init__(self, env=None, conds=(), known=None):
        self.env, self.conds, self.known = env or {}, conds, known or {}

    def copy(self):
        return State(dict(self.env), self.conds, dict(self.known))


class Exec:
    def __init__(self, fn_params=(), self_name=None, funcs=(), callbacks=()):
        self.n = itertools.count()
        self.params = set(fn_params)
        self.callbacks = set(callbacks)
        self.self_name = self_name
        self.calls = []
        self.count = 0
        self.listlen = {}

    def fresh(self, kind):
        return Lin.atom(('fresh', next(self.n), kind))

    # ---- expressions
    def get(self, s, name):
        if name not in s.env:
            return Lin.atom(('v', name))
        return s.env[name]

    def ev(self, e, s):
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool):
                return Lin(c=int(e.value))
            if isinstance(e.value, (int, float)) and e.value == e.value and abs(e.value) < 1e300:
                return Lin(c=Fraction(e.value))
            return Lin.atom(('k', repr(e.value)))
        if isinstance(e, ast.Name):
            return self.get(s, e.id)
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, s)
            if isinstance(e.op, ast.USub):
                return v.scale(-1)
            if isinstance(e.op, ast.UAdd):
                return v
            if isinstance(e.op, ast.Not) and v.const() is not None:
                return Lin(c=int(v.c == 0))
            return Lin.atom(('op', type(e.op).__name__, v))
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, s), self.ev(e.right, s)
            if isinstance(e.op, ast.Add):
                return a + b
            if isinstance(e.op, ast.Sub):
                return a - b
            if isinstance(e.op, ast.Mult):
                if a.const() is not None:
                    return b.scale(a.c)
                if b.const() is not None:
                    return a.scale(b.c)
            if isinstance(e.op, ast.Div) and b.const():
                return a.scale(1 / b.c)
            if isinstance(e.op, ast.RShift) and b.const() is not None and b.c.denominator == 1 and 0 <= b.c < 60:
                return Lin.atom(('op', 'FloorDiv', a, Lin(c=2 ** int(b.c))))
            if isinstance(e.op, ast.Pow) and a.const() is not None and b.const() is not None and b.c.denominator == 1 and abs(b.c) < 60 and a.c:
                return Lin(c=a.c ** int(b.c))
            return Lin.atom(('op', type(e.op).__name__, a, b))
        if isinstance(e, ast.Attribute):
            if e.attr in ('size',) and isinstance(e.value, ast.Name):
                return self.get(s, '#' + e.value.id)
            v = self.ev(e.value, s)
            return Lin.atom(('attr', e.attr, v))
        if isinstance(e, ast.Subscript):
            if isinstance(e.value, ast.Attribute) and e.value.attr == 'shape' and isinstance(e.value.value, ast.Name) and isinstance(e.slice, ast.Constant) and e.slice.value == 0:
                return self.get(s, '#' + e.value.value.id)
            v = self.ev(e.value, s)
            if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int):
                if len(v.t) == 1 and not v.c:
                    a = next(iter(v.t))
                    if a[0] == 'list' and -len(a) < e.slice.value < len(a) - 1:
                        return a[1:][e.slice.value]
                return Lin.atom(('sub', v, e.slice.value))
            ks = [self.ev(x, s) for x in ast.walk(e.slice) if isinstance(x, (ast.Name,))]
            return Lin.atom(('sub', v, ast.dump(e.slice)) + tuple(ks))
        if isinstance(e, (ast.List, ast.Tuple)):
            return Lin.atom(('list',) + tuple(self.ev(x, s) for x in e.elts))
        if isinstance(e, ast.IfExp):
            t = self.split(e.test, s)
            if len(t) == 1:
                pass
            a, b = self.ev(e.body, s), self.ev(e.orelse, s)
            if a == b:
                return a
            return Lin.atom(('if', self.ev(e.test, s), a, b))
        if isinstance(e, ast.Compare) or isinstance(e, ast.BoolOp):
            ks = [self.ev(x, s) for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr)]
            return Lin.atom(('cmp', ast.dump(e)) + tuple(ks))
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, s)
            s.env[e.target.id] = v
            return v
        if isinstance(e, ast.Call):
            return self.call(e, s)
        if isinstance(e, ast.Starred):
            return self.ev(e.value, s)
        if isinstance(e, ast.Lambda):
            return Lin.atom(('lam', ast.dump(e)))
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x, s)
        names = sorted({x.id for x in ast.walk(e) if isinstance(x, ast.Name)})
        if any(isinstance(x, ast.Call) for x in ast.walk(e)):
            return self.fresh('call')
        return Lin.atom(('x', ast.dump(e)) + tuple(self.get(s, n) for n in names))

    def call(self, e, s):
        f = e.func
        args = [self.ev(a, s) for a in e.args]
        kws = [(k.arg, self.ev(k.value, s)) for k in e.keywords]
        name = dotted(f)
        if name is None:
            if isinstance(f, ast.Attribute):
                self.ev(f.value, s)
            return self.fresh('call')
        last = name.rsplit('.', 1)[-1]
        if self.self_name and name == self.self_name:
            self.calls.append((e, s.conds, args, dict(kws), s))
            return self.fresh('call')
        if 'random' in name.lower().split('.') or name.startswith('random') or last in ('randint', 'integers'):
            a = self.fresh('random')
            k = next(iter(a.t))
            lo, hi = None, None
            if last in ('randint', 'integers'):
                d = dict(kws)
                if len(args) == 1 and 'high' not in d:
                    lo, hi = Lin(), args[0]
                elif len(args) >= 2:
                    lo, hi = args[:2]
                elif 'high' in d:
                    lo, hi = (args[0] if args else d.get('low', Lin())), d['high']
            elif last in ('randrange',):
                lo, hi = (Lin(), args[0]) if len(args) == 1 else (args[0], args[1]) if len(args) > 1 else (None, None)
            self.draws = getattr(self, 'draws', {})
            self.draws[k] = (lo, hi)
            return a
        if name == 'len' and len(e.args) == 1:
            if isinstance(e.args[0], ast.Name):
                return self.get(s, '#' + e.args[0].id)
            x = e.args[0]
            if isinstance(x, ast.Call) and dotted(x.func) == 'range' and len(x.args) == 1:
                return self.ev(x.args[0], s)
            return Lin.atom(('call', 'len', args[0]))
        if last in ('minimum', 'fmin') and len(args) == 2 or name == 'min' and len(args) == 2:
            return Lin.atom(('min',) + tuple(sorted(args, key=repr)))
        if last in ('maximum', 'fmax') and len(args) == 2 or name == 'max' and len(args) == 2:
            return Lin.atom(('max',) + tuple(sorted(args, key=repr)))
        if last == 'size' and len(e.args) == 1 and isinstance(e.args[0], ast.Name):
            return self.get(s, '#' + e.args[0].id)
        if last == 'sum' and len(args) == 1 and not kws:
            v = args[0]
            if len(v.t) == 1 and not v.c:
                a = next(iter(v.t))
                if a[0] == 'list':
                    r = Lin()
                    for x in a[1:]:
                        r = r + x
                    return r
            return Lin.atom(('call', 'sum', v))
        if name in ('int', 'float') and len(args) == 1:
            if args[0].const() is not None and args[0].c.denominator == 1:
                return args[0]
            return Lin.atom(('call', name, args[0]))
        root = name.split('.')[0]
        if name in PURE or root in ('np', 'numpy', 'math', 'scipy', 'sp', 'special') and root not in self.params:
            return Lin.atom(('call', name) + tuple(args) + tuple(x for k in kws for x in (('k', k[0]), k[1])))
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            self.method(f.value.id, f.attr, args, s)
        if root in self.callbacks:
            return self.fresh('callback')
        return self.fresh('call')

    def method(self, obj, meth, args, s):
        h = '#' + obj
        if meth == 'append' or meth == 'insert' or meth == 'appendleft':
            s.env[h] = self.get(s, h) + Lin(c=1)
        elif meth in ('pop', 'popleft', 'popitem', 'remove'):
            s.env[h] = self.get(s, h) - Lin(c=1)
        elif meth == 'add':
            pass
        elif meth in ('extend', 'update', 'clear', 'discard', 'difference_update', 'union_update'):
            s.env[h] = self.fresh('call')
        if meth in ('append', 'insert', 'appendleft', 'pop', 'popleft', 'popitem', 'remove', 'add', 'extend', 'update', 'clear', 'sort', 'reverse', 'fill', 'resize', 'discard'):
            s.env[obj] = self.fresh('mut')

    # ---- conditions: split(test) -> (true alternatives, false alternatives), each a list of lists of Cond
    def split(self, e, s):
        if isinstance(e, ast.BoolOp):
            parts = [self.split(v, s) for v in e.values]
            if isinstance(e.op, ast.And):
                t = [[]]
                f = []
                for pt, pf in parts:
                    f += [a + b for a in t for b in pf]
                    t = [a + b for a in t for b in pt]
                return t, f
            f = [[]]
            t = []
            for pt, pf in parts:
                t += [a + b for a in f for b in pt]
                f = [a + b for a in f for b in pf]
            return t, f
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.split(e.operand, s)
            return f, t
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            vals = [e.left] + e.comparators
            return self.split(ast.BoolOp(op=ast.And(), values=[ast.copy_location(ast.Compare(left=vals[i], ops=[o], comparators=[vals[i + 1]]), e) for i, o in enumerate(e.ops)]), s)
        line = getattr(e, 'lineno', 0)
        if isinstance(e, ast.Compare):
            a, b = self.ev(e.left, s), self.ev(e.comparators[0], s)
            o = e.ops[0]
            mk = lambda op, l, neg, x=None: Cond(op, l, neg, line, x)
            if isinstance(o, ast.Lt):
                r = ('<', a - b, False)
            elif isinstance(o, ast.GtE):
                r = ('<', a - b, True)
            elif isinstance(o, ast.LtE):
                r = ('<=', a - b, False)
            elif isinstance(o, ast.Gt):
                r = ('<=', a - b, True)
            elif isinstance(o, (ast.Eq, ast.Is)):
                r = ('==', a - b, False)
            elif isinstance(o, (ast.NotEq, ast.IsNot)):
                r = ('==', a - b, True)
            else:
                c = isinstance(o, ast.NotIn)
                return [[mk('in', a, c, b)]], [[mk('in', a, not c, b)]]
            op, l, neg = r
            return [[mk(op, l, neg)]], [[mk(op, l, not neg)]]
        v = self.ev(e, s)
        if isinstance(e, ast.Name) and v.const() is None and ('#' + e.id) in self.lens:
            v = self.get(s, '#' + e.id)
        return [[Cond('true', v, False, line)]], [[Cond('true', v, True, line)]]

    def assume(self, s, conds):
        n = s.copy()
        for c in conds:
            v = c.value()
            if v is False:
                return None
            if v is True:
                continue
            k = c.key()
            if n.known.get(k, c.neg) != c.neg:
                return None
            n.known[k] = c.neg
            n.conds = n.conds + (c,)
        return n

    lens = frozenset()

    # ---- statements
    def tick(self, k=1):
        self.count += k
        if self.count > MAXPATHS:
            raise Many()

    def block(self, stmts, s):
        live, out = [s], []
        for st in stmts:
            nxt = []
            for x in live:
                for status, y in self.stmt(st, x):
                    if status == 'fall':
                        nxt.append(y)
                    else:
                        out.append((status, y))
            live = nxt
            self.tick(len(live))
            if not live:
                break
        return [('fall', x) for x in live] + out

    def bind(self, t, v, s, value=None):
        if isinstance(t, ast.Name):
            s.env[t.id] = v
            s.env['#' + t.id] = self.length(value, s) if value is not None else self.fresh('call')
        elif isinstance(t, (ast.Tuple, ast.List)):
            els = None
            if len(v.t) == 1 and not v.c:
                a = next(iter(v.t))
                if a[0] == 'list' and len(a) - 1 == len(t.elts):
                    els = a[1:]
            for i, x in enumerate(t.elts):
                if els is not None:
                    self.bind(x, els[i], s)
                else:
                    k = kinds_of(v)
                    self.bind(x, Lin.atom(('sub', v, i)) if v.t else self.fresh('call'), s)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, self.fresh('call'), s)
        else:
            b = t
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name):
                s.env[b.id] = self.fresh('mut')

    def length(self, e, s):
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)) and not any(isinstance(x, ast.Starred) for x in e.elts):
            return Lin(c=len(e.elts))
        if isinstance(e, ast.Dict):
            return Lin(c=len(e.keys))
        if isinstance(e, ast.Name):
            return self.get(s, '#' + e.id)
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and isinstance(e.slice, ast.Slice) and e.slice.step is None:
            lo = e.slice.lower.value if isinstance(e.slice.lower, ast.Constant) else 0 if e.slice.lower is None else None
            up = e.slice.upper
            up = 0 if up is None else -up.operand.value if isinstance(up, ast.UnaryOp) and isinstance(up.op, ast.USub) and isinstance(up.operand, ast.Constant) else None
            if isinstance(lo, int) and isinstance(up, int) and lo >= 0:
                return self.get(s, '#' + e.value.id) - Lin(c=lo - up)
        if isinstance(e, ast.Call):
            n = (dotted(e.func) or '').rsplit('.', 1)[-1]
            if n in ('set', 'list', 'dict', 'deque', 'tuple') and not e.args:
                return Lin()
            if n in ('delete', 'append') and len(e.args) == 2 and isinstance(e.args[0], ast.Name):
                return self.get(s, '#' + e.args[0].id) + Lin(c=1 if n == 'append' else -1)
        return self.fresh('call')

    def havoc(self, node, s, kind='loop'):
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                s.env[x.id] = self.fresh(kind)
                s.env['#' + x.id] = self.fresh(kind)
            elif isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                b = x
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    s.env[b.id] = self.fresh(kind)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.attr in (
                    'append', 'add', 'pop', 'extend', 'remove', 'insert', 'clear', 'update', 'popleft', 'appendleft', 'discard'):
                s.env[x.func.value.id] = self.fresh(kind)
                s.env['#' + x.func.value.id] = self.fresh(kind)

    def branch(self, test, s):
        """[(state, truth)]"""
        t, f = self.split(test, s)
        out = []
        for alts, b in ((t, True), (f, False)):
            for cs in alts:
                n = self.assume(s, cs)
                if n is not None:
                    out.append((n, b))
        return out

    def stmt(self, st, s):
        if isinstance(st, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            return [('fall', s)]
        if isinstance(st, ast.Expr):
            e = st.value
            if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
                return [('fall', s)]
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'add' and isinstance(e.func.value, ast.Name) and len(e.args) == 1:
                obj = e.func.value.id
                v = self.ev(e.args[0], s)
                cur = self.get(s, obj)
                out = []
                for neg in (False, True):
                    n = self.assume(s, [Cond('in', v, neg, st.lineno, cur)])
                    if n is not None:
                        if neg:
                            n.env['#' + obj] = self.get(n, '#' + obj) + Lin(c=1)
                            n.env[obj] = self.fresh('mut')
                        out.append(('fall', n))
                return out
            self.ev(e, s)
            return [('fall', s)]
        if isinstance(st, ast.Assign):
            if isinstance(st.value, ast.IfExp):
                out = []
                for n, b in self.branch(st.value.test, s):
                    x = ast.copy_location(ast.Assign(targets=st.targets, value=st.value.body if b else st.value.orelse), st)
                    out += self.stmt(x, n)
                return out
            v = self.ev(st.value, s)
            for t in st.targets:
                self.bind(t, v, s, st.value)
            return [('fall', s)]
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.bind(st.target, self.ev(st.value, s), s, st.value)
            return [('fall', s)]
        if isinstance(st, ast.AugAssign):
            if isinstance(st.target, ast.Name):
                v = self.ev(ast.copy_location(ast.BinOp(left=ast.Name(id=st.target.id, ctx=ast.Load()), op=st.op, right=st.value), st), s)
                s.env[st.target.id] = v
                s.env['#' + st.target.id] = self.fresh('call')
            else:
                self.ev(st.value, s)
                self.bind(st.target, self.fresh('mut'), s)
            return [('fall', s)]
        if isinstance(st, ast.If):
            out = []
            for n, b in self.branch(st.test, s):
                self.tick()
                out += self.block(st.body if b else st.orelse, n)
            return out
        if isinstance(st, ast.Return):
            if st.value is not None:
                self.ev(st.value, s)
            return [('exit', s)]
        if isinstance(st, ast.Raise):
            return [('raise', s)]
        if isinstance(st, ast.Break):
            return [('break', s)]
        if isinstance(st, ast.Continue):
            return [('continue', s)]
        if isinstance(st, ast.Assert):
            return [('fall', n) for n, b in self.branch(st.test, s) if b]
        if isinstance(st, (ast.For, ast.While)):
            out = []
            if isinstance(st, ast.For):
                self.ev(st.iter, s)
            inner = s.copy()
            self.havoc(st, inner)
            saved = self.count
            for status, y in self.block(st.body, inner.copy()):
                if status in ('exit', 'raise'):
                    out.append((status, y))
            self.count = saved + len(out)
            out += self.block(st.orelse, inner)
            return out
        if isinstance(st, ast.With):
            for i in st.items:
                v = self.ev(i.context_expr, s)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, s)
            return self.block(st.body, s)
        if isinstance(st, ast.Try):
            return self.tryst(st, s)
        if isinstance(st, ast.Delete):
            self.havoc(st, s)
            return [('fall', s)]
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            s.env[st.name] = self.fresh('def')
            return [('fall', s)]
        if isinstance(st, ast.Match):
            out = []
            for c in st.cases:
                out += self.block(c.body, s.copy())
            return out + [('fall', s)]
        return [('fall', s)]

    def tryst(self, st, s):
        out = []
        live = [s]
        hstates = []
        normal = []
        for sub in st.body:
            can = any(isinstance(x, (ast.Call, ast.Subscript, ast.BinOp, ast.Raise, ast.Attribute)) for x in ast.walk(sub))
            nxt = []
            for x in live:
                if can:
                    hstates.append(x.copy())
                for status, y in self.stmt(sub, x):
                    if status == 'fall':
                        nxt.append(y)
                    elif status == 'raise' and st.handlers:
                        hstates.append(y)
                    else:
                        normal.append((status, y))
            live = nxt
            self.tick(len(live))
        for x in live:
            normal += self.block(st.orelse, x)
        for h in st.handlers:
            for x in hstates:
                y = x.copy()
                if h.name:
                    y.env[h.name] = self.fresh('exc')
                normal += self.block(h.body, y)
        if not st.finalbody:
            return normal
        for status, y in normal:
            for st2, z in self.block(st.finalbody, y):
                out.append((status if st2 == 'fall' else st2, z))
        return out


def dotted(f):
    if isinstance(f, ast.Name):
        return f.id
    if isinstance(f, ast.Attribute):
        b = dotted(f.value)
        return None if b is None else b + '.' + f.attr
    return None
