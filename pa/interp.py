"""Abstract interpreter: Python source -> value graph.  Every path is followed at once; joins become if-then-else terms,
loops become closed forms or recurrences (see loops.py), callees are inlined."""
import ast
import itertools
import os
from . import terms as tm
from .terms import T, const, ZERO, ONE, TRUE, FALSE, NONE, NAN, INF, PI, J
from .values import *
from . import facts as fa
from .loops import LoopMixin
from .npfns2 import NumpyMixin

SILENT_ASSERTS = [False]     # take the program's own assertions as true
MODULAR = {}             # public functions taken as uninterpreted inside other functions, for the obligation at hand
BUILTINS = {'len', 'range', 'abs', 'min', 'max', 'sum', 'int', 'float', 'bool', 'str', 'list', 'tuple', 'dict', 'set', 'sorted',
            'enumerate', 'zip', 'isinstance', 'issubclass', 'type', 'all', 'any', 'print', 'round', 'map', 'filter', 'reversed', 'complex',
            'ValueError', 'TypeError', 'IndexError', 'KeyError', 'Exception', 'RuntimeError', 'ZeroDivisionError', 'NotImplementedError',
            'AssertionError', 'ArithmeticError', 'LookupError', 'OverflowError', 'RuntimeWarning', 'UserWarning', 'slice', 'pow', 'divmod',
            'frozenset', 'hasattr', 'getattr', 'callable', 'repr', 'format', 'iter', 'next', 'id', 'hash', 'object', 'super', 'StopIteration', 'UnboundLocalError', 'NameError',
            'BaseException', 'AttributeError', 'FloatingPointError', 'DeprecationWarning', 'Warning'}
PARENT = {'IndexError': 'LookupError', 'KeyError': 'LookupError', 'LookupError': 'Exception', 'ValueError': 'Exception', 'TypeError': 'Exception',
          'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError', 'ArithmeticError': 'Exception', 'RuntimeError': 'Exception',
          'NotImplementedError': 'RuntimeError', 'AssertionError': 'Exception', 'UnboundLocalError': 'NameError', 'NameError': 'Exception',
          'AttributeError': 'Exception', 'StopIteration': 'Exception', 'Exception': 'BaseException', 'LinAlgError': 'ValueError', 'RuntimeWarning': 'Warning',
          'UserWarning': 'Warning', 'Warning': 'Exception'}


def is_exc(name, handler):
    while name is not None:
        if name == handler:
            return True
        name = PARENT.get(name)
    return False


class State:
    __slots__ = ('env', 'heap', 'pc')

    def __init__(self, env, heap, pc):
        self.env, self.heap, self.pc = env, heap, pc

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.pc)


class Out:
    __slots__ = ('kind', 'val', 'st', 'src')

    def __init__(self, kind, val, st, src):
        self.kind, self.val, self.st, self.src = kind, val, st, src


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.g = {}
        self.loaded = False


class Loader:
    """finds the modules of the analysed tree (and the reference functions) by dotted name"""

    def __init__(self, roots):
        self.roots, self.mods = roots, {}

    def find(self, name):
        if name in self.mods:
            return self.mods[name]
        rel = name.replace('.', '/')
        for r in self.roots:
            for p in (os.path.join(r, rel + '.py'), os.path.join(r, rel, '__init__.py')):
                if os.path.isfile(p):
                    m = Module(name, p, ast.parse(open(p).read(), p))
                    self.mods[name] = m
                    return m
        return None


class Interp(LoopMixin, NumpyMixin):
    MAXDEPTH = 24

    def __init__(self, loader, budget=400000):
        self.loader = loader
        self.cells = itertools.count(1)
        self.st = State({}, {}, ())
        self.outs = []
        self.hazards = []
        self.depth = 0
        self.steps = 0
        self.budget = budget
        self.fname = ['<top>']
        self.cur = None
        self.catching = []
        self.notes = set()
        self.loops_seen = []
        self.functions = set()
        self.seen_lines = set()

    # ------------------------------------------------------------ facts
    def decide(self, c):
        return fa.decide(c, self.st.pc)

    def know(self, c):
        return self.decide(c) is TRUE

    def src(self):
        return tm.cur_src[0]

    def raise_if(self, c, exc, hazard=False):
        d = self.decide(c)
        if d is FALSE:
            return
        if d is TRUE:
            self.outs.append(Out('raise', exc, self.st, self.src()))
            raise Dead()
        if hazard and not any(any(is_exc(exc, h) for h in hs) for hs in self.catching):
            self.hazards.append((tm.and_(*(self.st.pc + (c,))), exc, self.src()))
            self.st = State(self.st.env, self.st.heap, self.st.pc + (tm.not_(c),)) if False else self.st
            return
        s = self.st.copy()
        s.pc = s.pc + (c,)
        self.outs.append(Out('raise', exc, s, self.src()))
        self.st = State(self.st.env, self.st.heap, self.st.pc + (tm.not_(c),))

    # ------------------------------------------------------------ heap
    def box(self, v):
        if isinstance(v, (Arr, Filt, Cat, PyList, PyDict, Opaque)):
            c = next(self.cells)
            self.st.heap[c] = v
            return Ref(c)
        return v

    def rd(self, v):
        """contents of a value"""
        if isinstance(v, Ref):
            x = self.st.heap.get(v.cell)
            if x is None:
                raise Unsupported('dangling reference')
            for m in v.maps:
                x = self.viewed(x, m)
            if isinstance(x, Alt):
                return self.rd(x)
            return x
        if isinstance(v, Alt):
            d = self.decide(v.c)
            if d is TRUE:
                return self.rd(v.a)
            if d is FALSE:
                return self.rd(v.b)
            if v.a is UNDEF or v.b is UNDEF:
                return self.rd(self.defined(v))
            a, b = self.rd(v.a), self.rd(v.b)
            return self.merge_content(v.c, a, b)
        return v

    def viewed(self, x, m):
        if isinstance(x, Alt):
            return Alt(x.c, self.viewed(self.rd(x.a), m), self.viewed(self.rd(x.b), m))
        if isinstance(x, PyList):
            x = self.as_arr(x)
        if type(x) is Filt:
            x = self.pos_arr(x)
        if isinstance(x, Cat):
            x = self.cat_arr(x)
        if not isinstance(x, Arr):
            raise Unsupported('view of %s' % type(x).__name__)
        return Arr(m.shape, lambda *i: x.get(*m.fwd(*i)), x.dtype)

    def defined(self, v):
        """drop undefined alternatives, recording that reading them raises UnboundLocalError"""
        if isinstance(v, Alt):
            if v.a is UNDEF and v.b is UNDEF:
                self.raise_if(TRUE, 'UnboundLocalError')
            if v.a is UNDEF:
                self.raise_if(v.c, 'UnboundLocalError')
                return self.defined(v.b)
            if v.b is UNDEF:
                self.raise_if(tm.not_(v.c), 'UnboundLocalError')
                return self.defined(v.a)
        if v is UNDEF:
            self.raise_if(TRUE, 'UnboundLocalError')
        return v

    # ------------------------------------------------------------ merging
    def merge(self, c, a, b):
        """value that is a when c, else b"""
        if a is b or c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, T) and isinstance(b, T):
            return tm.ite(c, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.cell == b.cell and not a.maps and not b.maps:
            return a
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, (Arr, Filt, PyList, PyDict)) and isinstance(b, (Arr, Filt, PyList, PyDict)):
            return self.merge_content(c, a, b)
        if isinstance(a, Builtin) and isinstance(b, Builtin) and a.name == b.name:
            return a
        if isinstance(a, Fn) and isinstance(b, Fn) and a.node is b.node:
            return a
        if isinstance(a, Mod) and isinstance(b, Mod) and a.name == b.name:
            return a
        return Alt(c, a, b)

    def merge_content(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, T) and isinstance(b, T):
            return tm.ite(c, a, b)
        if isinstance(a, PyList) and isinstance(b, PyList) and len(a.items) == len(b.items):
            return PyList([self.merge(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, PyDict) and isinstance(b, PyDict) and list(a.d) == list(b.d):
            return PyDict({k: self.merge(c, a.d[k], b.d[k]) for k in a.d})
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return Opaque(tm.ite(c, a.t, b.t))
        if isinstance(a, (PyList, Arr)) and isinstance(b, (PyList, Arr)):
            try:
                isl = isinstance(a, PyList) or a.islist
                x, y = self.as_arr(a), self.as_arr(b)
                if x.ndim == y.ndim or self.is_empty(x) or self.is_empty(y):
                    if x.ndim != y.ndim:
                        if self.is_empty(x):
                            x = Arr((ZERO,) + y.shape[1:], lambda *i: y.get(*i), y.dtype)
                        else:
                            x0 = x
                            y = Arr((ZERO,) + x.shape[1:], lambda *i: x0.get(*i), x.dtype)
                    sh = tuple(tm.ite(c, p, q) for p, q in zip(x.shape, y.shape))
                    return Arr(sh, lambda *i: self.merge(c, x.get(*i), y.get(*i)), x.dtype if x.dtype == y.dtype else self.join_dtype(x.dtype, y.dtype), isl)
            except Unsupported:
                pass
        if isinstance(a, Filt) and isinstance(b, Filt) and a.n is b.n:
            return Filt(a.n, lambda k: tm.ite(c, a.pred(k), b.pred(k)), lambda k: tm.ite(c, a.val(k), b.val(k)), a.dtype, a.islist)
        return Alt(c, a, b)

    def is_empty(self, x):
        return isinstance(x, Arr) and x.ndim == 1 and x.shape[0] is ZERO

    def merge_states(self, base, sts):
        """join of states whose path conditions extend base"""
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        if len(sts) == 1:
            return sts[0]
        n = len(base)
        conds = [tm.and_(*s.pc[n:]) for s in sts]
        while len(sts) > 1:
            s2, s1 = sts.pop(), sts.pop()
            c2, c1 = conds.pop(), conds.pop()
            c = c1
            pc = simplify_or(c1, c2)
            env = {}
            for k in list(s1.env) + [k for k in s2.env if k not in s1.env]:
                env[k] = self.merge(c, s1.env.get(k, UNDEF), s2.env.get(k, UNDEF))
            heap = {}
            for k in list(s1.heap) + [k for k in s2.heap if k not in s1.heap]:
                if k in s1.heap and k in s2.heap:
                    heap[k] = self.merge_content(c, s1.heap[k], s2.heap[k])
                else:
                    heap[k] = s1.heap.get(k, s2.heap.get(k))
            conds.append(pc)
            sts.append(State(env, heap, base + ((pc,) if pc is not TRUE else ())))
        return sts[0]

    # ------------------------------------------------------------ statements
    def run(self, stmts):
        """execute statements on self.st; returns False when the path has ended"""
        for s in stmts:
            self.steps += 1
            if self.steps > self.budget:
                raise Unsupported('analysis budget exceeded')
            if not self.stmt(s):
                return False
        return True

    def at(self, node):
        ln = getattr(node, 'lineno', None)
        if ln is not None and self.cur is not None:
            tm.cur_src[0] = (self.cur.path, ln, self.fname[-1])

    def stmt(self, s):
        self.at(s)
        if isinstance(s, ast.stmt) and self.cur is not None:
            self.seen_lines.add((self.cur.path, s.lineno))
        try:
            return self.stmt1(s)
        except Dead:
            return False

    def stmt1(self, s):
        k = type(s).__name__
        if k == 'Expr':
            if isinstance(s.value, ast.Constant):
                return True
            self.ev(s.value)
            return True
        if k == 'Assign':
            v = self.box(self.ev(s.value))
            for t in s.targets:
                self.assign(t, v)
            return True
        if k == 'AnnAssign':
            if s.value is not None:
                self.assign(s.target, self.box(self.ev(s.value)))
            return True
        if k == 'AugAssign':
            self.augassign(s)
            return True
        if k == 'Return':
            v = self.box(self.ev(s.value)) if s.value is not None else NONE
            self.outs.append(Out('return', v, self.st, self.src()))
            return False
        if k == 'If':
            return self.if_(s)
        if k == 'For':
            return self.for_(s)
        if k == 'While':
            return self.while_(s)
        if k == 'Raise':
            exc = self.exc_name(s.exc)
            self.outs.append(Out('raise', exc, self.st, self.src()))
            return False
        if k in ('Break', 'Continue'):
            self.outs.append(Out(k.lower(), None, self.st, self.src()))
            return False
        if k == 'Pass':
            return True
        if k == 'FunctionDef':
            self.st.env[s.name] = self.make_fn(s, self.st.env, s.name)
            return True
        if k in ('Import', 'ImportFrom'):
            self.import_(s, self.st.env)
            return True
        if k == 'Assert':
            c = self.truth(self.ev(s.test))
            if not SILENT_ASSERTS[0]:
                self.raise_if(tm.not_(c), 'AssertionError')
            return True
        if k == 'Try':
            return self.try_(s)
        if k == 'Delete':
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.st.env[t.id] = UNDEF
                else:
                    raise Unsupported('del of a subscript')
            return True
        if k == 'With':
            for it in s.items:
                v = self.ev(it.context_expr)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v)
            return self.run(s.body)
        if k == 'Global' or k == 'Nonlocal':
            raise Unsupported(k)
        raise Unsupported('statement ' + k)

    def exc_name(self, e):
        if e is None:
            return 'Exception'
        if isinstance(e, ast.Call):
            for a in e.args:
                try:
                    self.ev(a)
                except Unsupported:
                    pass
            e = e.func
        if isinstance(e, ast.Name):
            v = self.st.env.get(e.id)
            if isinstance(v, T) and v.op == 'opq' and v.args[0].startswith('exc:'):
                return v.args[0][4:]
            return e.id
        if isinstance(e, ast.Attribute):
            return e.attr
        return 'Exception'

    def if_(self, s):
        c = self.truth(self.ev(s.test))
        d = self.decide(c)
        if d is TRUE:
            return self.run(s.body)
        if d is FALSE:
            return self.run(s.orelse)
        base = self.st
        r = []
        for cond, body in ((c, s.body), (tm.not_(c), s.orelse)):
            self.st = base.copy()
            self.st.pc = base.pc + (cond,)
            r.append(self.st if self.run(body) and self.st is not None else None)
            if r[-1] is not None:
                r[-1] = self.st
        return self.join(base, r)

    def join(self, base, r):
        m = self.merge_states(base.pc, [x for x in r if x is not None])
        if m is None:
            self.st = base
            return False
        self.st = m
        return True

    def try_(self, s):
        base_outs = self.outs
        self.outs = []
        hs = []
        for h in s.handlers:
            if h.type is None:
                hs.append(['BaseException'])
            elif isinstance(h.type, ast.Tuple):
                hs.append([self.exc_name(x) for x in h.type.elts])
            else:
                hs.append([self.exc_name(h.type)])
        base = self.st
        self.st = base.copy()
        self.catching.append([x for h in hs for x in h])
        alive = self.run(s.body)
        self.catching.pop()
        if alive and s.orelse:
            alive = self.run(s.orelse)
        ends = [self.st if alive else None]
        outs, self.outs = self.outs, base_outs
        for o in outs:
            done = False
            if o.kind == 'raise':
                for h, names in zip(s.handlers, hs):
                    if any(is_exc(o.val, n) for n in names):
                        self.st = o.st.copy()
                        if h.name:
                            self.st.env[h.name] = tm.opq('exc:' + o.val)
                        ends.append(self.st if self.run(h.body) else None)
                        if ends[-1] is not None:
                            ends[-1] = self.st
                        done = True
                        break
            if not done:
                self.outs.append(o)
        ok = self.join(base, ends)
        if s.finalbody and ok:
            ok = self.run(s.finalbody)
        return ok

    # ------------------------------------------------------------ assignment
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.st.env[t.id] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            for e, x in zip(t.elts, items):
                self.assign(e, self.box(x))
            return
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            idx = self.index(t.slice)
            self.at(t)
            self.setitem(base, idx, v)
            return
        if isinstance(t, ast.Attribute):
            if t.attr in ('dtype', 'shape'):
                base = self.ev(t.value)
                x = self.rd(base)
                if isinstance(x, Arr) and t.attr == 'dtype':
                    return
                if isinstance(x, T):
                    return
            raise Unsupported('attribute assignment ' + t.attr)
        raise Unsupported('assignment target')

    def unpack(self, v, n, star=False):
        if star:
            raise Unsupported('starred target')
        if isinstance(v, Alt):
            d = self.decide(v.c)
            if d is TRUE:
                return self.unpack(v.a, n)
            if d is FALSE:
                return self.unpack(v.b, n)
            a, b = self.unpack(v.a, n), self.unpack(v.b, n)
            return [self.merge(v.c, x, y) for x, y in zip(a, b)]
        x = self.rd(v)
        if isinstance(x, Alt):
            return self.unpack(x, n)
        if isinstance(x, (Tup, PyList)):
            if len(x.items) != n:
                self.raise_if(TRUE, 'ValueError')
            return list(x.items)
        if isinstance(x, Arr):
            d = self.decide(tm.cmp('==', x.shape[0], const(n)))
            if d is FALSE:
                self.raise_if(TRUE, 'ValueError')
            return [self.getitem(v, const(i)) for i in range(n)]
        if isinstance(x, T):
            return [tm.opq('item', x, const(i)) for i in range(n)]
        if isinstance(x, (Filt, Cat)):
            return [self.getitem(v, const(i)) for i in range(n)]
        if isinstance(x, Opaque):
            return [self.box(Opaque(tm.opq('item', x.t, const(i)))) for i in range(n)]
        raise Unsupported('unpack %s' % type(x).__name__)

    def augassign(self, s):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev(ast.Name(id=t.id, ctx=ast.Load(), lineno=t.lineno, col_offset=t.col_offset))
            v = self.ev(s.value)
            x = self.rd(old)
            if isinstance(x, PyList) and op == 'Add':
                self.list_extend(old, v)
                return
            if isinstance(old, Ref) and isinstance(x, Arr) and not x.islist:
                r = self.binop(op, x, v)
                self.store_all(old, r)
                return
            self.st.env[t.id] = self.box(self.binop(op, old, v))
            return
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            idx = self.index(t.slice)
            old = self.getitem(base, idx)
            v = self.ev(s.value)
            self.at(s)
            self.setitem(base, idx, self.binop(op, old, v))
            return
        raise Unsupported('augmented assignment target')

    def store_all(self, ref, r):
        x = self.rd(ref)
        r = self.rd(r)
        if isinstance(r, T):
            rr = r
            self.write(ref, lambda *i: rr, lambda *i: TRUE)
            return
        ra = self.as_arr(r)
        bs = self.broadcast_to(ra, x.shape)
        self.write(ref, bs, lambda *i: TRUE)

    def write(self, ref, valf, condf):
        """contents of ref[idx] := valf(idx) where condf(idx); idx indexes what ref shows"""
        if isinstance(ref, Alt):
            raise Unsupported('store through alternative reference')
        base = self.st.heap[ref.cell]
        if isinstance(base, (PyList, Filt, Cat)) and not isinstance(base, Shuffled):
            base = self.as_arr(base)
        if not isinstance(base, Arr):
            raise Unsupported('store into %s' % type(base).__name__)
        maps = ref.maps
        dt = base.dtype

        def new(*bi):
            c, idx = TRUE, bi
            for m in maps:
                cc, idx = m.inv(*idx)
                c = tm.and_(c, cc)
                if c is FALSE:
                    return base.get(*bi)
            c = tm.and_(c, condf(*idx))
            if c is FALSE:
                return base.get(*bi)
            v = valf(*idx)
            v = self.cast(v, dt)
            return self.merge(c, v, base.get(*bi))
        self.st.heap[ref.cell] = Arr(base.shape, new, dt, base.islist)

    def cast(self, v, dt):
        if not isinstance(v, T):
            return v
        if dt == 'float':
            if v.kind in ('int', 'bool'):
                return tm.fn('tofloat', v)
            if v.kind == 'complex':
                return tm.fn('real', v)
        if dt == 'int' and v.kind in ('float',):
            return tm.fn('trunc', v)
        if dt == 'bool' and v.kind not in ('bool', 'any'):
            return tm.cmp('!=', v, ZERO)
        return v

    # ------------------------------------------------------------ functions and names
    def make_fn(self, node, env, name):
        a = node.args
        d = [self.box(self.ev(x)) for x in a.defaults]
        kd = [self.box(self.ev(x)) if x is not None else None for x in a.kw_defaults]
        return Fn(node, env, self.cur, name, d, kd)

    def lookup(self, name):
        v = self.st.env.get(name)
        if v is None and name in self.st.env:
            v = self.st.env[name]
        if v is not None:
            return v
        e = self.st.env.get('$closure')
        while e is not None:
            if name in e and not (e[name] is UNDEF):
                return e[name]
            e = e.get('$closure')
        if self.cur is not None:
            g = self.globals(self.cur)
            if name in g:
                return g[name]
        if name in BUILTINS:
            return Builtin(name)
        if name in ('True', 'False'):
            return const(name == 'True')
        if name in ('__name__', '__file__'):
            return const(name)
        if name == '__debug__':
            return TRUE
        return None

    def globals(self, mod):
        if mod.loaded:
            return mod.g
        mod.loaded = True
        old, self.cur = self.cur, mod
        ost, oouts = self.st, self.outs
        self.st, self.outs = State(mod.g, {}, ()), []
        try:
            for s in mod.tree.body:
                try:
                    if isinstance(s, ast.FunctionDef):
                        fn = Fn(s, None, mod, s.name, None, None)
                        mod.g[s.name] = fn
                    elif isinstance(s, (ast.Import, ast.ImportFrom)):
                        self.import_(s, mod.g)
                    elif isinstance(s, ast.Assign):
                        v = self.ev(s.value)
                        if isinstance(v, (T, Fn, Builtin, Mod)):
                            for t in s.targets:
                                self.assign(t, v)
                        elif isinstance(v, (Tup, PyList, PyDict, Arr)) and all(isinstance(t, ast.Name) for t in s.targets):
                            for t in s.targets:
                                mod.g[t.id] = ('$lazy', s.value)
                except (Unsupported, Dead):
                    pass
        finally:
            self.cur = old
            self.st, self.outs = ost, oouts
        return mod.g

    def import_(self, s, env):
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname:
                    env[a.asname] = self.module(a.name)
                else:
                    env[a.name.split('.')[0]] = self.module(a.name.split('.')[0])
            return
        base = s.module or ''
        if s.level:
            parts = self.cur.name.split('.')
            is_pkg = self.cur.path.endswith('__init__.py')
            cut = s.level - (1 if is_pkg else 0)
            parts = parts[:len(parts) - cut] if cut else parts
            base = '.'.join(parts + ([s.module] if s.module else []))
        for a in s.names:
            env[a.asname or a.name] = self.member(base, a.name)

    def module(self, name):
        m = self.loader.find(name)
        return Mod(name, m)

    def member(self, base, name):
        m = self.loader.find(base)
        if m is not None:
            g = self.globals(m)
            if name in g:
                return self.lazy(g, name, m)
            sub = self.loader.find(base + '.' + name)
            if sub is not None:
                return Mod(base + '.' + name, sub)
            raise Unsupported('%s has no %s' % (base, name))
        sub = self.libconst(base + '.' + name)
        return sub if sub is not None else Builtin(base + '.' + name)

    def lazy(self, g, name, mod):
        v = g[name]
        if isinstance(v, tuple) and v[0] == '$lazy':
            old, self.cur = self.cur, mod
            try:
                return self.box(self.ev(v[1]))
            finally:
                self.cur = old
        return v

    def modular(self, name, kind, vals):
        """a call of a public function that has its own obligations: one uninterpreted value per element of a result as long as the first argument,
        or a subset of the indices of the first argument"""
        if kind == 'number':
            return tm.opq('app:' + name, const(0), kind='float')
        x = self.as_arr(self.rd(vals[0]))
        ts = [self.reify(v) for v in vals]
        if kind == 'indices':
            return Tup([self.box(Filt(x.shape[0], lambda i: tm.opq('app:' + name, *ts, i, kind='bool'), lambda i: i, 'int')), Opaque(tm.opq('app:' + name + '.1', *ts))])
        return self.box(Arr((x.shape[0],), lambda i: tm.opq('app:' + name, *ts, i, kind='float'), 'float'))

    def call_fn(self, fn, args, kwargs):
        if self.depth > self.MAXDEPTH:
            raise Unsupported('call depth')
        node = fn.node
        self.functions.add((fn.mod.name if fn.mod else '?', fn.name))
        a = node.args
        oldcur = self.cur
        self.cur = fn.mod
        if fn.defaults is None:
            ost = self.st
            fn_defaults = [self.box(self.ev(x)) for x in a.defaults]
            fn_kw = [self.box(self.ev(x)) if x is not None else None for x in a.kw_defaults]
        else:
            fn_defaults, fn_kw = fn.defaults, fn.kwdefaults
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if len(args) > len(names) and not a.vararg:
            self.cur = oldcur
            self.raise_if(TRUE, 'TypeError')
        for n, v in zip(names, args):
            env[n] = self.box(v)
        if a.vararg:
            env[a.vararg.arg] = Tup([self.box(v) for v in args[len(names):]])
        kw = dict(kwargs)
        for n in names[len(args):] + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                env[n] = self.box(kw.pop(n))
        if kw:
            if a.kwarg:
                env[a.kwarg.arg] = self.box(PyDict({const(k): self.box(v) for k, v in kw.items()}))
            else:
                self.cur = oldcur
                self.raise_if(TRUE, 'TypeError')
        off = len(names) - len(fn_defaults)
        for i, n in enumerate(names):
            if n not in env:
                if i >= off:
                    env[n] = fn_defaults[i - off]
                else:
                    self.cur = oldcur
                    self.raise_if(TRUE, 'TypeError')
        for x, d in zip(a.kwonlyargs, fn_kw):
            if x.arg not in env:
                if d is None:
                    self.raise_if(TRUE, 'TypeError')
                env[x.arg] = d
        if MODULAR and self.depth > 0 and '%s.%s' % (fn.mod.name if fn.mod else '', fn.name) in MODULAR:
            self.cur = oldcur
            return self.modular(fn.name, MODULAR['%s.%s' % (fn.mod.name, fn.name)], [env[n] for n in names])
        if fn.env is not None:
            env['$closure'] = fn.env
        # names assigned in the body are local: reading them before is an error
        if isinstance(node, ast.FunctionDef):
            for n in local_names(node):
                env.setdefault(n, UNDEF)
        caller, couts = self.st, self.outs
        self.st, self.outs = State(env, caller.heap, caller.pc), []
        self.depth += 1
        self.fname.append(fn.name)
        src = tm.cur_src[0]
        try:
            if isinstance(node, ast.Lambda):
                try:
                    v = self.box(self.ev(node.body))
                    self.outs.append(Out('return', v, self.st, self.src()))
                except Dead:
                    pass
            else:
                if self.run(node.body):
                    self.outs.append(Out('return', NONE, self.st, (fn.mod.path if fn.mod else '?', node.lineno, fn.name)))
        finally:
            self.depth -= 1
            self.fname.pop()
            self.cur = oldcur
            outs, self.outs = self.outs, couts
            tm.cur_src[0] = src
            self.st = caller
        rets = []
        for o in outs:
            if o.kind == 'return':
                e = dict(caller.env)
                e['$ret'] = o.val
                rets.append(State(e, o.st.heap, o.st.pc))
            elif o.kind == 'raise':
                self.outs.append(Out('raise', o.val, State(dict(caller.env), o.st.heap, o.st.pc), o.src))
        m = self.merge_states(caller.pc, rets)
        if m is None:
            raise Dead()
        v = m.env.pop('$ret')
        self.st = State(m.env, m.heap, m.pc)
        return v

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        self.steps += 1
        if self.steps > self.budget:
            raise Unsupported('analysis budget exceeded')
        k = type(e).__name__
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k)
        old = tm.cur_src[0]
        if self.cur is not None and hasattr(e, 'lineno'):
            tm.cur_src[0] = (self.cur.path, e.lineno, self.fname[-1])
        return m(e)

    def e_Constant(self, e):
        if isinstance(e.value, bytes):
            return tm.opq('bytes')
        return const(e.value)

    def e_Name(self, e):
        v = self.lookup(e.id)
        if v is None:
            self.raise_if(TRUE, 'NameError')
        if isinstance(v, tuple):
            g = self.globals(self.cur)
            return self.lazy(g, e.id, self.cur)
        if v is UNDEF or isinstance(v, Alt):
            return self.defined(v)
        return v

    def e_Tuple(self, e):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                items += self.seq_items(self.ev(x.value))
            else:
                items.append(self.box(self.ev(x)))
        return Tup(items)

    def e_List(self, e):
        return PyList(self.e_Tuple(e).items)

    def e_Set(self, e):
        return PyList(self.e_Tuple(e).items)

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported('dict unpacking')
            d[self.scalar(self.ev(k))] = self.box(self.ev(v))
        return PyDict(d)

    def e_JoinedStr(self, e):
        return tm.opq('text', kind='str')

    def e_Slice(self, e):
        f = lambda x: NONE if x is None else self.scalar(self.ev(x))
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        d = self.decide(c)
        if d is TRUE:
            return self.ev(e.body)
        if d is FALSE:
            return self.ev(e.orelse)
        base = self.st
        r, vals = [], []
        for cond, x in ((c, e.body), (tm.not_(c), e.orelse)):
            self.st = base.copy()
            self.st.pc = base.pc + (cond,)
            try:
                v = self.box(self.ev(x))
                self.st.env['$if'] = v
                r.append(self.st)
            except Dead:
                r.append(None)
        if not self.join(base, r):
            raise Dead()
        v = self.st.env.pop('$if')
        if isinstance(v, Alt):
            try:
                return self.rd(v)
            except Unsupported:
                return v
        return v

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        base = self.st
        vals = []
        pcs = self.st.pc
        res = None
        conds = []
        for i, x in enumerate(e.values):
            v = self.ev(x)
            last = i == len(e.values) - 1
            xv = self.rd(v)
            c = self.truth(v)
            if not last or (isinstance(xv, T) and xv.kind == 'bool') or conds:
                d = self.decide(c)
                if d is not None:
                    c = d
            if (c is FALSE and isand) or (c is TRUE and not isand):
                conds.append(c)
                if len(conds) == 1 and isinstance(xv, T) and xv.kind != 'bool':
                    res = v
                break
            if last and not conds:
                # every earlier operand was decided: the value is this operand
                self.st = State(self.st.env, self.st.heap, pcs + self.st.pc[len(pcs):]) if False else self.st
                res = v
                break
            if not (c is TRUE or c is FALSE):
                conds.append(c)
                if not last:
                    self.st = State(self.st.env, self.st.heap, self.st.pc + ((c,) if isand else (tm.not_(c),)))
            elif conds:
                conds.append(c)
        if res is None:
            res = tm.and_(*conds) if isand else tm.or_(*conds)
        # drop the short-circuit assumptions but keep conditions recorded by raises
        extra = tuple(x for x in self.st.pc[len(pcs):] if not any(x is (y if isand else tm.not_(y)) for y in conds))
        self.st = State(self.st.env, self.st.heap, pcs + (extra if not conds else ()))
        return res

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return tm.not_(self.truth(v))
        if isinstance(e.op, ast.USub):
            return self.map1(lambda t: tm.neg(t) if t.kind != 'bool' else tm.neg(tm.fn('toint', t)), v)
        if isinstance(e.op, ast.UAdd):
            return self.map1(lambda t: t, v)
        if isinstance(e.op, ast.Invert):
            return self.map1(lambda t: tm.not_(t) if t.kind == 'bool' else tm.opq('invert', t), v)
        raise Unsupported('unary')

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        self.at(e)
        return self.binop(type(e.op).__name__, a, b)

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            self.at(e)
            c = self.compare(type(op).__name__, left, right)
            if res is None:
                res = c
            else:
                res = tm.and_(self.truth(res), self.truth(c))
            left = right
        return res

    def e_Attribute(self, e):
        v = self.ev(e.value)
        return self.attr(v, e.attr)

    def e_Subscript(self, e):
        v = self.ev(e.value)
        i = self.index(e.slice)
        self.at(e)
        return self.getitem(v, i)

    def e_Lambda(self, e):
        return self.make_fn(e, self.st.env, '<lambda>')

    def e_Starred(self, e):
        raise Unsupported('starred')

    def e_NamedExpr(self, e):
        v = self.box(self.ev(e.value))
        self.assign(e.target, v)
        return v

    def e_ListComp(self, e):
        return self.comprehension(e)

    def e_GeneratorExp(self, e):
        return self.comprehension(e)

    def e_SetComp(self, e):
        return self.box(self.py_set([self.box(self.comprehension(e))], {}))

    def e_DictComp(self, e):
        raise Unsupported('dict comprehension')

    def index(self, s):
        if isinstance(s, ast.Tuple):
            return Tup([self.index(x) for x in s.elts])
        v = self.ev(s)
        return v

    def e_Call(self, e):
        f = self.ev(e.func)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.seq_items(self.ev(a.value))
            else:
                args.append(self.box(self.ev(a)))
        for k in e.keywords:
            v = self.box(self.ev(k.value))
            if k.arg is None:
                x = self.rd(v)
                if not isinstance(x, PyDict):
                    raise Unsupported('keyword unpacking')
                for kk, vv in x.d.items():
                    kwargs[kk.args[0]] = vv
            else:
                kwargs[k.arg] = v
        self.at(e)
        return self.call(f, args, kwargs)

    def call(self, f, args, kwargs):
        if isinstance(f, Alt):
            raise Unsupported('call of alternative')
        if isinstance(f, Ref):
            f = self.rd(f)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs)
        if isinstance(f, Builtin):
            return self.box(self.builtin(f.name, args, kwargs))
        if isinstance(f, BoundM):
            return self.box(self.method(f.obj, f.name, args, kwargs))
        if isinstance(f, Opaque):
            f = f.t
        if isinstance(f, T):
            return self.app(f, args, kwargs)
        if isinstance(f, Mod):
            self.raise_if(TRUE, 'TypeError')
        raise Unsupported('call of %s' % type(f).__name__)

    def kde_at(self, t, args, kwargs):
        """a gaussian kernel density at given points: one uninterpreted value per point"""
        if t.op != 'opq' or t.args[0] != 'lib.scipy.stats.gaussian_kde' or len(args) + len(kwargs) != 1:
            return None
        p = self.rd((list(args) + list(kwargs.values()))[0])
        if isinstance(p, (PyList, Tup)) or isinstance(p, Arr) and p.ndim == 1:
            p = self.as_arr(p)
        if not isinstance(p, Arr) or p.ndim != 2 or not tm.is_int_const(p.shape[0]):
            return None
        m = int(tm.cval(p.shape[0]))
        return Arr((p.shape[1],), lambda i: tm.opq('kde', t, *[p.get(const(k), i) for k in range(m)], kind='float'), 'float')

    def app(self, f, args, kwargs):
        """call of an argument that is a function: uninterpreted, counted"""
        r = self.kde_at(f, args, kwargs)
        if r is not None:
            return self.box(r)
        cell = '#calls'
        if f.op == 'sym':
            c = self.st.heap.get(cell)
            if c is None:
                c = ZERO
            if isinstance(c, T):
                self.st.heap[cell] = tm.add(c, ONE)
        ts = [self.reify(a) for a in args]
        for k in sorted(kwargs):
            ts.append(tm.opq('kw:' + k, self.reify(kwargs[k])))
        return tm.opq('app', f, *ts, kind='float' if f.op == 'sym' else 'any')

    def seq_items(self, v):
        x = self.rd(v)
        if isinstance(x, (Tup, PyList)):
            return list(x.items)
        if isinstance(x, Arr) and tm.is_int_const(x.shape[0]):
            return [self.getitem(v, const(i)) for i in range(int(tm.cval(x.shape[0])))]
        if isinstance(x, T) and x.kind == 'args':
            return [x]
        raise Unsupported('unpacking an unknown sequence')

    # ------------------------------------------------------------ comprehension
    def comprehension(self, e):
        if len(e.generators) != 1:
            return self.comp_nested(e)
        g = e.generators[0]
        it = self.iter_of(self.ev(g.iter))
        saved = dict(self.st.env)
        try:
            if it[0] == 'items':
                items = []
                conds = []
                for x in it[1]:
                    self.assign(g.target, x)
                    c = TRUE
                    for t in g.ifs:
                        c = tm.and_(c, self.truth(self.ev(t)))
                    d = self.decide(c)
                    if d is FALSE:
                        continue
                    items.append(self.box(self.ev(e.elt)))
                    conds.append(TRUE if d is TRUE else c)
                if all(c is TRUE for c in conds):
                    return PyList(items)
                vals = [self.scalar(x) for x in items]
                pick = lambda xs: (lambda k: self.pick(xs, k))
                return Filt(const(len(items)), pick(conds), pick(vals), vals[0].kind, True)
            kind, n, item, guard = it
            k = tm.bound()
            base = self.st
            h0, o0 = len(self.hazards), len(self.outs)
            self.st = base.copy()
            self.st.pc = base.pc + (tm.cmp('<=', ZERO, k), tm.cmp('<', k, n))
            gd = guard(k) if guard is not None else TRUE
            if gd is not TRUE:
                self.st.pc += (gd,)
            self.assign(g.target, self.box(item(k)))
            c = gd
            for t in g.ifs:
                x = self.truth(self.ev(t))
                d = self.decide(x)
                if d is not None:
                    x = d
                c = tm.and_(c, x)
                if x is not TRUE:
                    self.st.pc += (x,)
            try:
                v = self.rd(self.ev(e.elt))
                heap = self.st.heap
            except Dead:
                v, c, heap = ZERO, FALSE, base.heap
            self.st = State(base.env, dict(heap), base.pc)
            self.close_over(h0, o0, k, n, base)
            if isinstance(v, Alt):
                raise Unsupported('comprehension of alternatives')
            return self.indexed(n, k, c, v)
        finally:
            self.st = State(saved, self.st.heap, self.st.pc)

    def close_over(self, h0, o0, k, n, base):
        """exceptions met while describing element k of n: some element meets them"""
        hs = self.hazards[h0:]
        del self.hazards[h0:]
        for c, exc, src in hs:
            self.hazards.append((tm.exists(ZERO, n, lambda j: tm.subst(c, {k: j})) if k in c.fb else c, exc, src))
        for o in self.outs[o0:]:
            if o.kind != 'raise':
                continue
            c = tm.and_(*o.st.pc[len(base.pc):])
            if k in c.fb:
                c = tm.exists(ZERO, n, lambda j: tm.subst(c, {k: j}))
            o.st = State(base.env, base.heap, base.pc + (c,))
            self.st.pc = self.st.pc + (tm.not_(c),)

    def pick(self, xs, k):
        if tm.is_int_const(k):
            return xs[int(tm.cval(k))]
        r = xs[-1]
        for i in range(len(xs) - 2, -1, -1):
            r = self.merge(tm.cmp('==', k, const(i)), xs[i], r)
        return r

    def indexed(self, n, k, c, v, islist=True):
        """the list of v(k) for k < n where c(k)"""
        s = lambda t, i: tm.subst(t, {k: i})
        if c is FALSE:
            return PyList([])
        if isinstance(v, Tup):
            v = PyList(v.items)
        if isinstance(v, PyList):
            v = self.as_arr(v)
        if isinstance(v, Filt):
            raise Unsupported('list of selections')
        if isinstance(v, Opaque):
            v = v.t
        if isinstance(v, T):
            if c is TRUE:
                return Arr((n,), lambda i: s(v, i), v.kind, islist)
            return Filt(n, lambda i: s(c, i), lambda i: s(v, i), v.kind, islist)
        if isinstance(v, Arr) and c is TRUE:
            if any(k in x.fb for x in v.shape):
                raise Unsupported('ragged list')
            return Arr((n,) + v.shape, lambda i, *r: s(self.hold(v, r), i), v.dtype, islist)
        raise Unsupported('list of %s' % type(v).__name__)

    def hold(self, v, r):
        # element of v at r; r may mention bound symbols that are in scope
        return v.get(*r)

    def comp_nested(self, e):
        raise Unsupported('nested comprehension')


def simplify_or(a, b):
    if tm.not_(a) is b or tm.not_(b) is a:
        return TRUE
    ats = {}
    if bool_atoms(a, ats) and bool_atoms(b, ats) and len(ats) <= 7:
        al = list(ats)
        t = tm.or_(a, b)
        if all(bool_eval(t, dict(zip(al, v))) for v in itertools.product((False, True), repeat=len(al))):
            return TRUE
        # common conjuncts
    ca = set(a.args[0]) if a.op == 'and' else {a}
    cb = set(b.args[0]) if b.op == 'and' else {b}
    com = ca & cb
    if com:
        ra, rb = tm.and_(*[x for x in (a.args[0] if a.op == 'and' else (a,)) if x not in com]), tm.and_(*[x for x in (b.args[0] if b.op == 'and' else (b,)) if x not in com])
        return tm.and_(*[x for x in (a.args[0] if a.op == 'and' else (a,)) if x in com], simplify_or(ra, rb))
    return tm.or_(a, b)


def bool_atoms(t, acc):
    if t in (TRUE, FALSE):
        return True
    if t.op in ('and', 'or'):
        return all(bool_atoms(x, acc) for x in t.args[0])
    if t.op == 'not':
        return bool_atoms(t.args[0], acc)
    acc[t] = 1
    return len(acc) <= 7


def bool_eval(t, v):
    if t is TRUE or t is FALSE:
        return t is TRUE
    if t.op == 'and':
        return all(bool_eval(x, v) for x in t.args[0])
    if t.op == 'or':
        return any(bool_eval(x, v) for x in t.args[0])
    if t.op == 'not':
        return not bool_eval(t.args[0], v)
    return v[t]


_locals = {}


def local_names(node):
    r = _locals.get(id(node))
    if r is None:
        s = set()

        def visit(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    s.add(c.name)
                    continue
                if isinstance(c, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                    continue
                if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                    s.add(c.id)
                if isinstance(c, (ast.Import, ast.ImportFrom)):
                    for a in c.names:
                        s.add((a.asname or a.name).split('.')[0])
                visit(c)
        visit(node)
        _locals[id(node)] = r = (s, node)
    return r[0]
