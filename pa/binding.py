"""Which names a package offers, and whether documented calls bind to the source signatures."""
import ast
import os
import re


class Fn:
    def __init__(self, node, mod, cls=False):
        self.node, self.mod, self.cls = node, mod, cls


class Mod:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree


class Package:
    def __init__(self, root, top):
        self.mods = {}
        base = os.path.join(root, top)
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ('tests', '__pycache__'))
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    n = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                    if n.endswith('.__init__'):
                        n = n[:-9]
                    self.mods[n] = Mod(n, p, ast.parse(open(p).read(), p))
        self.ns = {}
        self.loaded = None

    def is_pkg(self, n):
        return self.mods[n].path.endswith('__init__.py')

    def absolute(self, mod, node):
        if not node.level:
            return node.module or ''
        parts = mod.split('.')
        if not self.is_pkg(mod):
            parts = parts[:-1]
        if node.level > 1:
            parts = parts[:len(parts) - node.level + 1]
        return '.'.join(parts + ([node.module] if node.module else []))

    def closure(self, start):
        """modules loaded by importing start"""
        seen, todo = set(), [start]
        while todo:
            m = todo.pop()
            if m in seen or m not in self.mods:
                continue
            seen.add(m)
            parts = m.split('.')
            todo += ['.'.join(parts[:i]) for i in range(1, len(parts))]
            for n in self.toplevel(self.mods[m].tree):
                if isinstance(n, ast.Import):
                    todo += [a.name for a in n.names]
                elif isinstance(n, ast.ImportFrom):
                    b = self.absolute(m, n)
                    todo.append(b)
                    todo += [b + '.' + a.name for a in n.names if b + '.' + a.name in self.mods]
        return seen

    def toplevel(self, tree):
        """statements run at import"""
        todo = list(tree.body)
        while todo:
            n = todo.pop(0)
            yield n
            if isinstance(n, (ast.If, ast.Try, ast.With)):
                for f in ('body', 'orelse', 'finalbody'):
                    todo = list(getattr(n, f, [])) + todo
                for h in getattr(n, 'handlers', []):
                    todo = h.body + todo

    def names(self, mod):
        """name -> Fn | ('mod', name) | ('expr', node) | ('ext',) bound by a module's own statements, last binding wins"""
        if mod in self.ns:
            return self.ns[mod]
        r = self.ns[mod] = {}
        for n in self.toplevel(self.mods[mod].tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                r[n.name] = Fn(n, mod)
            elif isinstance(n, ast.ClassDef):
                r[n.name] = ('class', n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        r[a.asname] = ('mod', a.name) if a.name in self.mods else ('ext',)
                    else:
                        t = a.name.split('.')[0]
                        r[t] = ('mod', t) if t in self.mods else ('ext',)
            elif isinstance(n, ast.ImportFrom):
                b = self.absolute(mod, n)
                for a in n.names:
                    k = a.asname or a.name
                    if b.split('.')[0] not in {m.split('.')[0] for m in self.mods}:
                        r[k] = ('ext',)
                    elif a.name == '*':
                        if b in self.mods:
                            for x, v in self.names(b).items():
                                if not x.startswith('_'):
                                    r[x] = v
                    else:
                        r[k] = ('from', b, a.name, n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            r[x.id] = ('expr', n.value if isinstance(t, ast.Name) else None, mod)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                r[n.target.id] = ('expr', n.value, mod)
        return r

    def attr(self, mod, name, depth=0):
        """what mod.name is: Fn, ('mod', ..), ('expr', ..), ('ext',) or None when it is not there"""
        if depth > 12 or mod not in self.mods:
            return None
        v = self.names(mod).get(name)
        sub = mod + '.' + name
        if v is None:
            if sub in self.mods:
                return ('mod', sub)
            if '__getattr__' in self.names(mod):
                return ('ext',)
            return None
        if isinstance(v, tuple) and v[0] == 'from':
            b, n = v[1], v[2]
            if b not in self.mods:
                return None
            if b == mod and b + '.' + n in self.mods:
                return ('mod', b + '.' + n)
            w = self.attr(b, n, depth + 1)
            return w
        if isinstance(v, tuple) and v[0] == 'expr' and isinstance(v[1], (ast.Name, ast.Attribute)):
            w = self.resolve_in(mod, v[1], depth + 1)
            return w if w is not None else v
        return v

    def resolve_in(self, mod, e, depth=0):
        if isinstance(e, ast.Name):
            return self.attr(mod, e.id, depth)
        if isinstance(e, ast.Attribute):
            b = self.resolve_in(mod, e.value, depth)
            if isinstance(b, tuple) and b[0] == 'mod':
                return self.attr(b[1], e.attr, depth)
            return ('ext',) if b is not None and not isinstance(b, Fn) and b[0] in ('ext', 'expr') else None
        return ('ext',)

    def path(self, dotted, loaded=None):
        """resolve a full dotted path; loaded: modules known to be imported (a submodule nobody imported is no attribute)"""
        parts = dotted.split('.')
        if parts[0] not in self.mods:
            return None
        cur = ('mod', parts[0])
        for p in parts[1:]:
            if not (isinstance(cur, tuple) and cur[0] == 'mod'):
                return ('ext',) if cur is not None and not isinstance(cur, Fn) and cur[0] in ('ext', 'expr', 'class') else None
            nxt = self.attr(cur[1], p)
            if loaded is not None and nxt == ('mod', cur[1] + '.' + p) and nxt[1] not in loaded:
                return None
            cur = nxt
            if cur is None:
                return None
        return cur


def constant(pkg, mod, e, depth=0):
    """('c', value) of a constant expression, else None"""
    if depth > 8 or e is None:
        return None
    if isinstance(e, ast.Constant):
        return ('c', e.value)
    if isinstance(e, ast.UnaryOp):
        v = constant(pkg, mod, e.operand, depth + 1)
        if v and isinstance(v[1], (int, float, complex)):
            if isinstance(e.op, ast.USub):
                return ('c', -v[1])
            if isinstance(e.op, ast.UAdd):
                return v
            if isinstance(e.op, ast.Not):
                return ('c', not v[1])
        return None
    if isinstance(e, ast.BinOp):
        a, b = constant(pkg, mod, e.left, depth + 1), constant(pkg, mod, e.right, depth + 1)
        if a and b and all(isinstance(x[1], (int, float)) for x in (a, b)):
            try:
                x, y = a[1], b[1]
                op = type(e.op).__name__
                if op == 'Pow' and (abs(y) > 400 or abs(x) > 1e6):
                    return None
                return ('c', {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y, 'Div': lambda: x / y, 'Pow': lambda: x ** y, 'FloorDiv': lambda: x // y, 'Mod': lambda: x % y}[op]())
            except (KeyError, ArithmeticError):
                return None
        return None
    if isinstance(e, (ast.Tuple, ast.List)):
        vs = [constant(pkg, mod, x, depth + 1) for x in e.elts]
        return ('c', tuple(v[1] for v in vs)) if all(vs) else None
    if isinstance(e, ast.Name):
        v = pkg.attr(mod, e.id)
        if isinstance(v, tuple) and v[0] == 'expr' and v[1] is not None:
            return constant(pkg, v[2], v[1], depth + 1)
        return None
    if isinstance(e, ast.Attribute):
        t = ast.unparse(e)
        k = {'np.pi': 3.141592653589793, 'numpy.pi': 3.141592653589793, 'math.pi': 3.141592653589793, 'np.inf': float('inf'), 'numpy.inf': float('inf'), 'np.e': 2.718281828459045}
        if t in k:
            return ('c', k[t])
        v = pkg.resolve_in(mod, e)
        if isinstance(v, tuple) and v[0] == 'expr' and len(v) > 2 and v[1] is not None:
            return constant(pkg, v[2], v[1], depth + 1)
        return None
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('float', 'int', 'tuple', 'dict', 'list') and not e.keywords:
        if not e.args:
            return ('c', {'float': 0.0, 'int': 0, 'tuple': (), 'dict': (), 'list': ()}[e.func.id])
        if len(e.args) == 1 and e.func.id in ('float', 'int'):
            v = constant(pkg, mod, e.args[0], depth + 1)
            if v and isinstance(v[1], (int, float, str)):
                try:
                    return ('c', float(v[1]) if e.func.id == 'float' else int(v[1]))
                except ValueError:
                    return None
    return None


def signature(pkg, f):
    """[(name, kind, default expr or None)] and whether *args, **kwargs are taken"""
    a = f.node.args
    pos = a.posonlyargs + a.args
    dfl = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
    out = [(p.arg, 'posonly' if i < len(a.posonlyargs) else 'pos', d) for i, (p, d) in enumerate(zip(pos, dfl))]
    out += [(p.arg, 'kw', d) for p, d in zip(a.kwonlyargs, a.kw_defaults)]
    return out, a.vararg is not None, a.kwarg is not None


def default_value(pkg, f, name, e):
    """the value a parameter has when it is not given; None-then-replaced counts as the replacement"""
    v = constant(pkg, f.mod, e)
    if v is not None and v[1] is None:
        for st in f.node.body:
            if isinstance(st, ast.If) and isinstance(st.test, ast.Compare) and isinstance(st.test.left, ast.Name) and st.test.left.id == name and len(st.test.ops) == 1 \
                    and isinstance(st.test.ops[0], (ast.Is, ast.Eq)) and isinstance(st.test.comparators[0], ast.Constant) and st.test.comparators[0].value is None:
                for b in st.body:
                    if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and b.targets[0].id == name:
                        return constant(pkg, f.mod, b.value), True
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id == name and isinstance(st.value, ast.IfExp):
                t = st.value.test
                if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == name and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
                    return constant(pkg, f.mod, st.value.body if isinstance(t.ops[0], (ast.Is, ast.Eq)) else st.value.orelse), True
    return v, False


def bind(pkg, f, call):
    """why a call does not bind, or None"""
    ps, var, kw = signature(pkg, f)
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return None
    pos = [p for p in ps if p[1] != 'kw']
    if len(call.args) > len(pos) and not var:
        return 'takes %d positional arguments, %d are shown' % (len(pos), len(call.args))
    given = {p[0] for p in pos[:len(call.args)]}
    for k in call.keywords:
        if k.arg in given:
            return 'argument %s is given twice' % k.arg
        if k.arg not in {p[0] for p in ps if p[1] != 'posonly'} and not kw:
            return 'has no parameter %s' % k.arg
        given.add(k.arg)
    for n, kind, d in ps:
        if d is None and n not in given:
            return 'needs the argument %s, which is not shown' % n
    return None


def snippets(root):
    """[(where, first line, source)] of documented code: example programs, fenced blocks, docstring prompts"""
    out = []
    for top in ('examples', 'docs'):
        for d, ds, fs in os.walk(os.path.join(root, top)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith('.py'):
                    out.append((os.path.relpath(p, root), 1, open(p, errors='replace').read()))
                elif f.endswith('.md'):
                    out += fenced(p, root)
    r = os.path.join(root, 'README.md')
    if os.path.exists(r):
        out += fenced(r, root)
    return out


def fenced(p, root):
    out = []
    cur, start, ind = None, 0, 0
    for i, l in enumerate(open(p, errors='replace').read().splitlines(), 1):
        if cur is None:
            m = re.match(r'(\s*)```\s*(python|py)\b', l)
            if m:
                cur, start = [], i + 1
        elif l.strip().startswith('```'):
            out.append((os.path.relpath(p, root), start, '\n'.join(cur)))
            cur = None
        else:
            cur.append(l)
    return [(a, b, unprompt(c)) for a, b, c in out]


def unprompt(s):
    ls = s.splitlines()
    if any(l.lstrip().startswith('>>>') for l in ls):
        return '\n'.join(l.lstrip()[4:] if l.lstrip().startswith(('>>> ', '... ')) else '' for l in ls)
    import textwrap
    return textwrap.dedent(s)


def docstrings(pkg):
    out = []
    for m in pkg.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
                d = ast.get_docstring(n, clean=False)
                if d and '>>>' in d:
                    line = n.body[0].lineno if n.body else 1
                    out.append((m.path, line, unprompt(d)))
    return out


def uses(pkg, src, top):
    """[(kind, line, dotted path, call node or None)] of package names in a snippet"""
    try:
        tree = ast.parse(src)
    except SyntaxError:
        return None
    alias, out = {}, []
    loaded = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name.split('.')[0] == top:
                    alias[a.asname or top] = a.name if a.asname else top
                    out.append(('import', n.lineno, a.name, None))
                    loaded |= pkg.closure(a.name)
        elif isinstance(n, ast.ImportFrom) and n.module and n.module.split('.')[0] == top and not n.level:
            loaded |= pkg.closure(n.module)
            for a in n.names:
                if a.name != '*':
                    alias[a.asname or a.name] = n.module + '.' + a.name
                    out.append(('from', n.lineno, n.module + '.' + a.name, None))
    called = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call):
            d = dotted(n.func)
            if d and d.split('.')[0] in alias:
                h = d.split('.')
                out.append(('call', n.lineno, '.'.join([alias[h[0]]] + h[1:]), n))
                called.add(id(n.func))
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) and id(n) not in called:
            d = dotted(n)
            if d and d.split('.')[0] in alias:
                h = d.split('.')
                out.append(('attr', n.lineno, '.'.join([alias[h[0]]] + h[1:]), None))
    return out, loaded


def dotted(f):
    if isinstance(f, ast.Name):
        return f.id
    if isinstance(f, ast.Attribute):
        b = dotted(f.value)
        return None if b is None else b + '.' + f.attr
    return None
