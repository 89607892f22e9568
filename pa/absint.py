"""Flow-sensitive, context-sensitive (inlining) alias and effect analysis of the library's source.

Every call is evaluated on abstract arguments that name whose memory they are.  Reported: writes into memory that belongs to the
caller, to a module variable or to a default argument; what a function returns of it; hidden inputs and state (clock, files,
environment, random generator); and the form of every return.  Unknown library functions are taken to be pure and to return fresh memory."""
import ast
import os
from .absval import *

MAXDEPTH = 40


class FnObj:
    def __init__(self, node, mod, env, name, defaults):
        self.node, self.mod, self.env, self.name, self.defaults = node, mod, env, name, defaults


class Loop:
    def __init__(self):
        self.brk, self.cont = [], []


class Frame:
    def __init__(self, fn, mod):
        self.fn, self.mod = fn, mod
        self.rets, self.loops, self.globals, self.gen = [], [], set(), None


def joinenv(a, b):
    if a is None:
        return b
    if b is None:
        return a
    r = {}
    for k in a:
        if k in b:
            r[k] = a[k] if a[k] is b[k] else join(a[k], b[k])
        else:
            r[k] = a[k]
    for k in b:
        if k not in a:
            r[k] = b[k]
    return r


from .absexpr import Exprs  # noqa: E402


class Absint(Exprs):
    def __init__(self, loader):
        self.loader = loader
        self.mods = {}
        self.effects = []
        self.seen = set()
        self.stack = []
        self.frames = []
        self.functions = set()
        self.writes = 0
        self.calls = 0
        self.imprecise = False

    # ------------------------------------------------------------ modules
    def module(self, m):
        if m.name in self.mods:
            return self.mods[m.name]
        env = {}
        self.mods[m.name] = env
        env['__name__'] = STR
        fr = Frame('<module>', m)
        self.frames.append(fr)
        self.exec_(m.tree.body, env)
        self.frames.pop()
        for k, v in list(env.items()):
            if v.kind in ('arr', 'list', 'dict') and not v.al:
                env[k] = v.but(al={('global', m.name + '.' + k)})
        return env

    def src(self, node):
        fr = self.frames[-1]
        return (os.path.relpath(fr.mod.path, self.loader.roots[0]) if fr.mod.path.startswith(self.loader.roots[0]) else fr.mod.path, node.lineno, fr.fn)

    def effect(self, kind, what, node, region=None):
        e = (kind, what, self.src(node), region)
        if e not in self.seen:
            self.seen.add(e)
            self.effects.append(e)

    def write(self, av, node, what):
        self.writes += 1
        for r in av.al:
            self.effect('write', what, node, r)

    # ------------------------------------------------------------ statements
    def exec_(self, body, env):
        for s in body:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def stmt(self, s, env):
        m = getattr(self, 's_' + type(s).__name__, None)
        return m(s, env) if m else env

    def s_Expr(self, s, env):
        self.ev(s.value, env)
        return env

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env, s)
        return env

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env, s)
        return env

    def assign(self, t, v, env, node):
        if isinstance(t, ast.Name):
            if t.id in self.frames[-1].globals:
                self.effect('state', 'assigns the module variable %s' % t.id, node)
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            its = v.it if v.it is not None and (len(v.it) == n or star and len(v.it) >= n - 1) else None
            if star:
                k = star[0]
                if its is not None:
                    after = n - 1 - k
                    mid = its[k:len(its) - after]
                    its = its[:k] + (AV('list', it=tuple(mid)),) + its[len(its) - after:]
                else:
                    e = self.element(v)
                    its = tuple(e if i != k else AV('list', el=e) for i in range(n))
            elif its is None:
                its = (self.element(v),) * n
            for x, y in zip(t.elts, its):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env, node)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.write(b, node, 'stores into')
            if b.kind in ('list', 'dict', 'tuple') and isinstance(t.value, ast.Name):
                env[t.value.id] = b.but(it=None, el=join(elems(b), v), ref=None)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            self.write(b, node, 'sets .%s of' % t.attr)
            if b.kind in ('fn', 'mod', 'lib'):
                self.effect('state', 'sets attribute %s' % t.attr, node)

    def s_AugAssign(self, s, env):
        v = self.ev(s.value, env)
        t = s.target
        if isinstance(t, ast.Name):
            a = self.name(t, env)
            if t.id in self.frames[-1].globals:
                self.effect('state', 'assigns the module variable %s' % t.id, s)
            if a.kind in ('arr', 'list', 'any'):
                self.write(a, s, 'updates in place')
            if a.kind == 'arr':
                pass
            elif a.kind == 'list':
                env[t.id] = a.but(it=None, el=join(elems(a), self.element(v)))
            elif a.kind in ('num', 'bool') and v.kind in ('num', 'bool'):
                env[t.id] = NUM
            elif v.kind == 'arr':
                env[t.id] = arr(v.nd)
            elif a.kind == 'any' and a.al:
                pass
            else:
                env[t.id] = self.binop(s.op, a, v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.write(b, s, 'updates elements of')
            x = self.subscript(b, t.slice, env)
            if x.kind == 'arr':
                self.write(x, s, 'updates in place')
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            self.write(b, s, 'updates .%s of' % t.attr)
            if b.kind in ('fn', 'mod', 'lib'):
                self.effect('state', 'updates attribute %s' % t.attr, s)
        return env

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.write(self.ev(t.value, env), s, 'deletes from')
            elif isinstance(t, ast.Name):
                env.pop(t.id, None)
        return env

    def s_Return(self, s, env):
        v = self.ev(s.value, env) if s.value is not None else NONE
        self.frames[-1].rets.append((v, self.src(s), s.value is not None))
        return None

    def s_Raise(self, s, env):
        if s.exc is not None:
            self.ev(s.exc, env)
        for tr in self.frames[-1].__dict__.get('tries', []):
            tr.append(dict(env))
        return None

    def s_Global(self, s, env):
        self.frames[-1].globals |= set(s.names)
        return env

    def s_Assert(self, s, env):
        self.ev(s.test, env)
        return self.refine(s.test, env, True)

    def s_If(self, s, env):
        self.ev(s.test, env)
        t = self.truth(s.test, env)
        a = b = None
        if t is not False:
            a = self.refine(s.test, dict(env), True)
            a = self.exec_(s.body, a) if a is not None else None
        if t is not True:
            b = self.refine(s.test, dict(env), False)
            b = self.exec_(s.orelse, b) if b is not None else None
        return joinenv(a, b)

    def loop(self, env, step, orelse, may_skip=True):
        """run the body to a fixed point"""
        L = Loop()
        self.frames[-1].loops.append(L)
        head = dict(env)
        for _ in range(8):
            L.brk, L.cont = [], []
            out = step(dict(head))
            for c in L.cont:
                out = joinenv(out, c)
            new = joinenv(head, out) if out is not None else head
            if new == head:
                break
            head = new
        self.frames[-1].loops.pop()
        end = self.exec_(orelse, dict(head)) if orelse else head
        for b in L.brk:
            end = joinenv(end, b)
        return end

    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        e = self.element(it)

        def step(h):
            self.assign(s.target, e, h, s)
            return self.exec_(s.body, h)
        return self.loop(env, step, s.orelse)

    def s_While(self, s, env):
        always = isinstance(s.test, ast.Constant) and bool(s.test.value)

        def step(h):
            self.ev(s.test, h)
            h = self.refine(s.test, h, True)
            return self.exec_(s.body, h) if h is not None else None
        if always:
            L = Loop()
            self.frames[-1].loops.append(L)
            head = dict(env)
            for _ in range(8):
                L.brk, L.cont = [], []
                out = self.exec_(s.body, dict(head))
                for c in L.cont:
                    out = joinenv(out, c)
                new = joinenv(head, out) if out is not None else head
                if new == head:
                    break
                head = new
            self.frames[-1].loops.pop()
            end = None
            for b in L.brk:
                end = joinenv(end, b)
            return end
        return self.loop(env, step, s.orelse)

    def s_Break(self, s, env):
        self.frames[-1].loops[-1].brk.append(env)
        return None

    def s_Continue(self, s, env):
        self.frames[-1].loops[-1].cont.append(env)
        return None

    def s_Try(self, s, env):
        pre = dict(env)
        fr = self.frames[-1]
        tries = fr.__dict__.setdefault('tries', [])
        mine = []
        tries.append(mine)
        out = self.exec_(s.body, dict(env))
        tries.remove(mine)
        mid = joinenv(pre, out) if out is not None else pre
        for x in mine:
            mid = joinenv(mid, x)
        # anything assigned in the body may already be assigned
        end = self.exec_(s.orelse, out) if out is not None else None
        for h in s.handlers:
            e = dict(mid)
            if h.name:
                e[h.name] = ANY
            end = joinenv(end, self.exec_(h.body, e))
        if s.finalbody:
            f = self.exec_(s.finalbody, dict(end if end is not None else mid))
            end = f if end is not None else None
        return end

    def s_With(self, s, env):
        for i in s.items:
            v = self.ev(i.context_expr, env)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, env, s)
        return self.exec_(s.body, env)

    def s_FunctionDef(self, s, env):
        ds = {}
        a = s.args
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            v = self.ev(d, env)
            if v.kind in ('list', 'dict', 'arr') and not v.al:
                v = v.but(al={('default', s.name + '.' + p.arg)})
            ds[p.arg] = v
        for d in s.decorator_list:
            self.decorator(d, s, env)
        env[s.name] = AV('fn', ref=FnObj(s, self.frames[-1].mod, env, s.name, ds))
        return env

    def decorator(self, d, s, env):
        x = d.func if isinstance(d, ast.Call) else d
        v = self.ev(x, env)
        nm = str(v.ref) if v.kind == 'lib' else ''
        if nm.rsplit('.', 1)[-1] in ('lru_cache', 'cache', 'cached_property', 'memoize'):
            self.effect('cache', 'keeps results between calls', s, s.name)

    def s_ClassDef(self, s, env):
        env[s.name] = AV('lib', ref='class.' + s.name)
        return env

    def s_Import(self, s, env):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            env[nm] = self.modval(a.name if a.asname else a.name.split('.')[0])
        return env

    def modval(self, name):
        if name.split('.')[0] in self.own():
            m = self.loader.find(name)
            return AV('mod', ref=m.name if m else name)
        return AV('lib', ref=name)

    def s_ImportFrom(self, s, env):
        base = s.module or ''
        if s.level:
            me = self.frames[-1].mod
            pk = me.name.split('.')
            if not me.path.endswith('__init__.py'):
                pk = pk[:-1]
            pk = pk[:len(pk) - (s.level - 1)]
            base = '.'.join(pk + ([base] if base else []))
        for a in s.names:
            if base.split('.')[0] in self.own():
                m = self.loader.find(base)
                if a.name == '*':
                    if m:
                        env.update({k: v for k, v in self.module(m).items() if not k.startswith('_')})
                    continue
                env[a.asname or a.name] = self.member(base, a.name)
            else:
                env[a.asname or a.name] = AV('lib', ref=base + '.' + a.name)
        return env

    def member(self, base, name):
        m = self.loader.find(base)
        if m is not None:
            g = self.module(m)
            if name in g:
                return g[name]
        sub = self.loader.find(base + '.' + name)
        if sub is not None:
            return AV('mod', ref=sub.name)
        return ANY
