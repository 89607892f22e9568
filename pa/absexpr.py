"""Expressions of the alias and effect analysis."""
import ast
from .absval import *
from . import abslib as lib


class Exprs:
    def own(self):
        return ('proadv', 'specs')

    def name(self, e, env):
        if e.id in env:
            return env[e.id]
        fn = self.stack[-1][0] if self.stack else None
        while fn is not None:
            if e.id in fn.env:
                return fn.env[e.id]
            fn = None
        g = self.module(self.frames[-1].mod)
        if e.id in g:
            return g[e.id]
        return AV('lib', ref='builtins.' + e.id)

    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c, env)
            return ANY
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, bool):
            return AV('bool', ref=v)
        if isinstance(v, (int, float, complex)):
            return AV('num', dt='c' if isinstance(v, complex) else None, ref=v if not isinstance(v, complex) else None)
        if isinstance(v, str):
            return AV('str', ref=v)
        return NONE if v is None else ANY

    def e_Name(self, e, env):
        return self.name(e, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        env[e.target.id] = v
        return v

    def e_Tuple(self, e, env):
        return self.seq('tuple', e, env)

    def e_List(self, e, env):
        return self.seq('list', e, env)

    def seq(self, kind, e, env):
        its = []
        star = None
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                if v.it is not None:
                    its += list(v.it)
                else:
                    star = join(star, self.element(v) if self.element(v) is not None else ANY)
            else:
                its.append(self.ev(x, env))
        if star is not None:
            for i in its:
                star = join(star, i)
            return AV(kind, el=star)
        return AV(kind, it=tuple(its))

    def e_Set(self, e, env):
        el = None
        for x in e.elts:
            el = join(el, self.ev(x, env))
        return AV('list', el=el)

    def e_Dict(self, e, env):
        vs = tuple(self.ev(v, env) for v in e.values)
        ks = tuple(k.value if isinstance(k, ast.Constant) else '?' for k in e.keys)
        return AV('dict', it=vs, ref=ks)

    def e_IfExp(self, e, env):
        self.ev(e.test, env)
        t = self.truth(e.test, env)
        r = None
        if t is not False:
            x = self.refine(e.test, dict(env), True)
            if x is not None:
                r = join(r, self.ev(e.body, x))
        if t is not True:
            x = self.refine(e.test, dict(env), False)
            if x is not None:
                r = join(r, self.ev(e.orelse, x))
        return r if r is not None else ANY

    def e_BoolOp(self, e, env):
        r = None
        for v in e.values:
            r = join(r, self.ev(v, env))
        return r

    def e_Compare(self, e, env):
        vs = [self.ev(e.left, env)] + [self.ev(c, env) for c in e.comparators]
        for v in vs:
            if v.kind == 'arr' and not any(isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in e.ops):
                return arr(max((x.nd or 0 for x in vs if x.kind == 'arr')) or None, 'b')
        if any(v.kind == 'any' for v in vs) and not any(isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in e.ops):
            return ANY
        return BOOL

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return BOOL
        if v.kind == 'arr':
            return arr(v.nd, v.dt)
        if v.kind == 'num':
            return AV('num', ref=-v.ref if isinstance(e.op, ast.USub) and isinstance(v.ref, (int, float)) else None)
        return AV(v.kind if v.kind in ('num', 'bool') else 'any')

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, op, a, b):
        if 'arr' in (a.kind, b.kind):
            if isinstance(op, ast.MatMult):
                return arr(max((a.nd or 2) + (b.nd or 2) - 2, 0) or None)
            nds = [x.nd for x in (a, b) if x.kind == 'arr']
            others = [x for x in (a, b) if x.kind != 'arr']
            nd = max(nds) if all(n is not None for n in nds) and all(o.kind in ('num', 'bool', 'list') for o in others) else None
            dt = 'c' if 'c' in (a.dt, b.dt) else ('f' if isinstance(op, ast.Div) else None)
            return arr(nd, dt)
        if a.kind == 'num' and b.kind == 'num' or {a.kind, b.kind} <= {'num', 'bool'}:
            return NUM if 'c' not in (a.dt, b.dt) else AV('num', dt='c')
        if isinstance(op, ast.Add) and a.kind == b.kind and a.kind in ('list', 'tuple'):
            if a.it is not None and b.it is not None:
                return AV(a.kind, it=a.it + b.it)
            return AV(a.kind, el=join(elems(a), elems(b)))
        if isinstance(op, ast.Mult):
            for x in (a, b):
                if x.kind in ('list', 'tuple'):
                    return AV(x.kind, el=elems(x))
        if isinstance(op, ast.Mod) and a.kind == 'str' or a.kind == b.kind == 'str':
            return STR
        return ANY

    def e_JoinedStr(self, e, env):
        return STR

    def e_Lambda(self, e, env):
        from .absint import FnObj
        return AV('fn', ref=FnObj(e, self.frames[-1].mod, dict(env), '<lambda>', {}))

    def e_Starred(self, e, env):
        return self.ev(e.value, env)

    def e_Slice(self, e, env):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(x, env)
        return AV('any', ref='slice')

    def comp(self, e, env, kind):
        env = dict(env)
        for g in e.generators:
            it = self.ev(g.iter, env)
            self.assign(g.target, self.element(it), env, e)
            for c in g.ifs:
                self.ev(c, env)
        if isinstance(e, ast.DictComp):
            self.ev(e.key, env)
            return AV('dict', el=self.ev(e.value, env))
        it0 = self.ev(e.generators[0].iter, env)
        v = self.ev(e.elt, env)
        if len(e.generators) == 1 and not e.generators[0].ifs and it0.kind in ('tuple', 'list') and it0.it is not None and len(it0.it) <= 6:
            its = []
            for x in it0.it:
                h = dict(env)
                self.assign(e.generators[0].target, x, h, e)
                its.append(self.ev(e.elt, h))
            return AV(kind, it=tuple(its))
        return AV(kind, el=v)

    def e_ListComp(self, e, env):
        return self.comp(e, env, 'list')

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env, 'gen')

    def e_SetComp(self, e, env):
        return self.comp(e, env, 'list')

    def e_DictComp(self, e, env):
        return self.comp(e, env, 'dict')

    def e_Yield(self, e, env):
        if e.value is not None:
            v = self.ev(e.value, env)
            self.frames[-1].gen = join(self.frames[-1].gen, v)
        return ANY

    def element(self, v):
        """what iteration yields"""
        if v.kind == 'arr':
            if v.nd is not None and v.nd >= 2:
                return arr(v.nd - 1, v.dt, v.al)
            return NUM if v.nd == 1 else AV('any')
        if v.kind in ('list', 'tuple', 'gen', 'any'):
            r = elems(v)
            return r if r is not None else ANY
        if v.kind == 'dict':
            return ANY
        return ANY

    # ------------------------------------------------------------ subscripts and attributes
    def e_Subscript(self, e, env):
        return self.subscript(self.ev(e.value, env), e.slice, env)

    def subscript(self, b, sl, env):
        if b.kind == 'arr':
            ix = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            ints = new = 0
            fancy = unknown = False
            for x in ix:
                if isinstance(x, ast.Slice):
                    self.ev(x, env)
                    continue
                if isinstance(x, ast.Constant) and x.value is Ellipsis:
                    continue
                v = self.ev(x, env)
                if v.kind == 'none' or v.kind == 'lib' and str(v.ref).endswith('newaxis'):
                    new += 1
                elif v.kind == 'num':
                    ints += 1
                elif v.kind in ('arr', 'list'):
                    fancy = True
                elif v.ref == 'slice':
                    pass
                else:
                    unknown = True
            if fancy:
                return arr(b.nd if len(ix) == 1 else None, b.dt)
            if unknown:
                return AV('any') if b.nd in (1, None) else AV('any')
            if b.nd is None:
                if ints and not any(isinstance(x, ast.Slice) for x in ix):
                    return AV('any')
                return arr(None, b.dt, b.al)
            nd = b.nd - ints + new
            return NUM if nd <= 0 else arr(nd, b.dt, b.al)
        if b.kind in ('list', 'tuple'):
            i = self.ev(sl, env)
            if isinstance(sl, ast.Slice) or i.ref == 'slice':
                return AV(b.kind, it=None, el=elems(b))
            if b.it is not None and i.kind == 'num' and isinstance(i.ref, int) and -len(b.it) <= i.ref < len(b.it):
                return b.it[i.ref]
            return self.element(b)
        if b.kind == 'dict':
            i = self.ev(sl, env)
            if b.it is not None and i.kind == 'str' and isinstance(b.ref, tuple) and i.ref in b.ref:
                return b.it[b.ref.index(i.ref)]
            r = elems(b)
            return r if r is not None else ANY
        self.ev(sl, env)
        if b.kind == 'any' and b.al and isinstance(sl, ast.Slice):
            return b
        if b.kind == 'any' and b.el is not None:
            return b.el
        return ANY

    def e_Attribute(self, e, env):
        b = self.ev(e.value, env)
        return self.attr(b, e.attr)

    def attr(self, b, name):
        if b.kind == 'mod':
            return self.member(b.ref, name)
        if b.kind == 'lib':
            return AV('lib', ref='%s.%s' % (b.ref, name))
        if b.kind == 'arr' or b.kind == 'any' and b.al:
            if name in ('T', 'flat', 'mT'):
                return b
            if name == 'real':
                return b
            if name == 'imag':
                return b if b.dt == 'c' else arr(b.nd, 'f')
            if name in ('size', 'ndim', 'itemsize', 'nbytes'):
                return AV('num', ref=b.nd if name == 'ndim' else None)
            if name == 'shape':
                return AV('tuple', it=(NUM,) * b.nd) if b.nd else AV('tuple', el=NUM)
            if name == 'base':
                return b
        return AV('meth', al=b.al, ref=(b, name)) if name else ANY

    # ------------------------------------------------------------ calls
    def e_Call(self, e, env):
        self.calls += 1
        f = e.func
        if isinstance(f, ast.Attribute):
            b = self.ev(f.value, env)
            if b.kind not in ('mod', 'lib'):
                args, kw = self.args(e, env)
                return self.method(e, f, b, args, kw, env)
            fv = self.attr(b, f.attr)
        else:
            fv = self.ev(f, env)
        args, kw = self.args(e, env)
        return self.apply(fv, args, kw, e, env)

    def args(self, e, env):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                if v.it is not None:
                    args += list(v.it)
                else:
                    args.append(AV('any', el=self.element(v), ref='*'))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                kw['**'] = v
            else:
                kw[k.arg] = v
        return args, kw

    def apply(self, fv, args, kw, e, env):
        if fv.kind == 'fn' and isinstance(fv.ref, tuple):
            r = None
            for f in fv.ref:
                r = join(r, self.enter(f, args, kw, e))
            return r
        if fv.kind == 'fn':
            return self.enter(fv.ref, args, kw, e)
        if fv.kind == 'lib':
            return lib.call(self, str(fv.ref), args, kw, e, env)
        if fv.kind == 'meth':
            return lib.method(self, fv.ref[0], fv.ref[1], args, kw, e)[0]
        return ANY

    def method(self, e, f, b, args, kw, env):
        r, nb = lib.method(self, b, f.attr, args, kw, e)
        if nb is not None and isinstance(f.value, ast.Name):
            env[f.value.id] = nb
        return r

    def enter(self, fn, args, kw, node):
        """inline a call"""
        from .absint import Frame
        a = fn.node.args
        if len(self.stack) > 40 or any(s[0] is fn and s[1] == (tuple(args), tuple(sorted(kw.items(), key=lambda x: x[0]))) for s in self.stack) or sum(s[0] is fn for s in self.stack) > 3:
            return ANY
        key = (id(fn), tuple(args), tuple(sorted(kw.items(), key=lambda x: x[0])))
        memo = self.__dict__.setdefault('memo', {})
        if key in memo:
            return memo[key][0]
        env = {}
        pos = a.posonlyargs + a.args
        for p, v in zip(pos, args):
            env[p.arg] = v
        if a.vararg:
            env[a.vararg.arg] = AV('tuple', it=tuple(args[len(pos):]))
        names = {p.arg for p in pos + a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                env[k] = v
        if a.kwarg:
            env[a.kwarg.arg] = AV('dict', el=None)
        for p in pos + a.kwonlyargs:
            if p.arg not in env:
                env[p.arg] = fn.defaults.get(p.arg, ANY)
        fr = Frame(fn.name, fn.mod)
        self.frames.append(fr)
        self.stack.append((fn, key[1:]))
        self.functions.add((fn.mod.name, fn.name))
        if isinstance(fn.node, ast.Lambda):
            r = self.ev(fn.node.body, env)
            fr.rets.append((r, self.src(fn.node), True))
        else:
            end = self.exec_(fn.node.body, env)
            if fr.gen is not None:
                r = AV('gen', el=fr.gen)
            else:
                if end is not None:
                    fr.rets.append((NONE, (self.src(fn.node)[0], fn.node.body[-1].lineno, fn.name), False))
                r = None
                for v, s, x in fr.rets:
                    r = join(r, v)
                if r is None:
                    r = ANY
        self.stack.pop()
        self.frames.pop()
        memo[key] = (r, fr.rets)
        self.last_rets = fr.rets
        return r

    # ------------------------------------------------------------ conditions
    def truth(self, e, env):
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.truth(e.operand, env)
            return None if t is None else not t
        if isinstance(e, ast.Name):
            v = self.name(e, env)
            if v.kind == 'bool' and v.ref is not None:
                return v.ref
            if v.kind in ('bool', 'any'):
                self.imprecise = True
            return False if v.kind == 'none' else None
        if isinstance(e, ast.BoolOp):
            ts = [self.truth(v, env) for v in e.values]
            if isinstance(e.op, ast.And):
                return False if False in ts else (True if all(t is True for t in ts) else None)
            return True if True in ts else (False if all(t is False for t in ts) else None)
        if isinstance(e, ast.Call):
            f = self.ev(e.func, env)
            if f.kind == 'lib' and f.ref == 'builtins.isinstance' and len(e.args) == 2:
                return lib.isinstance_(self.ev(e.args[0], env), self.ev(e.args[1], env))
            if f.kind == 'lib' and f.ref in ('builtins.callable',):
                return None
            if f.kind == 'lib' and f.ref in ('numpy.iscomplexobj',) and e.args:
                v = self.ev(e.args[0], env)
                return {'c': True, 'f': False, 'i': False}.get(v.dt)
            if f.kind == 'lib' and f.ref in ('numpy.isscalar',) and e.args:
                v = self.ev(e.args[0], env)
                return {'arr': False, 'list': False, 'tuple': False}.get(v.kind)
            if f.kind == 'lib' and f.ref == 'builtins.hasattr' and len(e.args) == 2:
                v = self.ev(e.args[0], env)
                if v.kind == 'list' and isinstance(e.args[1], ast.Constant) and e.args[1].value in ('ndim', 'shape', 'dtype', 'size'):
                    return False
                return None
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.ev(e.left, env), self.ev(e.comparators[0], env)
            o = e.ops[0]
            if any(x.kind in ('str', 'any') and x.ref is None and (y.kind == 'str' or y.kind in ('list', 'tuple') and y.it and y.it[0].kind == 'str') for x, y in ((a, b), (b, a))):
                self.imprecise = True
            if isinstance(o, (ast.Is, ast.IsNot)) and 'none' in (a.kind, b.kind):
                x = b if a.kind == 'none' else a
                if x.kind == 'any':
                    return None
                return (x.kind == 'none') == isinstance(o, ast.Is)
            if a.kind in ('num', 'str', 'bool') and b.kind in ('num', 'str', 'bool') and a.ref is not None and b.ref is not None:
                try:
                    x, y = a.ref, b.ref
                    return {ast.Eq: lambda: x == y, ast.NotEq: lambda: x != y, ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(o)]()
                except (KeyError, TypeError):
                    return None
            if isinstance(o, (ast.Eq, ast.NotEq)) and isinstance(e.left, ast.Call):
                f = self.ev(e.left.func, env)
                if f.kind == 'lib' and f.ref == 'builtins.type' and e.left.args:
                    t = lib.isinstance_(self.ev(e.left.args[0], env), b)
                    if t is False:
                        return isinstance(o, ast.NotEq)
                    return None
            if isinstance(o, (ast.In, ast.NotIn)) and a.kind == 'str' and a.ref is not None and b.it is not None and all(x.kind == 'str' and x.ref is not None for x in b.it):
                return (a.ref in [x.ref for x in b.it]) == isinstance(o, ast.In)
        return None

    def refine(self, e, env, val):
        """environment in which the condition has the value; None when it cannot"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.refine(e.operand, env, not val)
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And) == val:
            for v in e.values:
                env = self.refine(v, env, val)
                if env is None:
                    return None
            return env
        t = self.truth(e, env)
        if t is not None and t != val:
            return None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'isinstance' and len(e.args) == 2 and isinstance(e.args[0], ast.Name):
            x = env.get(e.args[0].id)
            if x is not None and x.kind == 'any' and val:
                k = lib.kind_of(self.ev(e.args[1], env))
                if k in ('num', 'str'):
                    env[e.args[0].id] = AV(k)
        return env
