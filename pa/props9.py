"""C30 documented names, parameters and defaults."""
import ast
import json
import os
import time
from . import oblig
from .oblig import Result, EXPLAIN
from . import binding as bd

EXPLAIN['BindOb'] = ('The names each module offers are computed from its imports and definitions. Every import, attribute path and call of the library in the example programs, the fenced blocks of the '
                     'documentation and the docstring prompts is resolved to a definition and bound to its parameters; every documented signature is compared with the source: names, order and default '
                     'values (constant-folded, through module constants and None-then-replace); and every call and import inside the library is resolved and bound the same way.')


def same(a, b):
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


class BindOb:
    def __init__(self, name, kind, arg):
        self.name, self.kind, self.arg, self.fn = name, kind, arg, name

    def run(self, loader, seed, tier, limit):
        t0 = time.time()
        pkg = bd.Package(oblig.REPO, 'proadv')
        bad, n, und = getattr(self, self.kind)(pkg)
        st = {'sites': n, 'rule': self.kind}
        if bad:
            r = Result(self, 'violated', bad[0][2], [(b[0], b[1]) for b in bad[:4]], '; '.join('%s:%s %s' % b for b in bad[:6]), st)
        elif und:
            r = Result(self, 'undecided', und[0], stats=st)
        else:
            r = Result(self, 'holds', stats=st)
        r.secs = time.time() - t0
        return r

    def rel(self, p):
        return os.path.relpath(p, oblig.REPO) if os.path.isabs(p) else p

    def signature(self, pkg):
        full = self.name
        want = self.arg
        v = pkg.path(full)
        mod = full.rsplit('.', 1)[0]
        where = self.rel(pkg.mods[mod].path) if mod in pkg.mods else 'proadv'
        if v is None:
            return [(where, 1, '%s is not there' % full)], 1, []
        if not isinstance(v, bd.Fn):
            return [], 1, ['%s is no plain function' % full]
        where, line = self.rel(pkg.mods[v.mod].path), v.node.lineno
        if v.node.decorator_list:
            known = all((bd.dotted(d.func if isinstance(d, ast.Call) else d) or '').rsplit('.', 1)[-1] in ('lru_cache', 'cache', 'wraps', 'jit', 'njit') for d in v.node.decorator_list)
            if not known:
                return [], 1, ['%s is decorated' % full]
        ps, var, kw = bd.signature(pkg, v)
        bad, und = [], []
        pos = [p for p in ps if p[1] != 'kw']
        for i, (n, kind, d) in enumerate(want):
            if kind == 'kw':
                got = next((p for p in ps if p[0] == n and p[1] != 'posonly'), None)
                if got is None:
                    if not kw:
                        bad.append((where, line, '%s no longer takes %s by keyword' % (full, n)))
                    continue
            else:
                if i >= len(pos):
                    if var and kw:
                        und.append('%s takes *args and **kwargs' % full)
                        break
                    bad.append((where, line, '%s no longer takes %s as parameter %d' % (full, n, i + 1)))
                    continue
                got = pos[i]
                if got[0] != n or got[1] == 'posonly':
                    bad.append((where, line, 'parameter %d of %s is %s%s; documented is %s' % (i + 1, full, got[0], ' (positional only)' if got[1] == 'posonly' else '', n)))
                    continue
            if d is None and got[2] is not None:
                pass
            elif d is not None and got[2] is None:
                bad.append((where, line, '%s of %s has lost its default %r' % (n, full, d[0])))
            elif d is not None:
                val, repl = bd.default_value(pkg, v, n, got[2])
                if repl and d[0] is None:
                    pass
                elif val is None:
                    und.append('default of %s in %s is not a constant expression' % (n, full))
                elif not same(val[1], d[0] if not isinstance(d[0], list) else tuple(d[0])) and not (repl and d[0] is None):
                    bad.append((where, line, 'default of %s in %s is %r; documented is %r' % (n, full, val[1], d[0])))
        for n, kind, d in ps:
            if d is None and n not in {w[0] for w in want}:
                bad.append((where, line, '%s needs an undocumented argument %s' % (full, n)))
        return bad, len(want) + 1, und

    def documented(self, pkg):
        bad, n = [], 0
        if self.arg == 'docstrings':
            sn = bd.docstrings(pkg)
        else:
            sn = [s for s in bd.snippets(oblig.REPO) if s[0].startswith(self.arg)]
        for w, l, src in sn:
            u = bd.uses(pkg, src, 'proadv')
            if u is None:
                continue
            us, loaded = u
            for kind, ln, d, c in us:
                n += 1
                v = pkg.path(d, loaded if kind in ('call', 'attr') else None)
                if v is None:
                    bad.append((self.rel(w), l + ln - 1, '%s, shown here, does not exist' % d))
                elif kind == 'call' and isinstance(v, bd.Fn) and not v.node.decorator_list:
                    b = bd.bind(pkg, v, c)
                    if b:
                        bad.append((self.rel(w), l + ln - 1, '%s %s (%s:%d)' % (d, b, self.rel(pkg.mods[v.mod].path), v.node.lineno)))
        return bad, n, []

    def inside(self, pkg):
        bad, n = [], 0
        for m in pkg.mods.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.ImportFrom):
                    b = pkg.absolute(m.name, x)
                    if b.split('.')[0] != 'proadv':
                        continue
                    for a in x.names:
                        n += 1
                        if a.name != '*' and (b not in pkg.mods or pkg.attr(b, a.name) is None):
                            bad.append((self.rel(m.path), x.lineno, 'imports %s.%s, which does not exist' % (b, a.name)))
                elif isinstance(x, ast.Import):
                    for a in x.names:
                        if a.name.split('.')[0] == 'proadv':
                            n += 1
                            if a.name not in pkg.mods:
                                bad.append((self.rel(m.path), x.lineno, 'imports %s, which does not exist' % a.name))
            for f, local in scopes(m.tree):
                for c in f:
                    if isinstance(c, ast.Call):
                        d = bd.dotted(c.func)
                        if not d or d.split('.')[0] in local:
                            continue
                        v = pkg.resolve_in(m.name, c.func)
                        if isinstance(v, bd.Fn) and not v.node.decorator_list:
                            n += 1
                            b = bd.bind(pkg, v, c)
                            if b:
                                bad.append((self.rel(m.path), c.lineno, 'the call of %s does not bind: it %s' % (d, b)))
        return bad, n, []


def scopes(tree):
    """[(expressions of one function, names local to it or to the functions around it)]"""
    out = []

    def go(node, local):
        exprs = []
        mine = set(local)
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = node.args
            mine |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        todo = list(ast.iter_child_nodes(node))
        kids = []
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                kids.append(x)
                if not isinstance(x, ast.Lambda) and not isinstance(node, ast.Module):
                    mine.add(x.name)
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and not isinstance(node, ast.Module):
                mine.add(x.id)
            if isinstance(x, (ast.Import, ast.ImportFrom)) and not isinstance(node, ast.Module):
                mine |= {(al.asname or al.name).split('.')[0] for al in x.names}
            exprs.append(x)
            todo += list(ast.iter_child_nodes(x))
        out.append((exprs, mine))
        for k in kids:
            go(k, mine)
    go(tree, set())
    return out


def C30():
    sig = json.load(open(os.path.join(oblig.HERE, 'specs', 'signatures.json')))
    return [BindOb(k, 'signature', v) for k, v in sig.items()] + [BindOb('documented calls in ' + a, 'documented', a) for a in ('examples', 'docs', 'README', 'docstrings')] + [
        BindOb('calls and imports inside the library', 'inside', None)]
