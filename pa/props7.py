"""C01 no effect on the arguments, C02 no hidden state, C31 form of every return."""
import importlib
import random
import time
from . import compare as cp
from . import terms as tm
from .freeze import Fz, outcome
from .val import Val, TooBig
from .values import Unsupported
from . import oblig
from .oblig import Result, Anchor, EXPLAIN
from . import effects
from .absval import *
from .public import PUBLIC, RANDOM, FORM, TEXT

EXPLAIN['EffectOb'] = ('Flow-sensitive, call-inlining alias and effect analysis of each public function on every kind of argument (float, integer, complex arrays, lists, matrices): every store, '
                       'in-place operator, mutating call and out= target is attributed to the memory it may write; every return to the memory it may share; calls that read or change hidden state are collected.')
EXPLAIN['FormOb'] = 'The same interpreter collects every return of each public function (for each documented option value) and the abstract form of what it returns: kind, arity, dictionary keys.'


def args_for(sig, dt, texts=()):
    a = []
    texts = list(texts)
    for i, k in enumerate(sig):
        al = {('arg', i)}
        if k in 'vr':
            a.append(AV('list', al, el=NUM) if dt == 'list' else arr(1, dt, al))
        elif k == 's':
            a.append(AV('list', al, el=NUM) if dt == 'list' else arr(1, 'i', al))
        elif k == 'm':
            a.append(AV('list', al, el=AV('list', al, el=NUM)) if dt == 'list' else arr(2, dt, al))
        elif k == 'n':
            a.append(NUM)
        elif k == 't':
            t = texts.pop(0) if texts else None
            a.append(AV('str', ref=t) if t is not None else STR)
        elif k == 'b':
            a.append(AV('bool', ref=texts.pop(0)) if texts and isinstance(texts[0], bool) else BOOL)
        else:
            a.append(ANY)
    return a


class EffectOb:
    def __init__(self, fn, sig, which):
        self.fn, self.sig, self.which = fn, sig, which
        self.name = fn.rsplit('.', 2)[-2] + '.' + fn.rsplit('.', 1)[-1] + ('(%s)' % sig)

    def run(self, loader, seed, tier, limit):
        t0 = time.time()
        mod, fn = self.fn.rsplit('.', 1)
        bad = []
        sites = calls = 0
        funcs = set()
        for dt in ('f', 'i', 'c', 'list'):
            try:
                A, r, rets = effects.analyse(loader, mod, fn, args_for(self.sig, dt))
            except effects.Anchor as e:
                raise Anchor(str(e))
            sites += A.writes
            calls += A.calls
            funcs |= A.functions
            pn = param_names(loader, mod, fn)
            who = lambda reg: 'argument %s' % (pn[reg[1]] if isinstance(reg[1], int) and reg[1] < len(pn) else reg[1])
            kind = {'f': 'float array', 'i': 'integer array', 'c': 'complex array', 'list': 'list'}[dt]
            if self.which == 'args':
                for k, what, src, reg in A.effects:
                    if k == 'write' and reg[0] == 'arg':
                        bad.append((src, '%s the caller\'s %s (%s)' % (what, who(reg), kind)))
                for v, src, x in rets:
                    for reg in sorted(o for o in owners(v) if o[0] == 'arg'):
                        bad.append((src, 'returns memory of the caller\'s %s (%s)' % (who(reg), kind)))
            else:
                for k, what, src, reg in A.effects:
                    if k == 'write' and reg[0] != 'arg':
                        bad.append((src, '%s the %s %s, which later calls see' % (what, {'global': 'module variable', 'default': 'default argument'}[reg[0]], reg[1])))
                    elif k in ('state', 'source'):
                        bad.append((src, what))
                    elif k == 'cache' and cached_mutable(loader, mod, what, src, reg):
                        bad.append((src, '%s of %s, which are arrays the caller may change' % (what, reg)))
                    elif k == 'random':
                        f = what.split()[-1]
                        if self.fn not in RANDOM:
                            bad.append((src, what + ' although the function is deterministic'))
                        elif not f.startswith('numpy.random.') or f.rsplit('.', 1)[-1] in ('default_rng', 'RandomState', 'Generator', 'SeedSequence', 'PCG64'):
                            bad.append((src, what + ', not from numpy\'s global generator'))
        st = {'functions': sorted(funcs), 'sites': sites, 'calls': calls, 'argument_kinds': 4}
        if bad:
            bad = sorted(set(bad), key=str)
            res = Result(self, 'violated', bad[0][1], [b[0] for b in bad[:4]], '; '.join('%s:%s %s' % (b[0][0], b[0][1], b[1]) for b in bad[:6]), st)
        else:
            res = Result(self, 'holds', stats=st)
        res.secs = time.time() - t0
        return res


def cached_mutable(loader, mod, what, src, name):
    m = next((x for x in loader.mods.values() if x.path.endswith(src[0])), None)
    if m is None:
        return False
    try:
        A, r, rets = effects.analyse(loader, m.name, name, [])
    except effects.Anchor:
        return True
    f = lambda v: v.kind in ('arr', 'list', 'dict') or v.kind in ('tuple', 'any') and any(f(x) for x in (v.it or (v.el,) if v.el is not None or v.it else ()))
    return f(r)


def param_names(loader, mod, fn):
    m = loader.find(mod)
    from .absint import Absint
    f = Absint(loader).module(m)[fn].ref
    return [a.arg for a in f.node.args.posonlyargs + f.node.args.args]


class FormOb:
    def __init__(self, fn, sig, form, texts):
        self.fn, self.sig, self.form, self.texts = fn, sig, form, texts
        self.name = fn.rsplit('.', 2)[-2] + '.' + fn.rsplit('.', 1)[-1] + (' %s' % (texts,) if texts else '')

    def run(self, loader, seed, tier, limit):
        t0 = time.time()
        mod, fn = self.fn.rsplit('.', 1)
        bad = []
        n = 0
        funcs = set()
        for dt in ('f', 'i') if 'r' not in self.sig else ('f', 'c'):
            try:
                A, r, rets = effects.analyse(loader, mod, fn, args_for(self.sig, dt, self.texts))
            except effects.Anchor as e:
                raise Anchor(str(e))
            funcs |= A.functions
            forms = self.form
            if self.texts and A.imprecise:
                forms = list(FORM[self.fn].values()) if isinstance(FORM[self.fn], dict) else [FORM[self.fn]]
            for v, src, explicit in rets:
                n += 1
                if v.kind == 'none':
                    continue        # decided on the value graph, where infeasible paths are known
                why = conflict(v, forms)
                if why:
                    bad.append((src, ('returns ' if explicit else 'can end without a return, giving ') + why + ' where %s is documented' % show(self.form)))
        st = {'functions': sorted(funcs), 'sites': n}
        if bad:
            bad = sorted(set(bad), key=str)
            res = Result(self, 'violated', bad[0][1], [b[0] for b in bad[:4]], '; '.join('%s:%s %s' % (b[0][0], b[0][1], b[1]) for b in bad[:6]), st)
        else:
            res = Result(self, 'holds', stats=st)
        res.secs = time.time() - t0
        return res


class FormVG:
    """the form of every outcome of a function's value graph, under valuations of its guards"""

    def __init__(self, ob, form):
        self.ob, self.form, self.fn = ob, form, ob.fn
        self.name = 'outcomes of %s: %s' % (ob.fn.rsplit('.', 1)[-1], ob.name)

    def run(self, loader, seed, tier, limit):
        ob = self.ob
        t0 = time.time()
        r = Result(self, 'undecided', 'construct outside the analysed subset')
        try:
            r = self.decide(ob, loader, seed, tier, time.time() + limit)
        except Anchor:
            raise
        except (Unsupported, tm.Budget, RecursionError, IndexError, KeyError, TypeError, AttributeError, ValueError, AssertionError, ZeroDivisionError, NotImplementedError, StopIteration, OverflowError) as e:
            r.why += ': %s' % str(e)[:120]
        r.secs = time.time() - t0
        return r

    def decide(self, ob, loader, seed, tier, deadline):
        mod, fn = ob.fn.rsplit('.', 1)
        if loader.find(mod) is None:
            raise Anchor(mod)
        tm.cur_src[0] = None
        o, assume = ob.interpret(loader, 'code', mod, fn, ob.build)
        code = Fz(o)
        smp = cp.Sampler(cp.all_subterms(code.terms()), list(assume), seed, ob.nmax, ob.nmin, ob.sizes)
        rng = random.Random(seed)
        st = {'functions': code.funcs, 'returns': len(code.rets), 'sites': len(code.rets), 'valuations': 0}
        for i in range(300):
            if st['valuations'] >= (25 if tier == 'quick' else 100) or time.time() > deadline:
                break
            v = Val((seed, i), smp.ints(i), mode='pool' if i % 4 == 3 else 'real', pnan=0.0, pbool=(0.1, 0.4, 0.6, 0.9)[i % 4], scale=3)
            if ob.vals:
                ob.vals(v, rng)
            try:
                if not all(v.ev(c) for c in assume):
                    continue
                a = outcome(v, code)
            except (TooBig, RecursionError, OverflowError, KeyError, IndexError, TypeError, AttributeError, AssertionError, ValueError):
                continue
            if a[0] == 'none':
                continue
            st['valuations'] += 1
            if a[0] == 'raise':
                if a[1] in ('UnboundLocalError', 'NameError'):
                    return Result(self, 'violated', 'a variable is read that no statement on the path has assigned (%s)' % a[1], [a[2]] if a[2] else [], 'with %s' % (dict(v.ints),), st)
                continue
            why = clash(a[1], self.form)
            if why:
                return Result(self, 'violated', 'returns %s where %s is documented' % (why, show(self.form)), [], 'with %s' % (dict(v.ints),), st)
        if st['valuations'] < 3:
            return Result(self, 'undecided', 'too few valuations', stats=st)
        return Result(self, 'holds', stats=st)


def clash(x, form):
    if isinstance(form, list):
        rs = [clash(x, f) for f in form]
        return None if None in rs else rs[0]
    if x is None:
        return 'None'
    if isinstance(x, str) and form in ('a', 'n', 'x', 'l'):
        return None
    if not isinstance(x, tuple):
        return None
    k = x[0]
    if isinstance(form, tuple):
        if k != 't':
            return None if k not in ('a', 'l', 'd') else 'one value'
        if len(x) - 1 != len(form):
            return '%d values' % (len(x) - 1)
        for i, (y, f) in enumerate(zip(x[1:], form)):
            c = clash(y, f)
            if c:
                return '%s as result %d' % (c, i + 1)
        return None
    if isinstance(form, frozenset):
        if k != 'd':
            return 'no dictionary' if k in ('a', 't', 'l') else None
        ks = {p[0].strip("'") for p in x[1:]}
        return None if ks == set(form) else 'a dictionary of %s' % ', '.join(sorted(ks))
    if k == 't' or k == 'd':
        return '%d values' % (len(x) - 1) if k == 't' else 'a dictionary'
    if k == 'a' and form == 'n' and len(x[1]) >= 1:
        return 'an array'
    return None


def show(f):
    if isinstance(f, tuple):
        return '(%s)' % ', '.join(show(x) for x in f)
    if isinstance(f, list):
        return ' or '.join(show(x) for x in f)
    if isinstance(f, frozenset):
        return 'a dictionary of ' + ', '.join(sorted(f))
    return {'a': 'an array', 'n': 'a number', 'o': 'a value', 'l': 'a list', 'x': 'an array or number', 'txt': 'text'}[f]


def conflict(v, form):
    """why the abstract value cannot have the form, or None; unknown values never conflict"""
    if isinstance(form, list):
        rs = [conflict(v, f) for f in form]
        return None if None in rs else rs[0]
    if v.kind == 'any':
        return None
    if isinstance(form, tuple):
        if v.kind != 'tuple':
            return 'one %s' % v.kind
        if v.it is None:
            return None
        if len(v.it) != len(form):
            return '%d values' % len(v.it)
        for i, (x, f) in enumerate(zip(v.it, form)):
            c = conflict(x, f)
            if c:
                return '%s as result %d' % (c, i + 1)
        return None
    if isinstance(form, frozenset):
        if v.kind != 'dict':
            return 'a %s' % v.kind
        if v.it is not None and isinstance(v.ref, tuple) and '?' not in v.ref and set(v.ref) != set(form):
            return 'a dictionary of %s' % ', '.join(map(str, v.ref))
        return None
    k = v.kind
    if form == 'txt':
        return None if k == 'str' else 'a ' + k
    if k in ('none', 'str', 'fn', 'dict', 'gen', 'tuple'):
        return 'None' if k == 'none' else 'a %s' % k
    if form == 'a' and (k in ('num', 'bool', 'list') or k == 'arr' and v.nd == 0):
        return 'a %s' % ('number' if k in ('num', 'bool', 'arr') else k)
    if form == 'n' and (k == 'list' or k == 'arr' and v.nd):
        return 'a list' if k == 'list' else 'an array'
    if form == 'l' and k in ('num', 'arr'):
        return 'a %s' % k
    return None


def C01():
    return [EffectOb(f, s, 'args') for f, s in PUBLIC]


def C02():
    return [EffectOb(f, s, 'state') for f, s in PUBLIC]


def C31():
    obs = []
    for f, s in PUBLIC:
        for texts in TEXT.get(f, [()]):
            form = FORM[f]
            if isinstance(form, dict):
                form = form[texts]
            obs.append(FormOb(f, s, form, texts))
    seen = set()
    for m in oblig.PROP_MODULES:
        if m in ('props7',):
            continue
        mod = importlib.import_module('pa.' + m)
        for pid in sorted(dir(mod)):
            g = getattr(mod, pid)
            if len(pid) == 3 and pid[0] == 'C' and pid[1:].isdigit() and callable(g) and g.__module__ == mod.__name__:
                for ob in g():
                    if isinstance(ob, oblig.Ob) and ob.fn in FORM and (ob.fn, ob.name) not in seen:
                        seen.add((ob.fn, ob.name))
                        form = FORM[ob.fn]
                        obs.append(FormVG(ob, list(form.values()) if isinstance(form, dict) else form))
    return obs
