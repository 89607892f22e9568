"""Obligations on which inputs a function rejects: the guarded raises and returns of its value graph under a scenario."""
import random
import time
from . import compare as cp
from . import terms as tm
from .freeze import Fz, outcome, value
from .interp import is_exc
from .val import Val, TooBig
from .values import Unsupported
from .oblig import Result, Anchor, EXPLAIN, brief
from .drive import call

EXPLAIN['GuardOb'] = ('Each function is turned into a gated value graph over the symbolic arguments of one scenario (an input the documentation rejects, or a boundary input it accepts). Under every '
                      'valuation of the scenario the outcome selected by the guards, explicit raises and implicit exceptions must be the documented exception, or a return of the documented length.')
SKIP = (TooBig, RecursionError, OverflowError, KeyError, IndexError, TypeError, AttributeError, AssertionError, ValueError, ZeroDivisionError)


class GuardOb:
    def __init__(self, name, fn, build, want=None, hook=None, nmin=0, nmax=12, sizes=('n',), heads=(), length=None, rounds=40, check=None):
        """want: exception class names, or None when the call must return; length: size symbol the returned array has"""
        self.name, self.fn, self.build, self.want, self.hook = name, fn, build, want, hook
        self.nmin, self.nmax, self.sizes, self.allowed, self.length, self.rounds, self.check = nmin, nmax, sizes, set(heads), length, rounds, check

    def run(self, loader, seed, tier, limit):
        t0 = time.time()
        try:
            r = self.decide(loader, seed, tier, t0 + limit)
        except Anchor:
            raise
        except (Unsupported, tm.Budget, NotImplementedError, StopIteration) + SKIP as e:
            r = Result(self, 'undecided', 'construct outside the analysed subset: %s %s' % (type(e).__name__, str(e)[:120]))
        r.secs = time.time() - t0
        return r

    def decide(self, loader, seed, tier, deadline):
        mod, fn = self.fn.rsplit('.', 1)
        if loader.find(mod) is None:
            raise Anchor(mod)
        tm.cur_src[0] = None
        args, kwargs, assume = self.build()
        try:
            o = call(loader, mod, fn, args, kwargs, assume)
        except KeyError as e:
            if str(e) == repr(fn):
                raise Anchor('%s.%s' % (mod, fn))
            raise
        code = Fz(o)
        guards = [c for c, v in code.rets] + [c for c, e, s in code.raises] + [c for c, e, s in code.hazards]
        subs = cp.all_subterms(guards)
        smp = cp.Sampler(subs if len(subs) < 60000 else {}, list(assume), seed, self.nmax, self.nmin, self.sizes)
        far = sorted({int(tm.cval(x)) for t in subs.values() if t.op == 'cmp' for x in t.args[1:] if tm.is_int_const(x) and 12 <= abs(tm.cval(x)) <= 420})[:6]
        far = [c + d for c in far for d in (-1, 0, 1, 2)] if self.sizes else []
        rng = random.Random(seed)
        st = {'functions': code.funcs, 'returns': len(code.rets), 'raises': len(code.raises), 'implicit': len(code.hazards), 'valuations': 0}
        skipped = {}
        goal = self.rounds * (1 if tier == 'quick' else 5)
        if not tm_symbols(subs, assume) and not self.hook:
            goal = min(goal, 3)
        want = self.want
        if want is None:        # an exception whose condition is not understood says nothing
            keep = lambda c: not self.opaque([c])
            st['not_understood'] = sum(1 for c, e, s in code.hazards + code.raises if not keep(c))
            code.hazards = [x for x in code.hazards if keep(x[0])]
            code.raises = [x for x in code.raises if keep(x[0])]
        for i in range(goal * 12):
            if st['valuations'] >= goal + (len(far) if far else 0) or time.time() > deadline:
                break
            ints = smp.ints(i)
            if far and i % 5 == 4 and smp.sizes:
                ints[smp.sizes[0]] = far[(i // 5) % len(far)]
            v = Val((seed, i), ints, mode='pool' if i % 4 == 3 else 'real', pnan=0.0, pbool=(0.1, 0.4, 0.6, 0.9)[i % 4], scale=3)
            if self.hook and self.hook(v, rng) is False:
                continue
            try:
                if not all(v.ev(c) for c in assume):
                    continue
                a = kind_of(v, code, self.length is not None or self.check is not None)
            except SKIP as e:
                k = '%s %s' % (type(e).__name__, str(e)[:40])
                skipped[k] = skipped.get(k, 0) + 1
                continue
            if a[0] == 'none' and want is None and st['not_understood']:
                st['valuations'] += 1
                continue
            if a[0] == 'none':
                skipped['no outcome'] = skipped.get('no outcome', 0) + 1
                continue
            st['valuations'] += 1
            why = None
            if want is not None:
                if a[0] == 'ret':
                    why = 'returns a value where %s is documented' % ' or '.join(want)
                elif not any(is_exc(a[1], w) for w in want):
                    why = 'raises %s where %s is documented' % (a[1], ' or '.join(want))
            else:
                if a[0] == 'raise':
                    why = 'raises %s on input that is documented as valid' % a[1]
                elif self.length is not None:
                    n = shape_of(a[1])
                    w = v.ints.get(self.length) if isinstance(self.length, str) else self.length
                    if n is not None and n != w:
                        why = 'returns %s values where %s are documented' % (n, w)
                elif self.check is not None:
                    why = self.check(a[1], v)
            if why:
                ok = self.believable(code, a, v)
                if ok is not True:
                    st['skip_reasons'] = skipped
                    return Result(self, 'undecided', '%s, but a guard depends on %s' % (why, ok), stats=st)
                src = [a[2]] if a[0] == 'raise' and a[2] else [s for c, e, s in code.raises if s][:3]
                return Result(self, 'violated', why, src, 'with %s' % ', '.join(['%s=%s' % x for x in sorted(v.ints.items())] + ['%s=%s' % (k[1], brief(x)) for k, x in list(v.over.items())[:6]]), st)
        st['skip_reasons'] = skipped
        if st['valuations'] < min(3, goal):
            return Result(self, 'undecided', 'too few valuations %s' % skipped, stats=st)
        return Result(self, 'holds', stats=st)

    def believable(self, code, a, v):
        if a[0] == 'raise':
            cs = [c for c, e, s in code.hazards + code.raises if e == a[1] and s == a[2]]
        else:
            cs = [c for c, x in code.rets] + [c for c, e, s in code.raises] + [c for c, e, s in code.hazards]
        return self.opaque(cs) or True

    def opaque(self, cs):
        h, f = cp.heads(cs)
        h -= self.allowed
        if h:
            return ', '.join(sorted(h)[:3])
        if f and 'fold' not in self.allowed:
            return 'an unsolved recurrence'
        return None


def tm_symbols(subs, assume):
    return any(t.op in ('sym', 'elem') for t in list(subs.values()) + list(cp.all_subterms(list(assume)).values()))


def kind_of(v, code, values):
    for c, e, s in code.hazards:
        if v.ev(c):
            return ('raise', e, s)
    for c, e, s in code.raises:
        if v.ev(c):
            return ('raise', e, s)
    for i, (c, z) in enumerate(code.rets):
        if v.ev(c):
            return ('ret', lengths(v, z) if values else None, i)
    return ('none', None, None)


def lengths(v, z):
    """shape of a frozen result, without its elements"""
    k = z[0]
    if k == 's':
        return 's'
    if k in 'tl':
        return (k,) + tuple(lengths(v, y) for y in z[1])
    if k == 'd':
        return ('d',)
    if k == 'a':
        return ('a', tuple(max(0, v.as_int(v.ev(d))) for d in z[1]))
    if k == '?':
        return lengths(v, z[2] if v.ev(z[1]) else z[3])
    x = value(v, z)
    return (x[0], x[1])


def shape_of(x):
    if isinstance(x, tuple) and x[0] == 'a' and len(x[1]) == 1:
        return x[1][0]
    if isinstance(x, tuple) and x[0] == 'l':
        return len(x) - 1
    return None
