"""Equivalence of two frozen outcomes by value numbering, with the rule that decides when a separation is a violation."""
import random
from mpmath import mpf, mp
import mpmath
from . import terms as tm
from .terms import T
from .val import Val, TooBig, same, vkey, Lam, isnanv, h64
from .freeze import outcome, all_subterms, INTERP
from .loops import ONCE


def single(a):
    """a zero-dimensional array is its number"""
    if isinstance(a, tuple) and len(a) == 3 and a[0] == 'a' and a[1] == () and len(a[2]) == 1:
        return a[2][0]
    return a


def agree(a, b, tol=mpf(10) ** -11):
    """equality of result values up to the precision of literals in the sources"""
    a, b = single(a), single(b)
    if isinstance(a, (bool, int, mpf, mpmath.mpc)) and isinstance(b, (bool, int, mpf, mpmath.mpc)):
        if isnanv(a) or isnanv(b):
            return isnanv(a) and isnanv(b)
        if a == b:
            return True
        try:
            d = abs(mpmath.mpc(a) - mpmath.mpc(b))
            return bool(d <= tol * (1 + abs(mpmath.mpc(a)) + abs(mpmath.mpc(b))))
        except Exception:
            return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(agree(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (tuple, Lam)) != isinstance(b, (tuple, Lam)):
        return False
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b
    return vkey(a) == vkey(b)


class Sampler:
    """assignments of small integers to the integer symbols of two outcomes, and seeds for the rest"""

    def __init__(self, subs, assume, seed, nmax=14, nmin=1, sizes=('n',)):
        self.rng = random.Random(seed)
        self.assume = assume
        self.names = {}
        consts = set()
        for t in list(subs.values()) + list(all_subterms(assume).values()):
            if t.op == 'sym' and t.args[1] != 'bound' and t.kind == 'int':
                self.names[t.args[0]] = t.args[2]
            if t.op == 'cmp':
                for x in t.args[1:]:
                    if tm.is_int_const(x) and abs(tm.cval(x)) <= 64:
                        consts.add(int(tm.cval(x)))
        self.consts = sorted(consts)
        self.nmax, self.nmin = nmax, nmin
        self.sizes = [s for s in self.names if s in sizes] or [s for s in self.names if 'z' in self.names[s]][:1]

    def ints(self, i):
        r = self.rng
        d = {}
        for s in self.sizes:
            hi = self.nmax
            if r.random() < 0.15 and any(2 <= c <= 40 for c in self.consts):
                d[s] = max(0, r.choice([c for c in self.consts if 2 <= c <= 40]) + r.choice((-1, 0, 1, 2, 7)))
            else:
                d[s] = r.randint(self.nmin, hi)
        for s, fl in sorted(self.names.items()):
            if s in d:
                continue
            opts = [r.randint(1, 9), r.randint(1, 9), 1, 2, 3]
            for x in d.values():
                opts += [x, x, x - 1, x + 1, r.randint(1, max(1, x)), r.randint(1, max(1, x))]
            opts += [0, -1, -2]
            opts += [c + r.choice((-1, 0, 1)) for c in self.consts]
            v = r.choice(opts)
            if 'z' in fl:
                v = max(v, 0)
            if 'p' in fl:
                v = max(v, 1)
            d[s] = v
        return d


class Diff:
    def __init__(self, v, a, b, why):
        self.v, self.a, self.b, self.why = v, a, b, why


def out_agree(a, b, exc_eq):
    if a[0] != b[0]:
        return False
    if a[0] == 'raise':
        return exc_eq(a[1], b[1])
    if a[0] == 'none':
        return True
    return agree(a[1], b[1])


class Comparison:
    """statistics of one comparison"""

    def __init__(self):
        self.valuations = self.skipped = self.ties = self.tie_failed = self.compared = 0
        self.diff = None
        self.reasons = {}

    def skip(self, why):
        self.skipped += 1
        self.reasons[why] = self.reasons.get(why, 0) + 1


def tie(v, t, env, rng):
    """an assignment that makes both sides of comparison t equal, by changing one atom"""
    probe = v.clone({})
    probe.touched = {}

    def d(val):
        x, y = val.ev(t.args[1], env), val.ev(t.args[2], env)
        if not isinstance(x, (int, mpf)) or not isinstance(y, (int, mpf)):
            raise TooBig('tie')
        return mpf(x) - mpf(y)
    d0 = d(probe)
    if not mpmath.isfinite(d0):
        return None
    atoms = [(k, x) for k, x in probe.touched.items() if isinstance(x, mpf) and mpmath.isfinite(x)]
    rng.shuffle(atoms)
    moves = [((lambda x, key=key: {key: x}), x0, mpf('0.37')) for key, x0 in atoms[:4]]
    # all samples of one array drawn towards their middle, or scaled
    groups = {}
    for key, x in atoms:
        if key[0] == 'elem':
            groups.setdefault(key[1], []).append((key, x))
    for name, ks in sorted(groups.items()):
        if len(ks) > 1:
            m = sum(x for k, x in ks) / len(ks)
            moves.append(((lambda l, ks=ks, m=m: {k: m + l * (x - m) for k, x in ks}), mpf(1), mpf('-0.37')))
            moves.append(((lambda l, ks=ks: {k: l * x for k, x in ks}), mpf(1), mpf('-0.37')))
    for move, x0, h in moves:
        f = lambda x: d(v.clone(move(x)))
        try:
            a, fa = x0, d0
            b = x0 + h
            fb = f(b)
            for _ in range(40):
                if not mpmath.isfinite(fb) or fa == fb:
                    break
                c = b - fb * (b - a) / (fb - fa)
                if not mpmath.isfinite(c) or abs(c) > 10 ** 12:
                    break
                a, fa, b = b, fb, c
                fb = f(b)
                if abs(fb) < mpf(10) ** -33 * (1 + abs(b)):
                    return move, b
        except (TooBig, ZeroDivisionError, ValueError, TypeError):
            continue
    return None


def novel(code, spec):
    """integer thresholds above the sizes sampled anyway, in comparisons, minima, maxima and remainders that the reference does not have"""
    ss = all_subterms(spec.terms())
    cs = set()

    def dig(t, depth):
        if tm.is_int_const(t):
            c = abs(int(tm.cval(t)))
            if 12 <= c <= 400:
                cs.add(c)
        elif depth and isinstance(t, T):
            for x in flat(t.args):
                dig(x, depth - 1)
    for i, t in all_subterms(code.terms()).items():
        if i in ss:
            continue
        if t.op == 'cmp' or t.op == 'fn' and t.args[0] in ('min2', 'max2', 'mod', 'floor'):
            dig(t, 3)
    return sorted(cs)[:5]


def turns(subs):
    """positions next to the integer constants that comparisons inside recurrences mention, counted from either end"""
    cs = set()
    ks = {t.args[0].k for t in subs.values() if t.op == 'fold'}
    for t in subs.values():
        if t.op == 'cmp' and t.fb & ks:
            for x in t.args[1:]:
                for y in [x] + (list(flat(x.args)) if x.op in ('add', 'fn') else []):
                    if isinstance(y, T) and tm.is_int_const(y) and 3 <= abs(int(tm.cval(y))) <= 300:
                        cs.add(abs(int(tm.cval(y))))
    cs = sorted(cs)[-8:]
    return tuple(sorted({c + d for c in cs for d in (-1, 0, 1)})) + tuple(sorted({-c + d for c in cs for d in (-1, 0, 1)}))


def compare(code, spec, assume=(), seed=1, rounds=24, tie_rounds=30, nmax=14, nmin=1, exc_eq=None, nan=False, stop_first=True, sizes=('n',), vals=None, deadline=None):
    """value-number two frozen outcomes"""
    import time
    exc_eq = exc_eq or (lambda a, b: a == b)
    r = Comparison()
    subs = all_subterms(code.terms() + spec.terms())
    Val.kpos = turns(subs)
    smp = Sampler(subs, list(assume), seed, nmax, nmin, sizes)
    rng = random.Random(seed * 7 + 1)
    logs = []

    def one(v, log=False):
        try:
            if not all(v.ev(c) for c in assume):
                r.skip('assumption')
                return None
            if log:
                v.cmplog = {}
            b = outcome(v, spec)
            if b[0] == 'raise' and b[1] == 'NotImplementedError':
                r.skip('unspecified')
                return None
            a = outcome(v, code)
            if a[0] == 'none' or b[0] == 'none':
                r.skip('incomplete')
                return None
        except (TooBig, RecursionError, OverflowError, KeyError, IndexError, TypeError, AttributeError, AssertionError, ValueError) as e:
            r.skip(type(e).__name__ + ':' + str(e)[:40])
            return None
        r.compared += 1
        if not out_agree(a, b, exc_eq):
            r.diff = Diff(v, a, b, 'values')
            return False
        return True
    i = 0
    tries = 0
    # thresholds that only the code has: sizes and counts on either side of them
    for k, c in enumerate(novel(code, spec)):
        for j, extra in enumerate((0, 1, 7, c + 3, -1, 9, 2, c // 2, 14, 0, c // 2 + 1, 5)):
            if deadline and time.time() > deadline:
                break
            ints = smp.ints(0)
            for s in smp.names:
                if s in smp.sizes:
                    ints[s] = max(smp.nmin, c + extra)
                elif j % 4 != 3:
                    ints[s] = rng.choice((c - 1, c, c + 1, c + 2, max(1, c + extra - 1), rng.randint(1, max(1, c))))
            v = Val((seed, 'n', k, j), ints, mode='real', pbool=(0.15, 0.5, 0.9)[j % 3], scale=3)
            if vals:
                vals(v, rng)
            if one(v) is False and stop_first:
                return r
    while i < rounds and tries < rounds * 30:
        tries += 1
        if deadline and time.time() > deadline:
            break
        v = Val((seed, tries), smp.ints(tries), mode='pool' if tries % 4 == 3 else 'real',
                pnan=0.2 if nan and tries % 3 == 1 else 0.0, pbool=(0.15, 0.4, 0.6, 0.85)[tries % 4], scale=(3, 3, 1, 150)[tries // 4 % 4])
        if vals:
            vals(v, rng)
        v.noround = tries % 5 == 2
        x = one(v, True)
        if x is None:
            continue
        i += 1
        r.valuations += 1
        if x is False and stop_first:
            return r
        if v.cmplog and v.mode == 'real':
            logs.append(v)
    # ties
    seen = {}
    cand = []
    for v in logs:
        for t, envs in v.cmplog.items():
            cand.append((v, t, envs))
    rng.shuffle(cand)
    cand.sort(key=lambda c: 0)
    done = 0
    for v, t, envs in cand:
        if done >= tie_rounds or (deadline and time.time() > deadline):
            break
        if seen.get(t.id, 0) >= 3:
            continue
        seen[t.id] = seen.get(t.id, 0) + 1
        env = rng.choice(envs)
        base = v
        try:
            s = tie(base, t, env, rng)
            if s is None and not v.noround:
                base = v.clone({})
                base.noround = True
                s = tie(base, t, env, rng)
        except (TooBig, KeyError, ValueError, TypeError, OverflowError, ZeroDivisionError, RecursionError, AttributeError):
            s = None
        done += 1
        if s is None:
            r.tie_failed += 1
            continue
        move, x = s
        step = mpf('0.013') * (abs(x) if mpf(10) ** -12 < abs(x) < mpf('0.2') or abs(x) > 10 ** 4 else 1)
        for dx in (0, step, -step):
            w = base.clone(move(x + dx))
            ok = one(w)
            if ok is not None:
                r.ties += 1
            if ok is False and stop_first:
                return r
    return r


def live(ts):
    """subterms a result really depends on: of a recurrence only the state its use needs; and per recurrence the state needed"""
    seen, folds = {}, {}
    todo = list(ts)
    while todo:
        t = todo.pop()
        if t is None or not isinstance(t, T) or t.id in seen:
            continue
        seen[t.id] = t
        if t.op == 'fold':
            L, label, term = t.args
            need = L.relevant([term])
            r = folds.setdefault((L.name,), [L, set()])
            r[1] |= {p.id for p in need}
            todo += [L.n, term] + [c for l, c in L.exits] + [x for p, i, u in L.slots if p in need for x in flat((i, u))]
        else:
            todo += list(flat(t.args))
    return seen, folds


def heads(ts):
    """uninterpreted symbols of an outcome: library calls and the like, and recurrences"""
    subs, folds = live(ts)
    h = set()
    for t in subs.values():
        if t.op == 'opq' and t.args[0] not in INTERP and not t.args[0].startswith('kwsig:'):
            h.add(t.args[0])
    return h, [fold_shape(L, need) for L, need in folds.values()]


def fold_shape(L, need):
    ks = sorted('rec' if p.id in ONCE else p.kind if p.kind in ('arr', 'bool') else 'num' for p, i, u in L.slots if p.id in need)
    return (tuple(ks), len(L.exits), L.n is None)


# what cannot be had back by plain formulas: draws, calls of callbacks, fitted models, spline interpolants, eigenvectors
ESSENTIAL = ('rng.', 'lib.numpy.random', 'rounded?', 'app', 'lib.scipy.interpolate.interp1d', 'eigvec', '.predict', '.fit', 'after.fit')


def fewer(a, b, slack):
    """recurrences a have lost state that recurrences b have: every one of a fits into a different one of b, and in all more than slack slots are missing"""
    rest = list(b)
    lost = 0
    for ka, xa, na in sorted(a, reverse=True, key=lambda f: len(f[0])):
        best = None
        for f in rest:
            kb, xb, nb = f
            if len(ka) <= len(kb) and all(ka.count(x) <= kb.count(x) for x in set(ka)) and xa <= xb and (best is None or len(kb) < len(best[0])):
                best = f
        if best is None:
            return False
        rest.remove(best)
        lost += len(best[0]) - len(ka)
    lost += sum(len(f[0]) for f in rest)
    return lost > slack


def comparable(code, spec, slack=None, more=()):
    """may a separation be believed?  Only when both sides use the same uninterpreted symbols and recurrences of the same shape,
    or the code has lost a random draw or (slack given: the reference keeps no more redundant state than that) part of the recurrence.
    more: library symbols and scalar recurrences of a smoother that the part compared must not depend on."""
    hc, fc = heads(code.terms())
    hs, fs = heads(spec.terms())
    extra, miss = hc - hs - set(more), hs - hc
    if extra or any(not h.startswith(ESSENTIAL) for h in miss):
        return False, 'different library symbols: %s' % sorted(hc ^ hs)[:6]
    own = lambda f: f[1] == 0 and set(f[0]) == {'rec'}
    a, b = sorted({f for f in fc if not own(f)}), sorted({f for f in fs if not own(f)})
    if more and set(b) <= set(a) and all('arr' not in f[0] for f in set(a) - set(b)):
        return True, ''
    if a != b and not (slack is not None and fewer(a, b, slack)):
        return False, 'recurrences of different shape %s %s' % (a, b)
    return True, ''


def locate(code, spec):
    """source constructs of the code's value graph that the reference graph does not contain, innermost first"""
    sc = all_subterms(code.terms())
    ss = all_subterms(spec.terms())
    out = []
    for i, t in sorted(sc.items()):
        if i in ss or t.src is None or t.op == 'sym':
            continue
        kids = all_subterms(list(a for a in flat(t.args)))
        if all(k in ss for k in kids):
            out.append(t)
    res = []
    for t in out:
        if t.src not in res and 'specs' not in str(t.src[0]):
            res.append(t.src)
    return res[:4], out[:3]


def flat(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, (tuple, list)):
            yield from flat(x)
        elif hasattr(x, 'children'):
            yield from flat(x.children())
