"""Obligations on the index sets the detectors return."""
import random
import time
from .props12 import *
from .oblig import Result, Anchor
from .freeze import Fz, outcome
from . import compare as cp
from .val import Val, TooBig


class IndexOb(Ob):
    """every array the function returns is a strictly ascending sequence of integers from 0..n-1"""

    def _run(self, loader, seed, tier, limit):
        mod, fn = self.fn.rsplit('.', 1)
        if loader.find(mod) is None:
            raise Anchor(mod)
        tm.cur_src[0] = None
        o, assume = self.interpret(loader, 'code', mod, fn, self.build)
        code = Fz(o)
        smod, sfn = self.spec.rsplit('.', 1)
        p, _ = self.interpret(loader, 'spec', smod, sfn, self.build)
        spec = Fz(p)
        st = {'valuations': 0, 'functions': code.funcs, 'loops': len(code.loops), 'returns': len(code.rets), 'raises': len(code.raises)}
        for c, z in code.rets:
            k = kind_of(z)
            if k in ('float', 'bool', 'complex'):
                return Result(self, 'violated', 'the indices are returned as %s values' % k, [], '', st)
            if z[0] == 'f' and z[-1] == 'unordered':
                return Result(self, 'violated', 'the indices come out of a set in no particular order', [], '', st)
        sub = cp.all_subterms(code.terms() + spec.terms())
        smp = cp.Sampler(sub, list(assume), seed, self.nmax, self.nmin, self.sizes)
        rng = random.Random(seed * 7 + 1)
        end = time.time() + limit
        rounds = self.rounds * (1 if tier == 'quick' else 4)
        i = 0
        flagged = 0
        while st['valuations'] < rounds and i < rounds * 20 and time.time() < end:
            i += 1
            v = Val((seed, i), smp.ints(i), mode='pool' if i % 4 == 3 else 'real', pbool=(0.15, 0.4, 0.6, 0.85)[i % 4], scale=(3, 3, 1, 150)[i // 4 % 4])
            if self.vals:
                self.vals(v, rng)
            try:
                if not all(v.ev(c) for c in assume):
                    continue
                a = outcome(v, code)
            except (TooBig, RecursionError, OverflowError, KeyError, IndexError, TypeError, AttributeError, AssertionError, ValueError):
                continue
            if a[0] != 'ret':
                continue
            st['valuations'] += 1
            why = wrong(a[1], v.ints.get('n', 0))
            flagged += bool(a[1][2]) if isinstance(a[1], tuple) and len(a[1]) > 2 else 0
            if why:
                ok, w = cp.comparable(code, spec, None, ('sortat', 'argsortat', 'min', 'max'))
                if not ok:
                    return Result(self, 'undecided', '%s, but %s' % (why, w), stats=st)
                srcs, _ = cp.locate(code, spec)
                return Result(self, 'violated', why, srcs, 'with %s: returns %s' % (', '.join('%s=%s' % x for x in sorted(v.ints.items())), str(a[1])[:300]), st)
        st['nonempty'] = flagged
        if st['valuations'] < 4 or not flagged:
            return Result(self, 'undecided', 'too few valuations', stats=st)
        return Result(self, 'holds', stats=st)


def kind_of(z):
    if z[0] == 'f':
        return z[5]
    if z[0] == 'a':
        return z[4]
    if z[0] == '?':
        a, b = kind_of(z[2]), kind_of(z[3])
        return a if a == b else None
    return None


def wrong(r, n):
    if not isinstance(r, tuple) or r[0] not in 'al':
        return 'the result is not a sequence of indices'
    if r[0] == 'l':
        xs = r[1:]
    else:
        if len(r[1]) != 1:
            return 'the result is not one-dimensional'
        xs = r[2]
    for x in xs:
        if isinstance(x, (str, tuple)) or x is None or isinstance(x, bool) or x != x or x != int(x):
            return 'a returned index is not an integer'
        if not 0 <= x < n:
            return 'a returned index lies outside 0..n-1'
    for a, b in zip(xs, xs[1:]):
        if a == b:
            return 'an index is returned twice'
        if a > b:
            return 'the indices are not ascending'
    return None


def C06():
    A = DT + 'acceleration.acceleration_thresholding'
    g = [sc('g'), sc('kg'), sc('ks')]
    return [
        IndexOb('acceleration, tag 1', A, SD + 'acceleration', XS(sc('fs'), lambda: ONE, *g)),
        IndexOb('acceleration, tag 2', A, SD + 'acceleration', XS(sc('fs'), lambda: tm.const(2), *g)),
        IndexOb('phase space', DT + 'phasespace.phasespace_thresholding', SD + 'phasespace', X(lo=3), nmin=3, vals=spread('x')),
        IndexOb('velocity correlation', DT + 'correlation.velocity_correlation', SD + 'correlation', V3(lo=2), nmin=2),
        IndexOb('spherical', DT + 'spherical.spherical_phasespace_thresholding', SD + 'spherical', XS(sc('it', 'int'), sc('cm'), lo=2), nmin=3, vals=spread('x')),
        IndexOb('kernel pair', SK + 'code_pair', SK + 'kernel', XY(sc('grid', 'int', 'p'), lo=3), nmin=3, nmax=8, vals=scaled('x', 'y'), sizes=('n', 'grid')),
        IndexOb('kernel record', TK + 'three_dimensional_kernel', SK + 'three', XS(sc('grid', 'int', 'p'), lo=4), nmin=4, nmax=6, vals=scaled('x'), sizes=('n', 'grid'), rounds=20),
    ]
