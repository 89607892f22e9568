"""Obligations: what one property asks of one function on one description of its arguments."""
import ast
import os
import time
from . import terms as tm
from .terms import const, ZERO, ONE, TRUE, FALSE, NONE
from .values import *
from .interp import Loader
from . import interp as it_
from .drive import call, size, vec, mat, subset
from .freeze import Fz
from . import compare as cp

REPO = os.environ.get('PROADV_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


PROP_MODULES = [f[:-3] for f in sorted(os.listdir(os.path.join(HERE, 'pa'))) if f.startswith('props') and f.endswith('.py')]

EXPLAIN = {
    'UnitOb': 'The function applied to rescaled data and the rescaled result of the function on the data are two value graphs of the same source; they must have the same value numbers.',
    'Ob': 'For each obligation the function (with every helper it calls) is turned into one gated value graph over symbolic arguments: guarded returns, explicit raises and implicit '
          'exceptions. The graph of the documented formula is built the same way, and both are value-numbered (random interpretation: arithmetic, sums, selections and order '
          'statistics interpreted, library calls, callbacks and unsolved recurrences uninterpreted). Boundary valuations solve each real comparison for equality. No repository code is run.',
    'IndexOb': 'The value graph of the indices each detector returns is examined: its order (every construction that orders or keeps the order of the record), its distinctness and its range '
               '(0 <= index < record length) are decided on the graph under every valuation, without a reference formula.',
    'IntOb': 'Each function is turned into two value graphs, one for integer and one for floating-point arguments with the same symbols; the graphs must have the same value numbers, '
             'so that an integer buffer, cast or division that truncates a result separates them.',
    'FormVG': 'On the value graph every path of each public function (for each documented option) must return a value of the documented form: no implicit None, no variable that may be unbound.',
}
ASSUME = ['real arithmetic stands for floating point', 'the model of the numpy/scipy/builtin functions used is right', 'value numbers of different functions collide with negligible probability',
          'an obligation that leaves the analysed subset is reported as undecided, not as a violation']


class Anchor(Exception):
    """a public function the properties are about is gone"""


class Result:
    __slots__ = ('ob', 'verdict', 'why', 'where', 'detail', 'stats', 'secs')

    def __init__(self, ob, verdict, why='', where=(), detail='', stats=None):
        self.ob, self.verdict, self.why, self.where, self.detail, self.stats, self.secs = ob, verdict, why, where, detail, stats, 0


class Ob:
    """code(args) is equivalent to spec(args) under the assumptions"""

    def __init__(self, name, fn, spec, build, exc=None, nmax=14, nmin=1, rounds=60, ties=80, nan=False, sizes=('n',), vals=None, project=None, spec_build=None, slack=None, more=(), modular={}, salt=0, asserts=True, alts=()):
        self.salt, self.asserts, self.alts = salt, asserts, alts      # alts: the same reference in other forms
        self.modular = modular
        self.name, self.fn, self.spec, self.build = name, fn, spec, build
        self.exc, self.nmax, self.nmin, self.rounds, self.ties, self.nan, self.sizes, self.vals = exc, nmax, nmin, rounds, ties, nan, sizes, vals
        self.project = project
        self.spec_build = spec_build
        self.slack = slack
        self.more = more

    def run(self, loader, seed, tier, limit):
        t0 = time.time()
        it_.MODULAR.update(getattr(self, 'modular', {}))
        try:
            r = self._run(loader, seed, tier, limit)
        except Anchor:
            raise
        except Unsupported as e:
            r = Result(self, 'undecided', 'construct outside the analysed subset: %s' % e)
        except tm.Budget as e:
            r = Result(self, 'undecided', 'value graph too large')
        except RecursionError:
            r = Result(self, 'undecided', 'value graph too deep')
        except (IndexError, KeyError, TypeError, AttributeError, ValueError, AssertionError, ZeroDivisionError, NotImplementedError, StopIteration, OverflowError) as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            r = Result(self, 'undecided', 'construct outside the analysed subset: %s %s at %s:%s' % (type(e).__name__, str(e)[:80], os.path.basename(tb.filename), tb.lineno))
        finally:
            it_.MODULAR.clear()
        r.secs = time.time() - t0
        return r

    def believe(self, code, spec):
        return cp.comparable(code, spec, self.slack, self.more)

    def interpret(self, loader, which, mod, fn, build):
        args, kwargs, assume = build()
        it_.SILENT_ASSERTS[0] = not self.asserts
        try:
            o = call(loader, mod, fn, args, kwargs, assume)
        except KeyError as e:
            if which == 'code' and str(e) == repr(fn):
                raise Anchor('%s.%s' % (mod, fn))
            raise
        finally:
            it_.SILENT_ASSERTS[0] = False
        return o, assume

    def _run(self, loader, seed, tier, limit):
        mod, fn = self.fn.rsplit('.', 1)
        if loader.find(mod) is None:
            raise Anchor(mod)
        tm.cur_src[0] = None
        o, assume = self.interpret(loader, 'code', mod, fn, self.build)
        code = Fz(o)
        smod, sfn = self.spec.rsplit('.', 1)
        p, _ = self.interpret(loader, 'spec', smod, sfn, self.spec_build or self.build)
        spec = Fz(p)
        if self.project:
            self.project(code)
            self.project(spec)
        mult = 1 if tier == 'quick' else 4
        r = cp.compare(code, spec, assume, seed + 1000 * self.salt, self.rounds * mult, self.ties * mult, self.nmax, self.nmin, self.exc, self.nan, True, self.sizes, self.vals, time.time() + limit)
        st = {'valuations': r.valuations, 'ties': r.ties, 'skipped': r.skipped, 'functions': code.funcs, 'loops': len(code.loops), 'returns': len(code.rets), 'raises': len(code.raises), 'implicit': len(code.hazards), 'skip_reasons': dict(r.reasons)}
        if r.diff is None:
            if r.valuations < min(6, self.rounds):
                return Result(self, 'undecided', 'too few comparable valuations: %s' % (r.reasons,), stats=st)
            return Result(self, 'holds', stats=st)
        ok, why = self.believe(code, spec)
        for alt in () if ok else self.alts:
            p, _ = self.interpret(loader, 'spec', *alt.rsplit('.', 1), self.spec_build or self.build)
            other = Fz(p)
            q = cp.compare(code, other, assume, seed + 1000 * self.salt, self.rounds * mult, self.ties * mult, self.nmax, self.nmin, self.exc, self.nan, True, self.sizes, self.vals, time.time() + limit)
            if q.diff is None:
                if q.valuations >= min(6, self.rounds):
                    return Result(self, 'holds', stats=st)
            else:
                ok, _ = self.believe(code, other)
                if ok:
                    r, spec = q, other
                    break
        if not ok:
            return Result(self, 'undecided', 'differs, but ' + why, stats=st, detail=describe(r.diff))
        srcs, _ = cp.locate(code, spec)
        if r.diff.a[0] == 'raise' and r.diff.a[2]:
            srcs = [r.diff.a[2]] + [s for s in srcs if s != r.diff.a[2]]
        return Result(self, 'violated', 'value differs from the reference', srcs, describe(r.diff), st)


def brief(x, n=420):
    from mpmath import mpf, mpc, nstr
    from .val import Lam

    def f(y):
        if isinstance(y, bool) or isinstance(y, int) or y is None or isinstance(y, str):
            return str(y)
        if isinstance(y, (mpf, mpc)):
            return nstr(y, 8)
        if isinstance(y, tuple):
            return '(' + ', '.join(f(z) for z in y[:12]) + (', ..' if len(y) > 12 else '') + ')'
        if isinstance(y, Lam):
            return '<array>'
        return str(y)
    s = f(x)
    return s if len(s) <= n else s[:n] + '..'


def describe(d):
    return 'with %s: code -> %s %s ; documented -> %s %s' % (', '.join('%s=%s' % i for i in sorted(d.v.ints.items())), d.a[0], brief(d.a[1]), d.b[0], brief(d.b[1]))


def loader():
    return Loader([REPO, HERE])
