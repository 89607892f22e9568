"""C33: the bivariate density."""
from .props4 import *
from .values import Arr
from . import compare as cp

BV = 'proadv.kernel.bivariate.'
SB = 'specs.density.'


def two(grid):
    def b():
        k = size('n')
        return [Arr((const(2), k), lambda i, j: tm.elem('d', '', 'float', k, i, j), 'float'), tm.sym('hx', 'float', 'p'), tm.sym('hy', 'float', 'p'), const(grid)], {}, (tm.cmp('<=', const(2), k),)
    return b


M = {BV + 'root': 'number'}


def C33():
    r = [Ob('coordinate meshes, grid %d' % g, SB + 'code_meshes', SB + 'meshes', two(g), nmin=2, modular=M) for g in (4, 6)]
    r += [Ob('density, grid %d' % g, SB + 'code_density', SB + 'density', two(g), nmin=2, nmax=6, rounds=40, ties=12, modular=M) for g in (4,)]
    return r


def solver(kind):
    def b():
        return [tm.sym('F', 'fn'), tm.sym('n', 'int', 'x') if kind == 'int' else tm.sym('n')], {}, ()
    return b


class SolverOb(Ob):
    """whatever form the search takes: a failing callback must be heard of, a refused bracket must not"""

    def believe(self, code, spec):
        ok, why = super().believe(code, spec)
        if not ok:
            a, b = [{e for c, e, s in f.raises if e in ('ValueError', 'ArithmeticError')} for f in (code, spec)]
            if a != b and any(t.op == 'opq' and t.args[0].startswith('fails.') for t in cp.all_subterms(code.terms()).values()):
                return True, ''
        return ok, why


def C34():
    return [SolverOb('root search, %s sample count' % k, BV + 'root', 'specs.rootspec.root', solver(k)) for k in ('int', 'float')]
