"""Obligations of the smoothers, distributions and tests."""
from .props2 import *


def one_one(name):
    return lambda: Arr((ONE, ONE), lambda i, j: tm.sym(name, 'float', 'p'), 'float')


def C16():
    k4 = [sc(q, 'float', 'p') for q in ('s0', 'P0', 'Q', 'R')]
    return [
        Ob('kalman, numbers', 'specs.shape.kalman', 'specs.stats.kalman', XS(*k4), slack=0),
        Ob('kalman, one by one arrays', 'specs.shape.kalman', 'specs.stats.kalman', XS(*[one_one(q) for q in ('s0', 'P0', 'Q', 'R')]), spec_build=XS(*k4), slack=0),
    ]


def XF():
    k = n()
    fs, f = tm.sym('fs', 'float', 'p'), tm.sym('f', 'float', 'p')
    return [vec('x', k), fs, f], {}, ssa_ass(k, fs, f)


def C15():
    return [
        Ob('ssa', ST + 'series.ssa', 'specs.stats.ssa', XF),
    ]
