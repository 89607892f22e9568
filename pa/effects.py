"""Effects of one public call on abstract arguments."""
import sys
from .absint import Absint
from .absval import *
sys.setrecursionlimit(20000)


class Anchor(Exception):
    pass


def analyse(loader, mod, fn, args, kwargs=None):
    A = Absint(loader)
    m = loader.find(mod)
    if m is None:
        raise Anchor(mod)
    g = A.module(m)
    if fn not in g or g[fn].kind not in ('fn',):
        raise Anchor(mod + '.' + fn)
    from .absint import Frame
    A.frames.append(Frame('<call>', m))
    r = A.enter(g[fn].ref, list(args), kwargs or {}, g[fn].ref.node)
    return A, r, A.last_rets


def check_call(loader, mod, fn, args, kw=None, assume=()):
    A, r, rets = analyse(loader, mod, fn, [arr(1, 'f', {'x'})])
    return [(x[0], x[1], x[2][1], x[3]) for x in A.effects], sorted(owners(r))
