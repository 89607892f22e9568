"""Keyword arguments of modelled numpy functions that take their arguments by position.

NPSIG: name -> (parameter names, how many of them the model reads).  Keywords become positions; a
parameter the model does not read is dropped only where it cannot change the result."""
from . import terms as tm
from .terms import T, NONE
from .values import Unsupported

S = lambda s, n=None: (s.split(), len(s.split()) if n is None else n)
NPSIG = {
    'where': S('condition x y'), 'nonzero': S('a'), 'flatnonzero': S('a'), 'argwhere': S('a'), 'copy': S('a order', 1),
    'hstack': S('tup dtype casting', 1), 'vstack': S('tup dtype casting', 1), 'tile': S('A reps'), 'repeat': S('a repeats axis', 2),
    'insert': S('arr obj values axis', 3), 'roll': S('a shift axis', 2), 'flip': S('m axis', 1), 'size': S('a axis'), 'shape': S('a'),
    'ndim': S('a'), 'ravel': S('a order', 1), 'squeeze': S('a axis', 1), 'transpose': S('a axes', 1), 'isscalar': S('element'),
    'broadcast_to': S('array shape subok', 2), 'nanmean': S('a axis dtype out', 1), 'nansum': S('a axis dtype out', 1),
    'nanmedian': S('a axis out', 1), 'nanmin': S('a axis out', 1), 'nanmax': S('a axis out', 1), 'cumsum': S('a axis dtype out', 1),
    'cumprod': S('a axis dtype out', 1), 'matmul': S('x1 x2'), 'inner': S('a b'), 'outer': S('a b'), 'poly': S('seq_of_zeros'),
    'polyval': S('p x'), 'sort': S('a axis kind order', 1), 'argsort': S('a axis kind order', 1), 'intersect1d': S('ar1 ar2 assume_unique', 2),
    'union1d': S('ar1 ar2'), 'setdiff1d': S('ar1 ar2 assume_unique', 2), 'setxor1d': S('ar1 ar2 assume_unique', 2),
    'take': S('a indices axis', 2), 'array_equal': S('a1 a2'),
}
# no effect on the values of the result (dtypes: sums of numbers)
IDLE = {'kind', 'order', 'casting', 'dtype', 'subok', 'assume_unique'}


def normal(v, name, args, kw):
    """(args, keywords left) of a call"""
    if name not in NPSIG:
        return args, kw
    names, n = NPSIG[name]
    args, kw = list(args), dict(kw)
    while kw and len(args) < n and names[len(args)] in kw:
        args.append(kw.pop(names[len(args)]))
    rest = dict(kw)
    for p, a in zip(names[n:], args[n:]):
        rest[p] = a
    for p, a in rest.items():
        if p in IDLE and not (p == 'order' and name == 'ravel'):
            continue
        if p == 'axis':
            x = v.rd(a)
            if x is NONE and name not in ('sort', 'argsort'):
                continue
            try:
                one = v.as_arr(v.rd(args[0])).ndim == 1
            except Unsupported:
                one = False
            if one and isinstance(x, T) and tm.is_int_const(x) and int(tm.cval(x)) in (0, -1):
                continue
        elif p in ('out', 'order', 'axes') and v.rd(a) is NONE:
            continue
        raise Unsupported('%s with %s' % (name, p))
    return (args[:n] if len(args) > n else args), {}
