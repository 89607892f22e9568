"""Abstract values of the analysis: scalars are terms; arrays, selections, containers and references are defined here."""
from . import terms as tm
from .terms import T, const, ZERO, ONE, TRUE, FALSE


class Unsupported(Exception):
    """a construct this analysis has no model for; the obligation becomes undecided"""


class Dead(Exception):
    """the current path ends (a call on it always raises)"""


class Arr:
    """n-dimensional array value: shape (terms) and element function"""
    __slots__ = ('shape', 'f', 'dtype', 'memo', 'islist', 'filt')

    def __init__(self, shape, f, dtype='float', islist=False, filt=None):
        self.shape, self.f, self.dtype, self.islist, self.filt = tuple(shape), f, dtype, islist, filt
        self.memo = {}

    def get(self, *idx):
        key = tuple(i.id for i in idx) + (tm._depth[0],)
        r = self.memo.get(key)
        if r is None:
            assert len(idx) == len(self.shape), (len(idx), len(self.shape))
            r = self.f(*idx)
            self.memo[key] = r
        return r

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        return 'Arr%s<%s>' % (list(self.shape), self.dtype)


class Filt:
    """the values val(k) for those k in 0..n-1, ascending, for which pred(k) holds"""
    __slots__ = ('n', 'p', 'v', 'dtype', 'islist', 'memo')

    def __init__(self, n, p, v, dtype='int', islist=False):
        self.n, self.p, self.v, self.dtype, self.islist = n, p, v, dtype, islist
        self.memo = {}

    def pred(self, k):
        key = (k.id, tm._depth[0])
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self.p(k)
        return r

    def val(self, k):
        return self.v(k)

    def length(self):
        return tm.total(ZERO, self.n, lambda k: tm.ite(self.pred(k), ONE, ZERO))

    def is_index(self):
        j = tm.bound()
        return self.v(j) is j

    def __repr__(self):
        return 'Filt[%s]' % self.n


class PySet(Filt):
    """a set of indices: no order"""
    __slots__ = ()


class Shuffled(Filt):
    """the elements of a set in an order of its own"""
    __slots__ = ()


class Cat:
    """concatenation of one-dimensional parts some of which are selections"""
    __slots__ = ('parts', 'islist')

    def __init__(self, parts, islist=False):
        self.parts, self.islist = parts, islist


class PyList:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return 'PyList%r' % (self.items,)


class PyDict:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = dict(d)


class Tup:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class Ref:
    """reference to a heap cell, possibly through views"""
    __slots__ = ('cell', 'maps')

    def __init__(self, cell, maps=()):
        self.cell, self.maps = cell, tuple(maps)

    def __repr__(self):
        return 'Ref(%s%s)' % (self.cell, '/view' * bool(self.maps))


class VMap:
    """basic-indexing view: shape of the view, forward index map, inverse (condition, view index)"""
    __slots__ = ('shape', 'fwd', 'inv')

    def __init__(self, shape, fwd, inv):
        self.shape, self.fwd, self.inv = tuple(shape), fwd, inv


class Range:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class SliceV:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Alt:
    """a if c else b, for values that cannot be merged into one"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'Alt(%s,%r,%r)' % (self.c, self.a, self.b)


class Fn:
    __slots__ = ('node', 'env', 'mod', 'name', 'defaults', 'kwdefaults', 'lam')

    def __init__(self, node, env, mod, name, defaults, kwdefaults):
        self.node, self.env, self.mod, self.name = node, env, mod, name
        self.defaults, self.kwdefaults = defaults, kwdefaults


class Builtin:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Builtin(%s)' % self.name


class Mod:
    __slots__ = ('name', 'repo')

    def __init__(self, name, repo=None):
        self.name, self.repo = name, repo


class BoundM:
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class Opaque:
    """contents of a heap cell that holds a library object: a term that describes how it came about"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t
