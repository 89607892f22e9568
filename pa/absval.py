"""Abstract values of the alias and effect analysis: whose memory a value may share, and a light type."""


class AV:
    """kind: num, bool, str, none, arr, list, tuple, dict, fn, mod, gen, any;  al: regions whose memory it may be or view;
    nd: number of dimensions of an array (None: unknown);  dt: f, i, c, b, None;  it: items (tuple of AV), or None;
    el: join of the elements of a container whose items are not known one by one;  ref: function, module or other payload"""
    __slots__ = ('kind', 'al', 'nd', 'dt', 'it', 'el', 'ref', 'h')

    def __init__(self, kind='any', al=frozenset(), nd=None, dt=None, it=None, el=None, ref=None):
        self.kind, self.al, self.nd, self.dt, self.it, self.el, self.ref = kind, frozenset(al), nd, dt, it, el, ref
        self.h = hash((kind, self.al, nd, dt, it, el, ref if isinstance(ref, (str, int, float, bool, tuple, type(None))) else id(ref)))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, AV) and (self is o or (self.h == o.h and self.kind == o.kind and self.al == o.al and self.nd == o.nd and self.dt == o.dt and self.it == o.it and self.el == o.el
                                                    and (self.ref is o.ref or (type(self.ref) is type(o.ref) and isinstance(self.ref, (str, int, float, bool, tuple)) and self.ref == o.ref))))

    def __repr__(self):
        s = self.kind
        if self.kind == 'arr':
            s += '%s%s' % (self.nd, self.dt or '')
        if self.al:
            s += '@' + ','.join(sorted(map(str, self.al)))
        if self.it is not None:
            s += '(' + ', '.join(map(repr, self.it)) + ')'
        elif self.el is not None:
            s += '[' + repr(self.el) + ']'
        return s

    def but(self, **k):
        d = dict(kind=self.kind, al=self.al, nd=self.nd, dt=self.dt, it=self.it, el=self.el, ref=self.ref)
        d.update(k)
        return AV(**d)


ANY = AV()
NUM = AV('num')
BOOL = AV('bool')
STR = AV('str')
NONE = AV('none')


def arr(nd=None, dt=None, al=()):
    return AV('arr', al, nd, dt)


def num(v=None):
    return AV('num', ref=v) if v is not None else NUM


def join(a, b, depth=6):
    if a is None or a is b or a == b:
        return b
    if b is None:
        return a
    if a.kind == b.kind == 'fn':
        fs = {id(f.node): f for f in (a.ref if isinstance(a.ref, tuple) else (a.ref,)) + (b.ref if isinstance(b.ref, tuple) else (b.ref,))}
        return a if len(fs) == 1 else AV('fn', ref=tuple(fs[k] for k in sorted(fs)))
    if a.kind == b.kind:
        it = el = None
        if a.kind in ('tuple', 'list', 'dict', 'gen'):
            if depth <= 0:
                return AV(a.kind, a.al | b.al)
            if a.it is not None and b.it is not None and len(a.it) == len(b.it) and a.ref == b.ref:
                it = tuple(join(x, y, depth - 1) for x, y in zip(a.it, b.it))
            else:
                el = join(elems(a), elems(b), depth - 1)
        ref = a.ref if a.ref is b.ref or (isinstance(a.ref, (str, int, float, tuple)) and a.ref == b.ref) else None
        return AV(a.kind, a.al | b.al, a.nd if a.nd == b.nd else None, a.dt if a.dt == b.dt else None, it, el, ref)
    al = a.al | b.al
    for x, y in ((a, b), (b, a)):
        if x.kind == 'arr' and y.kind in ('num', 'bool', 'none', 'any', 'str'):
            return AV('any', al)
    el = None
    for x in (a, b):
        if x.kind in ('tuple', 'list', 'dict', 'gen', 'any'):
            e = elems(x)
            el = join(el, e, depth - 1) if e is not None else el
    return AV('any', al, el=el)


def elems(a):
    """join of the elements a container may hold"""
    if a.it is not None:
        r = None
        for x in a.it:
            r = join(r, x)
        return r
    return a.el


def owners(a, depth=6):
    """every region reachable from a value"""
    r = set(a.al)
    if depth and a.kind in ('tuple', 'list', 'dict', 'any', 'gen'):
        for x in (a.it or ()):
            r |= owners(x, depth - 1)
        if a.el is not None:
            r |= owners(a.el, depth - 1)
    return r
