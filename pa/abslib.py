"""Library model of the alias and effect analysis: which calls share memory, write memory, or depend on hidden state."""
from .absval import *

SAME = {'ravel': 1, 'reshape': None, 'squeeze': None, 'transpose': 0, 'swapaxes': 0, 'moveaxis': 0, 'rollaxis': 0, 'expand_dims': '+', 'atleast_1d': 'a1', 'atleast_2d': 'a2', 'atleast_3d': None,
        'broadcast_to': None, 'flip': 0, 'fliplr': 0, 'flipud': 0, 'rot90': 0, 'diagonal': None, 'matrix_transpose': 0, 'real_if_close': 0, 'real': 0}
CONV = ('asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'asfarray', 'asarray_chkfinite', 'require')
MUTATE0 = ('put', 'place', 'putmask', 'copyto', 'fill_diagonal', 'put_along_axis')
ARR_MUT = ('sort', 'fill', 'resize', 'partition', 'put', 'itemset', 'setfield', 'setflags')
LIST_MUT = ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'sort')
DICT_MUT = ('update', 'pop', 'setdefault', 'clear', 'popitem')
SCALAR = ('sum', 'mean', 'median', 'std', 'var', 'min', 'max', 'amin', 'amax', 'nanmean', 'nanmedian', 'nanstd', 'nanvar', 'nanmin', 'nanmax', 'nansum', 'prod', 'argmin', 'argmax', 'nanargmin', 'nanargmax',
          'count_nonzero', 'ptp', 'norm', 'dot', 'vdot', 'percentile', 'quantile', 'trace', 'all', 'any', 'average', 'det')
CLOCK = ('time.', 'datetime.datetime.now', 'datetime.datetime.today', 'datetime.datetime.utcnow', 'datetime.date.today', 'uuid.', 'secrets.', 'os.getpid', 'os.urandom', 'os.getenv', 'os.environ', 'os.listdir', 'platform.', 'socket.',
         'builtins.input', 'builtins.id', 'builtins.open', 'numpy.load', 'numpy.loadtxt', 'numpy.genfromtxt', 'numpy.fromfile', 'pandas.read_', 'locale.', 'getpass.')
STATE = ('numpy.seterr', 'numpy.seterrcall', 'numpy.set_printoptions', 'numpy.random.seed', 'numpy.random.set_state', 'random.seed', 'random.setstate', 'os.environ', 'os.putenv', 'os.chdir', 'sys.setrecursionlimit',
         'warnings.filterwarnings', 'warnings.simplefilter', 'builtins.setattr', 'builtins.delattr', 'builtins.globals', 'numpy.save', 'numpy.savetxt', 'numpy.savez', 'pickle.dump', 'os.remove', 'os.mkdir', 'os.makedirs',
         'locale.setlocale', 'gc.', 'numpy.setbufsize', 'signal.signal', 'atexit.register', 'decimal.getcontext', 'decimal.setcontext', 'mpmath.mp', 'matplotlib.use')


def dtype_of(v):
    """f, i, c, b of a dtype argument, or None"""
    r = str(v.ref) if v is not None and v.ref is not None else ''
    r = r.rsplit('.', 1)[-1]
    if r.startswith(('float64', 'double')) or r in ('float', 'float_', 'f8', 'd'):
        return 'f'
    if r.startswith('complex') or r in ('cdouble', 'c16', 'D'):
        return 'c'
    if r in ('int', 'int64', 'int_', 'intp', 'i8', 'l', 'q'):
        return 'i'
    if r in ('bool', 'bool_', '?'):
        return 'b'
    return '?' if r else None


def kind_of(t):
    if t.kind == 'lib':
        r = str(t.ref).rsplit('.', 1)[-1]
        return {'int': 'num', 'float': 'num', 'complex': 'num', 'number': 'num', 'integer': 'num', 'floating': 'num', 'bool': 'bool', 'str': 'str', 'list': 'list', 'tuple': 'tuple', 'dict': 'dict', 'ndarray': 'arr'}.get(r)
    if t.it is not None:
        ks = {kind_of(x) for x in t.it}
        return ks.pop() if len(ks) == 1 else None
    return None


def isinstance_(v, t):
    """True, False or None"""
    if t.it is not None:
        rs = [isinstance_(v, x) for x in t.it]
        return True if True in rs else (False if all(r is False for r in rs) else None)
    k = kind_of(t)
    if k is None:
        r = str(t.ref) if t.kind == 'lib' else ''
        if v.kind in ('arr', 'num', 'str', 'none') and r.rsplit('.', 1)[-1] in ('MaskedArray', 'Sequence', 'DataFrame', 'Series'):
            return False
        return None
    if v.kind in ('arr', 'list', 'tuple', 'dict', 'str', 'none', 'fn'):
        return v.kind == k
    if v.kind == 'num' and k not in ('num', 'bool'):
        return False
    return None


def as_array(v, want=None):
    """the array a conversion gives, and whether it may be the same memory"""
    if v.kind == 'arr':
        if want is None or v.dt is None or want == v.dt or want == '?':
            return arr(v.nd, v.dt, v.al)
        return arr(v.nd, want)
    if v.kind == 'any' and v.al:
        return AV('any', v.al)
    if v.kind in ('list', 'tuple'):
        e = elems(v)
        nd = 1
        if e is not None:
            if e.kind in ('list', 'tuple'):
                nd = 2
            elif e.kind == 'arr':
                nd = e.nd + 1 if e.nd is not None else None
            elif e.kind == 'any':
                nd = None
        return arr(nd, want)
    if v.kind in ('num', 'bool'):
        return arr(0, want)
    return AV('any')


def call(A, name, args, kw, e, env):
    short = name.rsplit('.', 1)[-1]
    a0 = args[0] if args else None
    if 'out' in kw:
        o = kw['out']
        for x in ([o] + list(o.it or ())):
            A.write(x, e, 'writes the result into (out=)')
        r = o.it[0] if o.it else o
        if r.kind not in ('none',):
            return r
    for p in STATE:
        if name == p or (p.endswith('.') and name.startswith(p)):
            A.effect('state', 'calls ' + name, e)
    for p in CLOCK:
        if name == p or (p[-1] in '._' and name.startswith(p)):
            A.effect('source', 'reads ' + name, e)
    if name.startswith(('numpy.random.', 'random.', 'scipy.stats.') ) and short not in ('seed',) and (not name.startswith('scipy.stats.') or short == 'rvs'):
        fixed = short in ('default_rng', 'RandomState', 'Random', 'Generator') and args
        if not fixed:
            A.effect('random', 'draws from ' + name, e)
        if short == 'shuffle' and a0 is not None:
            A.write(a0, e, 'shuffles')
        return ANY
    if name.startswith('numpy.'):
        return np_call(A, name, short, args, kw, e)
    if name.startswith('builtins.'):
        return builtin(A, short, args, kw, e, env)
    if name in ('copy.copy', 'copy.deepcopy') and a0 is not None:
        return a0.but(al=()) if a0.kind == 'arr' else a0.but(al=())
    if name.startswith('math.'):
        return NUM
    if name in ('functools.partial',) and a0 is not None and a0.kind == 'fn':
        return ANY
    return ANY


def np_call(A, name, short, args, kw, e):
    a0 = args[0] if args else kw.get('a') or kw.get('x') or kw.get('arr') or kw.get('object')
    if short in MUTATE0 and a0 is not None:
        A.write(a0, e, 'np.%s into' % short)
        return NONE
    if short == 'at' and a0 is not None and name.count('.') >= 2:
        A.write(a0, e, name + ' into')
        return NONE
    if a0 is None:
        return arr() if short in ('zeros', 'ones', 'empty') else ANY
    if short in CONV:
        d = kw.get('dtype') or (args[1] if len(args) > 1 else None)
        return as_array(a0, dtype_of(d) if d is not None else ('f' if short == 'asfarray' else None))
    if short in ('array', 'masked_array', 'ma.array'):
        c = kw.get('copy')
        d = kw.get('dtype') or (args[1] if len(args) > 1 else None)
        shares = c is not None and not (c.kind == 'bool' and c.ref is True)
        if '.ma.' in name or short == 'masked_array':
            shares = c is None or not (c.kind == 'bool' and c.ref is True)
        v = as_array(a0, dtype_of(d) if d is not None else None)
        return v if shares else v.but(al=())
    if short == 'nan_to_num':
        c = kw.get('copy') or (args[1] if len(args) > 1 else None)
        if c is not None and c.ref is False:
            A.write(a0, e, 'np.nan_to_num(copy=False) into')
            return a0
        return arr(a0.nd)
    if short in SAME:
        v = as_array(a0)
        k = SAME[short]
        if short == 'real' and a0.kind == 'num':
            return NUM
        if v.kind != 'arr':
            return v
        nd = v.nd
        if k == 1:
            nd = 1
        elif k == '+':
            nd = nd + 1 if nd is not None else None
        elif k == 'a1':
            nd = max(nd, 1) if nd is not None else None
        elif k == 'a2':
            nd = max(nd, 2) if nd is not None else None
        elif k is None:
            nd = shape_nd(args[1:2] or [kw.get('shape') or kw.get('newshape')]) if short == 'reshape' else None
        return arr(nd, v.dt, v.al)
    if short == 'imag':
        return arr(a0.nd, 'f', a0.al if a0.dt == 'c' else ())
    if short in ('split', 'array_split', 'hsplit', 'vsplit'):
        return AV('list', el=arr(a0.nd, a0.dt, a0.al))
    if short == 'broadcast_arrays':
        return AV('list', it=tuple(arr(None, x.dt, x.al) for x in args))
    if short in ('sliding_window_view', 'as_strided'):
        return arr(None, a0.dt, a0.al)
    if short == 'diag' and a0.nd == 2:
        return arr(1, a0.dt, a0.al)
    if short in ('zeros', 'ones', 'empty', 'full'):
        return arr(1 if a0.kind == 'num' else (len(a0.it) if a0.it is not None else None), dtype_of(kw['dtype']) if 'dtype' in kw else 'f')
    if short in ('zeros_like', 'ones_like', 'empty_like', 'full_like', 'copy', 'around', 'round', 'abs', 'absolute', 'fabs', 'sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'isnan', 'isreal', 'sign', 'floor', 'ceil',
                 'cumsum', 'diff', 'gradient', 'sort', 'power', 'conj', 'conjugate', 'negative', 'square'):
        if a0.kind == 'arr':
            return arr(a0.nd, a0.dt if short in ('zeros_like', 'copy', 'sort', 'ones_like', 'empty_like') else None)
        if a0.kind == 'num':
            return NUM
        if a0.kind in ('list', 'tuple'):
            return arr(1)
        return ANY
    if short in ('arange', 'linspace', 'concatenate', 'append', 'unique', 'flatnonzero', 'intersect1d', 'union1d', 'setdiff1d', 'insert', 'delete', 'hstack', 'logspace', 'bincount', 'argsort', 'lexsort', 'poly', 'compress', 'sort_complex'):
        if short == 'unique' and any(k.startswith('return_') for k in kw):
            return AV('tuple', el=arr(1))
        return arr(1 if short not in ('concatenate', 'append', 'insert', 'delete') or (a0.kind != 'arr' or a0.nd == 1) else None)
    if short in ('nonzero',) or short == 'where' and len(args) == 1:
        return AV('tuple', it=(arr(1, 'i'),) * a0.nd) if a0.kind == 'arr' and a0.nd else AV('tuple', el=arr(1, 'i'))
    if short in SCALAR and 'axis' not in kw and (len(args) == 1 or short in ('dot', 'vdot', 'percentile', 'quantile', 'average')) and 'keepdims' not in kw:
        return NUM if short not in ('dot',) or all(x.nd == 1 for x in args[:2]) else ANY
    if short in ('float64', 'int64', 'float32', 'int32', 'complex128', 'intp', 'bool_'):
        return NUM if a0.kind == 'num' else arr(a0.nd)
    if short in ('arctan', 'arctan2', 'arcsin', 'arccos', 'maximum', 'minimum', 'logical_and', 'logical_or', 'logical_not', 'where', 'clip', 'multiply', 'subtract', 'add', 'divide', 'tile', 'repeat', 'outer', 'roll', 'interp',
                 'greater', 'less', 'greater_equal', 'less_equal', 'isin', 'isfinite', 'hypot', 'mod', 'true_divide'):
        if any(x.kind == 'arr' for x in args):
            return arr(None)
        return NUM if all(x.kind == 'num' for x in args) else ANY
    return ANY


def shape_nd(a):
    a = [x for x in a if x is not None]
    if not a:
        return None
    if len(a) == 1 and a[0].kind in ('tuple', 'list'):
        return len(a[0].it) if a[0].it is not None else None
    if all(x.kind == 'num' for x in a):
        return len(a)
    return None


def builtin(A, n, args, kw, e, env):
    a0 = args[0] if args else None
    if n in ('list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'iter'):
        if a0 is None:
            return AV('list' if n != 'tuple' else 'tuple', it=())
        k = 'tuple' if n == 'tuple' else ('gen' if n in ('iter', 'reversed') else 'list')
        return AV(k, it=a0.it if n in ('list', 'tuple') and a0.kind in ('list', 'tuple') else None, el=A.element(a0))
    if n == 'enumerate':
        return AV('gen', el=AV('tuple', it=(NUM, A.element(a0))))
    if n == 'zip':
        return AV('gen', el=AV('tuple', it=tuple(A.element(x) for x in args)))
    if n == 'range':
        return AV('list', el=NUM)
    if n in ('map', 'filter'):
        els = [A.element(x) for x in args[1:]]
        r = A.apply(a0, els, {}, e, env)
        return AV('gen', el=r if n == 'map' else els[0])
    if n in ('len', 'int', 'float', 'complex', 'ord', 'hash'):
        return NUM
    if n in ('abs', 'round'):
        return NUM if a0.kind == 'num' else (arr(a0.nd) if a0.kind == 'arr' else ANY)
    if n in ('min', 'max', 'sum'):
        if len(args) == 1:
            x = A.element(a0)
            return x if x.kind == 'num' else (ANY if n != 'sum' else ANY)
        r = None
        for x in args:
            r = join(r, x)
        return r
    if n in ('str', 'repr', 'format', 'type'):
        return STR if n != 'type' else ANY
    if n in ('isinstance', 'issubclass', 'callable', 'any', 'all', 'bool', 'hasattr'):
        if n in ('any', 'all') and a0 is not None:
            A.element(a0)
        return BOOL
    if n == 'dict':
        return AV('dict', el=None, it=tuple(kw.values()) if kw and not args else None, ref=tuple(kw) if kw and not args else None)
    if n == 'vars' or n == 'locals':
        return AV('dict')
    if n == 'memoryview':
        return a0
    if n == 'slice':
        return AV('any', ref='slice')
    if n == 'getattr' and len(args) >= 2 and args[1].kind == 'str' and args[1].ref:
        return A.attr(a0, args[1].ref)
    if n in ('next',) and a0 is not None:
        return A.element(a0)
    return ANY


def method(A, b, name, args, kw, e):
    """result of b.name(args), and the receiver's new abstract value when it changes"""
    a0 = args[0] if args else None
    if 'out' in kw:
        A.write(kw['out'], e, 'writes the result into (out=)')
    if b.kind == 'dict':
        if name in DICT_MUT:
            A.write(b, e, '.%s() on' % name)
            v = args[1] if name == 'setdefault' and len(args) > 1 else None
            if v is None and name == 'update' and a0 is not None:
                v = elems(a0)
            return elems(b) or ANY, b.but(it=None, ref=None, el=join(elems(b), v) if v is not None else elems(b))
        if name in ('get',):
            return elems(b) or ANY, None
        if name == 'values':
            return AV('gen', el=elems(b)), None
        if name == 'items':
            return AV('gen', el=AV('tuple', it=(ANY, elems(b) or ANY))), None
        if name == 'copy':
            return b.but(al=()), None
        return ANY, None
    if b.kind == 'list':
        if name in LIST_MUT:
            A.write(b, e, '.%s() on' % name)
            if name == 'append' and a0 is not None:
                return NONE, b.but(it=b.it + (a0,) if b.it is not None and len(b.it) < 4 else None, el=None if b.it is not None and len(b.it) < 4 else join(elems(b), a0))
            if name == 'insert' and len(args) > 1:
                return NONE, b.but(it=None, el=join(elems(b), args[1]))
            if name == 'extend' and a0 is not None:
                return NONE, b.but(it=None, el=join(elems(b), A.element(a0)))
            return (elems(b) or ANY) if name == 'pop' else NONE, b.but(it=None, el=elems(b))
        if name == 'copy':
            return b.but(al=()), None
        return (NUM if name in ('index', 'count') else ANY), None
    if b.kind == 'str' and b.ref is not None and name in ('lower', 'upper', 'strip') and not args:
        return AV('str', ref=getattr(b.ref, name)()), None
    if b.kind == 'str':
        return AV('list', el=STR) if name == 'split' else STR, None
    if b.kind in ('arr', 'any') and (b.kind == 'arr' or b.al):
        if name in ARR_MUT or (b.kind == 'any' and name in LIST_MUT):
            A.write(b, e, '.%s() on' % name)
            return NONE, None
        if name == 'byteswap' and a0 is not None and a0.ref is True:
            A.write(b, e, '.byteswap() on')
        if name in ('ravel',):
            return arr(1, b.dt, b.al), None
        if name == 'reshape':
            return arr(shape_nd(args), b.dt, b.al), None
        if name in ('view', 'squeeze', 'transpose', 'swapaxes', 'diagonal', 'newbyteorder'):
            return arr(b.nd if name in ('transpose', 'swapaxes') or name == 'view' else (b.nd if b.nd == 1 else None), b.dt, b.al), None
        if name in ('conj', 'conjugate'):
            return arr(b.nd, b.dt, () if b.dt == 'c' else b.al), None
        if name == 'astype':
            c = kw.get('copy')
            w = dtype_of(a0) if a0 is not None else None
            if c is not None and c.ref is False and (w is None or b.dt is None or w == b.dt):
                return arr(b.nd, b.dt, b.al), None
            return arr(b.nd, w), None
        if name == '__setitem__' or name == '__iadd__':
            A.write(b, e, '.%s() on' % name)
            return NONE, None
        if name in ('copy', 'flatten', 'round', 'clip', 'cumsum', 'take', 'repeat', 'argsort', 'compress'):
            return arr(b.nd if name != 'flatten' else 1, b.dt if name in ('copy', 'flatten') else None), None
        if name in SCALAR and not args and not kw:
            return NUM, None
        if name == 'item':
            return NUM, None
        if name == 'tolist':
            return AV('list', el=NUM if b.nd == 1 else None), None
        if name == 'nonzero':
            return AV('tuple', it=(arr(1, 'i'),) * b.nd) if b.nd else AV('tuple', el=arr(1, 'i')), None
        return ANY, None
    return ANY, None
