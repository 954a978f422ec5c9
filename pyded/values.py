"""Runtime values of the symbolic interpreter."""
from .terms import *
from . import terms as tm


class Unsupported(Exception):
    """construct outside the verified subset: the function is not within reach"""


class PyExc(Exception):
    """a Python exception raised by the interpreted program"""

    def __init__(self, name, msg='', obj=None):
        Exception.__init__(self, name, msg)
        self.name, self.msg, self.obj = name, msg, obj


EXC_PARENTS = {
    'IndexError': 'LookupError', 'KeyError': 'LookupError', 'LookupError': 'Exception',
    'ValueError': 'Exception', 'TypeError': 'Exception', 'ZeroDivisionError': 'ArithmeticError',
    'OverflowError': 'ArithmeticError', 'ArithmeticError': 'Exception', 'AssertionError': 'Exception',
    'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError', 'AttributeError': 'Exception',
    'NameError': 'Exception', 'UnboundLocalError': 'NameError', 'UserWarning': 'Warning',
    'RuntimeWarning': 'Warning', 'DeprecationWarning': 'Warning', 'Warning': 'Exception',
    'Exception': 'BaseException', 'StopIteration': 'Exception', 'ImportError': 'Exception',
    'LinAlgError': 'ValueError', 'OSError': 'Exception', 'NonFinite': 'BaseException',
    'IntegrationWarning': 'UserWarning', 'FloatingPointError': 'ArithmeticError', 'AxisError': 'ValueError'}


def exc_matches(name, handler):
    while name:
        if name == handler:
            return True
        name = EXC_PARENTS.get(name)
    return False


class Num(object):
    """scalar: kind 'i' int, 'f' float, 'b' bool; nan: condition under which it is NaN"""
    __slots__ = ('term', 'kind', 'nan')

    def __init__(self, term, kind=None, nan=FALSE):
        term = lift(term)
        if kind is None:
            kind = 'b' if term.sort == 'B' else 'i' if term.sort == 'I' else 'f'
        self.term, self.kind, self.nan = term, kind, nan

    def __repr__(self):
        return 'Num(%s:%s%s)' % (pp(self.term), self.kind, '' if self.nan is FALSE else ' nan?%s' % pp(self.nan))

    def arith(self):
        """term as a number"""
        if self.term.sort == 'B':
            return ite(self.term, ONE, ZERO)
        return self.term


class NpNum(Num):
    """a numpy scalar: combines with lists as an array does"""
    __slots__ = ()


class Cx(object):
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = lift(re), lift(im)

    def __repr__(self):
        return 'Cx(%s, %s)' % (self.re, self.im)


INF = tm._mk('app', (), 'inf', 'R')
NANT = tm._mk('app', (), 'nan', 'R')


class Heap(object):
    def __init__(self):
        self.objs = []

    def add(self, o):
        self.objs.append(o)

    def snapshot(self):
        return [(o, o.get_state()) for o in self.objs]

    def restore(self, snap):
        self.objs = [o for o, _ in snap]
        for o, s in snap:
            o.set_state(s)


class Buf(object):
    """memory of an ndarray: a term array with one index per axis"""
    n = 0

    def __init__(self, heap, data, shape, dtype, nan=None, im=None, name=None, origin=None):
        Buf.n += 1
        self.uid = Buf.n
        self.data, self.shape, self.dtype, self.nan, self.im = data, tuple(shape), dtype, nan, im
        self.name = name
        self.origin = origin       # name of the caller-owned argument, if any
        self.writes = []
        self.meta = None
        heap.add(self)

    def get_state(self):
        return (self.data, self.nan, self.im, tuple(self.writes))

    def set_state(self, s):
        self.data, self.nan, self.im = s[0], s[1], s[2]
        self.writes = list(s[3])

    def read(self, idx):
        v = sel(self.data, *idx)
        if self.im is not None:
            return Cx(v, sel(self.im, *idx))
        nan = FALSE if self.nan is None else sel(self.nan, *idx, force=True)
        return Num(v, self.dtype, nan)


class NDArray(object):
    """view: maps[b] = (offset, {axis: stride}) for each buffer axis b"""

    def __init__(self, buf, shape, maps):
        self.buf, self.shape, self.maps = buf, tuple(shape), maps

    @property
    def dtype(self):
        return self.buf.dtype

    @property
    def ndim(self):
        return len(self.shape)

    def bufidx(self, idx):
        out = []
        for off, st in self.maps:
            t = off
            for ax, s in st.items():
                t = add(t, mul(s, idx[ax]))
            out.append(t)
        return out

    def get(self, *idx):
        return self.buf.read(self.bufidx([lift(i) for i in idx]))

    def whole(self):
        return (len(self.shape) == len(self.buf.shape) and all(a is b for a, b in zip(self.shape, self.buf.shape))
                and all(o is ZERO and set(st) == {k} and st[k] is ONE for k, (o, st) in enumerate(self.maps)))

    def __repr__(self):
        return '<ndarray %s shape=%s of buf%d>' % (self.dtype, self.shape, self.buf.uid)


def new_array(heap, shape, fn, dtype, hasnan=False, iscx=False, name=None):
    """array whose element at idx is fn(idx) (Num / Cx)"""
    shape = [lift(s) for s in shape]
    vs = [fresh('e', 'I') for _ in shape]
    val = fn(*vs)
    im = nan = None
    if isinstance(val, Cx):
        data = mk_afn(vs, val.re, shape)
        im = mk_afn(vs, val.im, shape)
        dtype = 'c'
    else:
        t = val.term if dtype == 'b' else val.arith()
        data = mk_afn(vs, t, shape)
        if val.nan is not FALSE:
            nan = mk_afn(vs, val.nan, shape)
        if iscx or dtype == 'c':
            im = mk_afn(vs, ZERO, shape)
            dtype = 'c'
    b = Buf(heap, data, shape, dtype, nan=nan, im=im, name=name)
    return NDArray(b, shape, ident_maps(len(shape)))


def ident_maps(n):
    return [(ZERO, {k: ONE}) for k in range(n)]


def arr_from_data(heap, data, shape, dtype, **kw):
    shape = [lift(s) for s in shape]
    b = Buf(heap, data, shape, dtype, **kw)
    return NDArray(b, shape, ident_maps(len(shape)))


class PyList(object):
    """items: python list; or symbolic: length term + element function"""

    def __init__(self, heap, items=None, length=None, get=None, origin=None):
        self.items = items
        self.length = length
        self.get_ = get
        self.origin = origin
        self.appends = []
        heap.add(self)

    def get_state(self):
        return (None if self.items is None else list(self.items), self.length, self.get_, list(self.appends))

    def set_state(self, s):
        self.items = None if s[0] is None else list(s[0])
        self.length, self.get_ = s[1], s[2]
        self.appends = list(s[3])

    def len(self):
        return const(len(self.items)) if self.items is not None else self.length

    def __repr__(self):
        return 'PyList(%s)' % (self.items if self.items is not None else 'len %s' % self.length)


class PyDict(object):
    def __init__(self, heap, d):
        self.d = d
        heap.add(self)

    def get_state(self):
        return dict(self.d)

    def set_state(self, s):
        self.d = dict(s)


class Frame(object):
    def __init__(self, heap, vars=None, parent=None, glob=None):
        self.vars = vars if vars is not None else {}
        self.parent, self.glob = parent, glob
        heap.add(self)

    def get_state(self):
        return dict(self.vars)

    def set_state(self, s):
        self.vars = dict(s)


class PyObj(object):
    def __init__(self, heap, cls):
        self.cls = cls
        self.attrs = {}
        heap.add(self)

    def get_state(self):
        return dict(self.attrs)

    def set_state(self, s):
        self.attrs = dict(s)


class Range(object):
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def len(self):
        if self.step is ONE:
            d = sub(self.stop, self.start)
            return d
        raise Unsupported('range step')


class Func(object):
    def __init__(self, node, module, closure=None, defaults=None, name=None, cls=None):
        self.node, self.module, self.closure = node, module, closure
        self.defaults = defaults
        self.name = name or getattr(node, 'name', '<lambda>')
        self.cls = cls

    @property
    def qual(self):
        return '%s.%s' % (self.module.name, (self.cls.name + '.' if self.cls else '') + self.name)


class Method(object):
    def __init__(self, func, obj):
        self.func, self.obj = func, obj


class Cls(object):
    def __init__(self, name, bases, d, module):
        self.name, self.bases, self.d, self.module = name, bases, d, module

    def find(self, n):
        if n in self.d:
            return self.d[n], self
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.find(n)
                if r:
                    return r
        return None


class Builtin(object):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class ModRef(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<mod %s>' % self.name


class TypeRef(object):
    def __init__(self, name):
        self.name = name


class Opaque(object):
    """an argument the function may only pass on (e.g. a tau selection)"""

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return 'Opaque(%s)' % (self.tag,)


class Str(object):
    """formatted text with symbolic parts"""

    def __init__(self, parts):
        self.parts = parts


class Super(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ExcObj(object):
    def __init__(self, name, args=()):
        self.name, self.args = name, args


class Undef(object):
    def __init__(self, why):
        self.why = why


def subst_value(v, m, heap=None):
    if isinstance(v, Num):
        return Num(subst(v.term, m), v.kind, subst(v.nan, m))
    if isinstance(v, Cx):
        return Cx(subst(v.re, m), subst(v.im, m))
    if isinstance(v, tuple):
        return tuple(subst_value(x, m, heap) for x in v)
    if isinstance(v, NDArray):
        b = v.buf
        f = lambda t: None if t is None else subst(t, m)
        shape = [subst(s, m) for s in b.shape]
        nb = Buf(heap, f(b.data), shape, b.dtype, nan=f(b.nan), im=f(b.im))
        return NDArray(nb, [subst(s, m) for s in v.shape],
                       [(subst(o, m), {k: subst(s, m) for k, s in st.items()}) for o, st in v.maps])
    return v
