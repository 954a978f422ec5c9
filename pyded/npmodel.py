"""Contracts assumed of Python built-ins, numpy and scipy.

Every numeric operation is read over the reals (floating point as exact real
arithmetic); an operation that would produce inf/nan ends the path with the
pseudo exception NonFinite.
"""
import math
from fractions import Fraction as F
from .terms import *
from . import terms as tm
from .values import *
from .loops import IterView, iter_view
from . import smt
from .smt import entails
from .prove import Prover, Budget

FUNCS = {}
TRUSTED = {}

DT = {'float': 'f', 'float64': 'f', 'int': 'i', 'int64': 'i', 'int32': 'i', 'bool': 'b', 'bool_': 'b',
      'complex': 'c', 'complex128': 'c', 'longdouble': 'f', 'double': 'f'}
ALIAS = {'numpy': 'np', 'np': 'np'}


def fn(*names):
    def deco(f):
        for n in names:
            FUNCS[n] = f
        return f
    return deco


def build(interp):
    return NP(interp)


class FileModel(object):
    """text file being written: the sequence of written pieces"""

    def __init__(self, heap, name, mode):
        self.name, self.mode = name, mode
        self.buf = PyList(heap, [])

    def model_attr(self, I, a):
        if a == 'write':
            return Builtin('write', lambda args, kw: I.list_append(self.buf, args[0]))
        if a == 'close':
            return Builtin('close', lambda args, kw: None)
        raise Unsupported('file.%s' % a)


class CtxModel(object):
    def __init__(self, name):
        self.name = name


class NP(object):
    def __init__(self, I):
        self.I = I
        self._b = {}
        self.files = []

    # ------------------------------------------------------------ names
    def canon(self, dotted):
        p = dotted.split('.')
        p[0] = ALIAS.get(p[0], p[0])
        return '.'.join(p)

    def resolve(self, dotted):
        d = self.canon(dotted)
        if self.I.ext:                  # other libraries, modelled by the unit
            r = self.I.ext(self.I, d)
            if r is not None:
                return r
        if d in FUNCS:
            return self.mkb(d)
        if d in CONSTS:
            return CONSTS[d]()
        last = d.split('.')[-1]
        if d.startswith('np.') and last in DT or d in ('np.ndarray',):
            return TypeRef({'float64': 'float', 'int64': 'int', 'bool_': 'bool', 'double': 'float',
                            'complex128': 'complex'}.get(last, last) if last != 'ndarray' else 'ndarray')
        if last[:1].isupper() and (last.endswith('Warning') or last.endswith('Error')):
            return TypeRef(last)
        if d in MODS or any(f.startswith(d + '.') for f in FUNCS) or any(f.startswith(d + '.') for f in CONSTS):
            return ModRef(d)
        return LazyUnsupported(d)

    def mkb(self, d):
        b = self._b.get(d)
        if b is None:
            f = FUNCS[d]

            def call(args, kw, f=f, d=d):
                if d in TRUSTED:
                    self.I.trusted.add('%s: %s' % (d, TRUSTED[d]))
                return f(self, self.I, *args, **kw)
            b = Builtin(d, self.guard(call, d))
            self._b[d] = b
        return b

    def guard(self, call, d):
        def g(args, kw):
            try:
                r = call(args, kw)
                if type(r) is Num and not d.startswith(('py.', 'math.')):
                    r = NpNum(r.term, r.kind, r.nan)
                return r
            except TypeError as e:
                if 'argument' in str(e) and ('unexpected' in str(e) or 'missing' in str(e) or 'positional' in str(e) or 'multiple' in str(e)):
                    raise Unsupported('call signature of %s: %s' % (d, e))
                raise
        return g

    def builtin(self, name):
        d = 'py.' + name
        if d in FUNCS:
            return self.mkb(d)
        if name in ('float', 'int', 'bool', 'str', 'list', 'tuple', 'dict', 'complex', 'object', 'set', 'type', 'slice'):
            return TypeRef(name)
        if name in EXC_PARENTS:
            return TypeRef(name)
        if name in ('True', 'False', 'None'):
            return {'True': True, 'False': False, 'None': None}[name]
        return None

    # ------------------------------------------------------------ construct types
    def construct(self, t, args, kw):
        I = self.I
        n = t.name
        if n in EXC_PARENTS:
            return ExcObj(n, tuple(args))
        if n in ('float', 'double'):
            x = args[0] if args else Num(ZERO)
            if isinstance(x, str):
                if x in ('inf', '+inf', 'Infinity', 'infinity'):
                    return Num(INF, 'f')
                if x == 'nan':
                    return Num(ZERO, 'f', TRUE)
                return Num(const(F(x)), 'f')
            if isinstance(x, NDArray) and x.ndim and not all(s is ONE for s in x.shape):
                if I.decide(and_(*[eq(s, ONE) for s in x.shape])):
                    return Num(x.get(*[ZERO] * x.ndim).arith(), 'f')
                raise PyExc('TypeError', 'only length-1 arrays')
            x = I.num(x)
            return Num(x.arith(), 'f', x.nan)
        if n == 'int':
            x = args[0] if args else Num(ZERO)
            if isinstance(x, NDArray) and x.ndim:
                return self.astype(x, 'i')
            x = I.num(x)
            if x.nan is not FALSE and I.decide(x.nan):
                raise PyExc('ValueError', 'int(nan)')
            if x.term is INF:
                raise PyExc('OverflowError')
            return Num(self.trunc(x.arith()), 'i')
        if n == 'bool':
            x = args[0]
            if isinstance(x, NDArray):
                return self.ew1(x, lambda v: Num(I.bt(v), 'b'), 'b')
            if isinstance(x, Num):
                return Num(I.bt(x), 'b')
            return I.truth(x)
        if n == 'list':
            if not args:
                return PyList(I.heap, [])
            x = args[0]
            if isinstance(x, PyList):
                return I.list_copy(x)
            if isinstance(x, (tuple, str)):
                return PyList(I.heap, list(x))
            cnt, el = iter_view(I, x)
            if cnt.op == 'const' and cnt.val < 300:
                return PyList(I.heap, [el(const(i)) for i in range(int(cnt.val))])
            return PyList(I.heap, None, cnt, el)
        if n == 'tuple':
            return tuple(I.concrete_items(args[0])) if args else ()
        if n == 'dict':
            d = {}
            for a in args:
                d.update(a.d)
            d.update(kw)
            return PyDict(I.heap, d)
        if n == 'str':
            x = args[0]
            return x if isinstance(x, (str, Str)) else I.mkstr([I.fmt(x)])
        if n == 'complex':
            a = I.num(args[0]).arith()
            b = I.num(args[1]).arith() if len(args) > 1 else ZERO
            return Cx(a, b)
        if n == 'slice':
            return slice(*args)
        if n == 'type':
            x = args[0]
            if isinstance(x, Num):
                return TypeRef({'i': 'int', 'f': 'float', 'b': 'bool'}[x.kind])
            if isinstance(x, NDArray):
                return TypeRef('ndarray')
            if isinstance(x, PyList):
                return TypeRef('list')
            if isinstance(x, bool):
                return TypeRef('bool')
            if isinstance(x, str):
                return TypeRef('str')
            if isinstance(x, PyObj):
                return x.cls
        if n == 'object':
            return ExcObj('object')
        raise Unsupported('constructor %s' % n)

    def trunc(self, t):
        if t.sort == 'I':
            return t
        if self.I.ent(ge(t, ZERO)) or smt.nonneg(t):
            return floor(t)
        if self.I.ent(le(t, ZERO)):
            return ceil(t)
        return ite(ge(t, ZERO), floor(t), ceil(t))

    def dtype(self, d):
        if d is None:
            return None
        if isinstance(d, TypeRef):
            if d.name in DT:
                return DT[d.name]
        if isinstance(d, str) and d in DT:
            return DT[d]
        raise Unsupported('dtype %r' % (d,))

    # ------------------------------------------------------------ arrays
    def asarr(self, v, dtype=None):
        """array value of v (no copy for arrays)"""
        I = self.I
        if isinstance(v, NDArray):
            return v
        if isinstance(v, bool):
            v = I.num(v)
        if isinstance(v, (Num, Cx)):
            return self.new((), lambda: v, dtype or (v.kind if isinstance(v, Num) else 'c'))
        if isinstance(v, tuple):
            v = PyList(I.heap, list(v))
        if isinstance(v, (Range, IterView)):
            n, el = iter_view(I, v)
            return self.new((n,), lambda i: el(i), dtype or 'i')
        if isinstance(v, PyList):
            n = v.len()
            if v.items is not None:
                if not v.items:
                    return self.new((ZERO,), lambda i: Num(ZERO), dtype or 'f')
                items = [x if not isinstance(x, (PyList, tuple)) else self.asarr(x) for x in v.items]
                items = [x.get() if isinstance(x, NDArray) and x.ndim == 0 else x for x in items]
                if all(isinstance(x, NDArray) for x in items):
                    s0 = items[0].shape
                    for x in items[1:]:
                        if x.ndim != len(s0):
                            raise PyExc('ValueError', 'inhomogeneous array')
                        for a, b in zip(x.shape, s0):
                            if not I.decide(eq(a, b)):
                                raise PyExc('ValueError', 'inhomogeneous array')

                    def g(i, *rest):
                        w = items[-1].get(*rest)
                        for k in range(len(items) - 2, -1, -1):
                            w = I.merge_values(eq(i, const(k)), items[k].get(*rest), w)
                        return w
                    return self.new((n,) + tuple(s0), g, dtype or self.join([x.dtype for x in items]))
                if any(isinstance(x, (str, Str)) or x is None for x in items):
                    raise Unsupported('array of objects')
                items = [x if isinstance(x, (Num, Cx)) else I.num(x) for x in items]
                dt = dtype or self.join(['c' if isinstance(x, Cx) else x.kind for x in items])

                def g1(i):
                    if i.op == 'const':
                        return items[int(i.val)]
                    w = items[-1]
                    for k in range(len(items) - 2, -1, -1):
                        w = I.merge_values(eq(i, const(k)), items[k], w)
                    return w
                return self.new((n,), g1, dt)
            probe = v.get_(fresh('i', 'I'))
            if isinstance(probe, Num) or isinstance(probe, Cx):
                return self.new((n,), lambda i: v.get_(i), dtype or (probe.kind if isinstance(probe, Num) else 'c'))
            if isinstance(probe, NDArray):
                return self.new((n,) + probe.shape, lambda i, *r: v.get_(i).get(*r), dtype or probe.dtype)
            if isinstance(probe, tuple):
                return self.new((n, const(len(probe))), lambda i, k: self._tsel(v.get_(i), k), dtype or 'f')
            raise Unsupported('array of %r' % (probe,))
        if isinstance(v, Opaque):
            raise Unsupported('array of an opaque argument')
        if isinstance(v, str) or v is None:
            raise Unsupported('array of %r' % (v,))
        raise Unsupported('array of %r' % (v,))

    def _tsel(self, tup, k):
        w = tup[-1]
        for q in range(len(tup) - 2, -1, -1):
            w = self.I.merge_values(eq(k, const(q)), tup[q], w)
        return w

    def join(self, ds):
        for k in ('c', 'f', 'i'):
            if k in ds:
                return k
        return 'b'

    def new(self, shape, f, dtype):
        shape = [lift(s) for s in shape]
        h0 = len(self.I.hyps)

        def g(*vs):
            self.I.hyps += [h for v, s in zip(vs, shape) for h in (le(ZERO, v), lt(v, s))]
            try:
                v = f(*vs)
            finally:
                del self.I.hyps[h0:]
            if isinstance(v, bool):
                v = self.I.num(v)
            if dtype == 'i' and isinstance(v, Num) and v.term.sort == 'R':
                v = Num(self.trunc(v.term), 'i', v.nan)
            return v
        return new_array(self.I.heap, shape, g, dtype)

    def copy(self, a, dtype=None):
        return self.new(a.shape, lambda *i: a.get(*i), dtype or a.dtype)

    def astype(self, a, dt):
        I = self.I
        if dt == a.dtype:
            return self.copy(a)
        if dt == 'b':
            return self.ew1(a, lambda v: Num(I.bt(v), 'b'), 'b')
        if dt == 'i':
            return self.ew1(a, lambda v: Num(self.trunc(v.arith()), 'i', v.nan), 'i')
        return self.ew1(a, lambda v: v if isinstance(v, Cx) else Num(v.arith(), 'f', v.nan), dt)

    def subarray(self, a, i):
        """a[i] along the first axis, i known to be in range"""
        i = lift(i)
        if a.ndim == 1:
            return a.get(i)
        maps = []
        for off, st in a.maps:
            o = off
            m = {}
            for ax, s in st.items():
                if ax == 0:
                    o = add(o, mul(s, i))
                else:
                    m[ax - 1] = s
            maps.append((o, m))
        return NDArray(a.buf, a.shape[1:], maps)

    def bshape(self, shapes):
        """broadcast shapes -> shape, [per-operand index selector]"""
        I = self.I
        nd = max(len(s) for s in shapes)
        out = []
        sel_ = [[] for _ in shapes]
        for k in range(nd):
            dims = []
            for s in shapes:
                p = k - (nd - len(s))
                dims.append(s[p] if p >= 0 else None)
            res = None
            for d in dims:
                if d is None or d is ONE:
                    continue
                if res is None:
                    res = d
                elif d is not res:
                    if not I.decide(eq(d, res)):
                        if I.decide(eq(d, ONE)) or I.decide(eq(res, ONE)):
                            raise Unsupported('symbolic broadcasting')
                        raise PyExc('ValueError', 'shape mismatch')
            if res is None:
                res = ONE
            out.append(res)
            for q, d in enumerate(dims):
                if d is not None:
                    sel_[q].append(ZERO if (d is ONE and res is not ONE) else k)
        return out, sel_

    def bget(self, a, selr, idx):
        return a.get(*[ZERO if k is ZERO else idx[k] for k in selr])

    def ew1(self, a, f, dtype=None):
        if dtype is None:
            probe_dt = a.dtype
            return self.new(a.shape, lambda *i: f(a.get(*i)), self._dt(a, f))
        return self.new(a.shape, lambda *i: f(a.get(*i)), dtype)

    def _dt(self, a, f):
        h0 = len(self.I.hyps)
        vs = [fresh('d', 'I') for _ in a.shape]
        self.I.hyps += [h for v, s in zip(vs, a.shape) for h in (le(ZERO, v), lt(v, s))]
        try:
            v = f(a.get(*vs))
        finally:
            del self.I.hyps[h0:]
        return 'c' if isinstance(v, Cx) else v.kind

    def forall_in(self, shape, f):
        """forall idx in shape: f(idx)"""
        vs = [fresh('q', 'I') for _ in shape]
        b = f(*vs)
        for v, s in zip(reversed(vs), reversed(list(shape))):
            b = forall(v, ZERO, s, b)
        return b

    def check_all(self, shape, f, what):
        """end the path with NonFinite unless f holds for every index"""
        I = self.I
        vs = [fresh('q', 'I') for _ in shape]
        H = [h for v, s in zip(vs, shape) for h in (le(ZERO, v), lt(v, s))]
        b = f(*vs)
        if b is TRUE or entails(I.hyps + H, b):
            return
        for v, s in zip(reversed(vs), reversed(list(shape))):
            b = forall(v, ZERO, s, b)
        if not I.decide(b):
            raise PyExc('NonFinite', what)

    def ew2(self, o, a, b):
        I = self.I
        if isinstance(a, (str, Str, PyDict)) or isinstance(b, (str, Str, PyDict)) or a is None or b is None:
            raise PyExc('TypeError', 'operand')
        a, b = self.asarr(a), self.asarr(b)
        shape, (sa, sb) = self.bshape([a.shape, b.shape])
        ga = lambda *i: self.bget(a, sa, i)
        gb = lambda *i: self.bget(b, sb, i)
        if o in ('Div', 'FloorDiv', 'Mod'):
            def nz(*i):
                y = gb(*i)
                if isinstance(y, Cx):
                    return ne(y.re, ZERO)
                x = ga(*i)
                xn = x.nan if isinstance(x, Num) else FALSE
                t = y.arith()
                if t in smt.POSITIVE:
                    return TRUE
                return or_(y.nan, xn, ne(t, ZERO))
            self.check_all(shape, nz, 'division by zero')
        if o == 'Pow':
            def okp(*i):
                x, y = ga(*i), gb(*i)
                x, y = x.arith(), y.arith()
                if y.op == 'const' and y.val.denominator == 1:
                    return TRUE if y.val >= 0 else ne(x, ZERO)
                if y.sort == 'I':
                    return or_(ne(x, ZERO), gt(y, ZERO)) if not (x.op == 'const' and x.val > 0) else TRUE
                return or_(gt(x, ZERO), and_(eq(x, ZERO), gt(y, ZERO))) if not (x.op == 'const' and x.val > 0) else TRUE
            self.check_all(shape, okp, 'power')

        def f(*i):
            x, y = ga(*i), gb(*i)
            if isinstance(x, Cx) or isinstance(y, Cx):
                if o == 'Div':
                    if not isinstance(x, Cx):
                        x = Cx(x.arith(), ZERO)
                    if not isinstance(y, Cx):
                        y = Cx(y.arith(), ZERO)
                    if y.im is not ZERO:
                        raise Unsupported('complex division')
                    return Cx(x.re / y.re, x.im / y.re)
                return I.scalar_c(o, x, y)
            if o == 'Pow':
                r = power(x.arith(), y.arith())
                if r.op == 'app' and r.val == 'pow':
                    smt.POSITIVE.add(r)
                k = 'i' if x.kind != 'f' and y.kind != 'f' else 'f'
                return Num(r, k, or_(x.nan, y.nan))
            return I.scalar(o, x, y, checked=False)
        dt = self.join([a.dtype, b.dtype])
        if o == 'Div' and dt != 'c':
            dt = 'f'
        if dt == 'b' and o in ('Add', 'Mult', 'Sub'):
            if o == 'Sub':
                raise PyExc('TypeError', 'boolean subtract')
            if o == 'Add':
                return self.new(shape, lambda *i: Num(or_(ga(*i).term, gb(*i).term), 'b'), 'b')
            return self.new(shape, lambda *i: Num(and_(ga(*i).term, gb(*i).term), 'b'), 'b')
        r = self.new(shape, f, dt)
        return r.get() if r.ndim == 0 else r

    def cmp(self, o, a, b):
        I = self.I
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('comparison of an opaque argument')
        if isinstance(b, PyList) and b.items is not None and not b.items or isinstance(a, PyList) and a.items is not None and not a.items:
            raise Unsupported('comparison with an empty list')
        a, b = self.asarr(a), self.asarr(b)
        shape, (sa, sb) = self.bshape([a.shape, b.shape])

        def f(*i):
            x, y = self.bget(a, sa, i), self.bget(b, sb, i)
            if isinstance(x, Cx) or isinstance(y, Cx):
                raise Unsupported('complex comparison')
            return Num(I.cmp_terms(o, x, y), 'b')
        r = self.new(shape, f, 'b')
        return r.get() if r.ndim == 0 else r

    def any_(self, a, axis=None):
        a = self.asarr(a)
        f = self.forall_in(a.shape, lambda *i: not_(self.I.bt(a.get(*i))))
        return Num(not_(f), 'b')

    def all_(self, a):
        a = self.asarr(a)
        return Num(self.forall_in(a.shape, lambda *i: self.I.bt(a.get(*i))), 'b')

    # ------------------------------------------------------------ indexing
    def getitem(self, a, ix):
        I = self.I
        if isinstance(ix, tuple) and len(ix) == 1:
            ix = ix[0]
        if isinstance(ix, NDArray) or isinstance(ix, PyList):
            ix = self.asarr(ix) if not (isinstance(ix, PyList) and ix.items == []) else self.new((ZERO,), lambda i: Num(ZERO), 'i')
            if ix.dtype == 'b':
                return self.compress(a, ix)
            if ix.dtype != 'i':
                raise PyExc('IndexError', 'arrays used as indices must be of integer type')
            return self.take(a, ix)
        parts = list(ix) if isinstance(ix, tuple) else [ix]
        if any(isinstance(p, (NDArray, PyList)) for p in parts):
            return self.fancy(a, parts)
        v = self.view(a, parts)
        if v.ndim == 0:
            return v.get()
        return v

    def fancy(self, a, parts):
        arrs = [k for k, p in enumerate(parts) if isinstance(p, (NDArray, PyList))]
        if len(arrs) == 1 and all(isinstance(p, slice) and p == slice(None) for k, p in enumerate(parts) if k != arrs[0]):
            ax = arrs[0]
            ix = self.asarr(parts[ax])
            if ix.dtype == 'i' and ix.ndim == 1:
                n = a.shape[ax]
                self.bounds(ix, n)
                shape = list(a.shape)
                shape[ax] = ix.shape[0]
                return self.new(shape, lambda *i: a.get(*[self.wrapneg(ix.get(i[k]).term, n) if k == ax else i[k] for k in range(len(i))]), a.dtype)
        raise Unsupported('fancy indexing')

    def wrapneg(self, t, n):
        if self.I.ent(ge(t, ZERO)):
            return t
        if self.I.ent(lt(t, ZERO)):
            return add(t, n)
        return ite(ge(t, ZERO), t, add(t, n))

    def bounds(self, ix, n):
        I = self.I
        vs = [fresh('q', 'I') for _ in ix.shape]
        H = [h for v, s in zip(vs, ix.shape) for h in (le(ZERO, v), lt(v, s))]
        t = ix.get(*vs).arith()
        b = and_(ge(t, mulc(-1, n)), lt(t, n))
        if entails(I.hyps + H, b):
            return
        for v, s in zip(reversed(vs), reversed(ix.shape)):
            b = forall(v, ZERO, s, b)
        if not I.decide(b):
            raise PyExc('IndexError', 'index array out of range')

    def take(self, a, ix):
        n = a.shape[0]
        self.bounds(ix, n)
        k = ix.ndim

        def f(*i):
            t = self.wrapneg(ix.get(*i[:k]).arith(), n)
            return a.get(t, *i[k:])
        return self.new(tuple(ix.shape) + tuple(a.shape[1:]), f, a.dtype)

    def mask_term(self, m):
        v = fresh('k', 'I')
        return mk_afn([v], self.I.bt(m.get(v)), [m.shape[0]]), m.shape[0]

    def count(self, ma, n):
        v = fresh('k', 'I')
        return mk_sum(v, ZERO, n, ite(sel(ma, v, force=True), ONE, ZERO))

    def mask_facts(self, ma, n, cnt):
        """facts about the positions selected by a mask"""
        I = self.I
        smt.APP_FACTS.setdefault('selidx', selidx_facts)
        v = fresh('k', 'I')
        w0 = appI('selidx', ma, n, ZERO)
        I.assume(ge(cnt, ZERO), le(cnt, n),
                 or_(gt(cnt, ZERO), forall(v, ZERO, n, not_(sel(ma, v, force=True)))),
                 or_(le(cnt, ZERO), and_(le(ZERO, w0), lt(w0, n), sel(ma, w0, force=True))))

    def compress(self, a, m):
        I = self.I
        if m.ndim != 1:
            if m.ndim == a.ndim == 0:
                raise Unsupported('0-d mask')
            raise Unsupported('mask with %d axes' % m.ndim)
        if m.shape[0] is not a.shape[0] and not I.decide(eq(m.shape[0], a.shape[0])):
            raise PyExc('IndexError', 'boolean index did not match')
        n = m.shape[0]
        if n.op == 'const' and n.val <= 12:
            keep = []
            for i in range(int(n.val)):
                if I.decide(I.bt(m.get(const(i)))):
                    keep.append(i)
            items = [a.get(const(i)) if a.ndim == 1 else self.subarray(a, const(i)) for i in keep]
            if not items:
                return self.new((ZERO,) + tuple(a.shape[1:]), lambda *i: Num(ZERO), a.dtype)
            return self.asarr(PyList(I.heap, items), a.dtype)
        ma, n = self.mask_term(m)
        cnt = self.count(ma, n)
        if cnt is not n:
            self.mask_facts(ma, n, cnt)
        b = self.new((cnt,) + tuple(a.shape[1:]), lambda i, *r: a.get(appI('selidx', ma, n, i), *r), a.dtype)
        b.buf.meta = ('compress', ma, n)
        return b

    def view(self, a, parts):
        I = self.I
        parts = list(parts)
        nd = len([p for p in parts if p is not None and p is not Ellipsis])
        if Ellipsis in [p if p is Ellipsis else 0 for p in parts]:
            k = [i for i, p in enumerate(parts) if p is Ellipsis][0]
            parts[k:k + 1] = [slice(None)] * (a.ndim - nd)
        else:
            parts += [slice(None)] * (a.ndim - nd)
        if nd > a.ndim:
            raise PyExc('IndexError', 'too many indices')
        ax = 0
        shape = []
        tr = []     # per old axis: (start term, new axis or None, step)
        for p in parts:
            if p is None:
                shape.append(ONE)
                continue
            n = a.shape[ax]
            if isinstance(p, slice):
                st, l, step = I.slice_bounds(p, n, 'list')
                tr.append((st, len(shape), step))
                shape.append(l)
            else:
                i = I.norm_index(I.index_term(p, 'numpy'), n)
                tr.append((i, None, None))
            ax += 1
        maps = []
        for off, st in a.maps:
            o, m = off, {}
            for x, s in st.items():
                start, nx, step = tr[x]
                o = add(o, mul(s, start))
                if nx is not None:
                    m[nx] = mul(s, step)
            maps.append((o, m))
        return NDArray(a.buf, shape, maps)

    def setitem(self, a, ix, v):
        I = self.I
        if isinstance(ix, tuple) and len(ix) == 1:
            ix = ix[0]
        if isinstance(ix, (NDArray, PyList)):
            ix = self.asarr(ix)
            if ix.dtype != 'b':
                raise Unsupported('fancy assignment')
            if isinstance(v, (NDArray, PyList)):
                v = self.asarr(v)
                if v.ndim:
                    raise Unsupported('masked assignment of an array')
                v = v.get()
            if isinstance(v, bool):
                v = I.num(v)
            shape, (sa, sb) = self.bshape([a.shape, ix.shape])
            self.store_view(a, lambda *i: I.merge_values(I.bt(self.bget(ix, sb, i)), v, a.get(*i)))
            return
        parts = list(ix) if isinstance(ix, tuple) else [ix]
        w = self.view(a, parts)
        if w.ndim == 0:
            if isinstance(v, NDArray):
                if not all(s is ONE for s in v.shape) and not I.decide(and_(*[eq(s, ONE) for s in v.shape])):
                    raise PyExc('ValueError', 'setting an array element with a sequence')
                v = v.get(*[ZERO] * v.ndim)
            if isinstance(v, (PyList, tuple)):
                raise PyExc('ValueError', 'setting an array element with a sequence')
            if isinstance(v, str) or v is None:
                raise PyExc('TypeError', 'array element')
            if isinstance(v, bool):
                v = I.num(v)
            self.store_point(w, v)
            return
        v = self.asarr(v)
        for d in range(w.ndim):
            k = d - (w.ndim - v.ndim)
            if k >= 0 and v.shape[k] is not ONE and v.shape[k] is not w.shape[d]:
                if not I.decide(eq(v.shape[k], w.shape[d])):
                    if I.decide(eq(v.shape[k], ONE)):
                        raise Unsupported('symbolic broadcasting')
                    raise PyExc('ValueError', 'could not broadcast')
        off = w.ndim - v.ndim
        if off < 0:
            raise PyExc('ValueError', 'could not broadcast')
        # snapshot the source in case it shares memory
        src = NDArray(v.buf, v.shape, v.maps)
        if v.buf is a.buf:
            src = self.copy(v)
        self.store_view(w, lambda *i: src.get(*[ZERO if src.shape[k] is ONE and w.shape[k + off] is not ONE else i[k + off] for k in range(src.ndim)]))

    def cast(self, buf, v):
        if isinstance(v, Cx):
            if buf.im is None:
                raise PyExc('TypeError', 'complex into real array')
            return v
        if buf.im is not None:
            return Cx(v.arith(), ZERO)
        if buf.dtype == 'i':
            if v.term.sort == 'B':
                return Num(v.arith(), 'i')
            return Num(self.trunc(v.term), 'i', v.nan)
        if buf.dtype == 'b':
            return Num(self.I.bt(v), 'b')
        return Num(v.arith(), 'f', v.nan)

    def store_point(self, w, v):
        b = w.buf
        idx = w.bufidx([])
        v = self.cast(b, v)
        vs = [fresh('e', 'I') for _ in b.shape]
        c = and_(*[eq(x, i) for x, i in zip(vs, idx)])
        self._store(b, vs, c, v)
        b.writes.append(('pt', idx, v))

    def _store(self, b, vs, c, v):
        rd = lambda arr: sel(arr, *vs, force=True)
        if b.im is not None:
            b.data, b.im = (mk_afn(vs, ite(c, v.re, rd(b.data)), b.shape),
                            mk_afn(vs, ite(c, v.im, rd(b.im)), b.shape))
            return
        nan0 = FALSE if b.nan is None else rd(b.nan)
        nn = bite(c, v.nan, nan0) if (v.nan is not FALSE or nan0 is not FALSE) else FALSE
        b.nan = None if nn is FALSE else mk_afn(vs, nn, b.shape)
        b.data = mk_afn(vs, ite(c, v.term, rd(b.data)), b.shape)

    def store_view(self, w, f):
        """write f(idx) to every element of the view"""
        I = self.I
        b = w.buf
        vs = [fresh('e', 'I') for _ in b.shape]
        # invert the view map
        idx = [None] * w.ndim
        conds = []
        for (off, st), v in zip(w.maps, vs):
            if not st:
                conds.append(eq(v, off))
                continue
            if len(st) != 1:
                raise Unsupported('assignment through a strided view')
            (ax, s), = st.items()
            d = sub(v, off)
            if s is ONE:
                t = d
            elif s is const(-1):
                t = mulc(-1, d)
            else:
                t = idiv(d, s)
                conds.append(eq(mul(t, s), d))
            idx[ax] = t
            conds += [le(ZERO, t), lt(t, w.shape[ax])]
        if any(i is None for i in idx):
            for k in range(w.ndim):
                if idx[k] is None:
                    if w.shape[k] is not ONE:
                        raise Unsupported('assignment through a broadcast view')
                    idx[k] = ZERO
        H = [h for v, s in zip(vs, b.shape) for h in (le(ZERO, v), lt(v, s))]
        c = and_(*conds)
        if entails(I.hyps + H, c):
            c = TRUE
        h0 = len(I.hyps)
        I.hyps += H + ([c] if c is not TRUE else [])
        try:
            v = f(*idx)
        finally:
            del I.hyps[h0:]
        if isinstance(v, bool):
            v = I.num(v)
        v = self.cast(b, v)
        self._store(b, vs, c, v)
        b.writes.append(('blk', None, None))

    def store_all(self, old, new):
        if isinstance(new, NDArray):
            if len(new.shape) > len(old.shape):
                raise PyExc('ValueError', 'non-broadcastable output')
            src = self.copy(new) if new.buf is old.buf else new
            for a, b in zip(new.shape, old.shape[old.ndim - new.ndim:]):
                if a is not b and not self.I.decide(eq(a, b)):
                    raise PyExc('ValueError', 'non-broadcastable output operand')
            k = old.ndim - new.ndim
            self.store_view(old, lambda *i: src.get(*i[k:]))
        else:
            self.store_view(old, lambda *i: new)

    # ------------------------------------------------------------ attributes
    def array_attr(self, a, name):
        I = self.I
        if name == 'shape':
            return tuple(Num(s, 'i') for s in a.shape)
        if name == 'size':
            t = ONE
            for s in a.shape:
                t = mul(t, s)
            return Num(t, 'i')
        if name == 'ndim':
            return Num(const(a.ndim), 'i')
        if name == 'dtype':
            return TypeRef({'f': 'float', 'i': 'int', 'b': 'bool', 'c': 'complex'}[a.dtype])
        if name == 'T':
            return self.transpose(a)
        if name == 'real':
            return self.ew1(a, lambda v: Num(v.re, 'f') if isinstance(v, Cx) else v, 'f' if a.dtype == 'c' else a.dtype)
        if name == 'imag':
            return self.ew1(a, lambda v: Num(v.im, 'f') if isinstance(v, Cx) else Num(ZERO, 'f'), 'f')
        if name == 'strides':
            if a.ndim != 1:
                raise Unsupported('strides')
            (off, m), = a.maps
            from .npfuncs import STRIDE
            return (Num(mul(STRIDE, m[0]), 'i'),)
        if name == 'flat':
            return a
        full = 'np.' + name
        if name in ('sum', 'mean', 'max', 'min', 'copy', 'reshape', 'cumsum', 'std', 'var', 'any', 'all', 'dot', 'prod',
                    'conj', 'round', 'nonzero', 'ravel', 'flatten', 'clip', 'take', 'argmax', 'transpose', 'conjugate', 'repeat'):
            if name == 'flatten':
                full = 'np.ravel'
            if name == 'conjugate':
                full = 'np.conj'
            if full in FUNCS:
                f = FUNCS[full]

                def call(args, kw):
                    if name == 'reshape' and len(args) > 1:
                        args = [tuple(args)]
                    return f(self, I, a, *args, **kw)
                return Builtin(name, self.guard(call, name))
        if name == 'astype':
            return Builtin(name, lambda args, kw: self.astype(a, self.dtype(args[0] if args else kw['dtype'])))
        if name == 'tolist':
            if a.ndim != 1:
                raise Unsupported('tolist')
            return Builtin(name, lambda args, kw: self.construct(TypeRef('list'), [self.copy(a)], {}))
        if name == 'item':
            return Builtin(name, lambda args, kw: a.get(*[ZERO] * a.ndim) if not args else self.getitem(a, args[0]))
        if name == 'fill':
            return Builtin(name, lambda args, kw: self.store_view(a, lambda *i: args[0]))
        if name == '__len__':
            return Builtin(name, lambda args, kw: Num(a.shape[0], 'i'))
        if name == 'sort':
            raise Unsupported('in-place sort')
        raise PyExc('AttributeError', 'ndarray.%s' % name)

    def transpose(self, a):
        nd = a.ndim
        return NDArray(a.buf, tuple(reversed(a.shape)), [(o, {nd - 1 - k: s for k, s in st.items()}) for o, st in a.maps])

    def scalar_attr(self, v, name):
        I = self.I
        if name == 'real':
            return Num(v.re, 'f') if isinstance(v, Cx) else v
        if name == 'imag':
            return Num(v.im, 'f') if isinstance(v, Cx) else Num(ZERO, v.kind)
        if name in ('item', 'copy'):
            return Builtin(name, lambda a, k: v)
        if name == 'is_integer' and isinstance(v, Num):
            return Builtin(name, lambda a, k: True if v.term.sort == 'I' else Num(eq(v.term, floor(v.term)), 'b'))
        if name == 'astype':
            return Builtin(name, lambda a, k: self.construct(TypeRef({'f': 'float', 'i': 'int', 'b': 'bool'}[self.dtype(a[0])]), [v], {}))
        if name in ('shape',):
            return ()
        if name == 'size':
            return Num(ONE, 'i')
        if name == 'ndim':
            return Num(ZERO, 'i')
        if name in ('sum', 'mean', 'max', 'min'):
            return Builtin(name, lambda a, k: v)
        if name == 'round':
            return Builtin(name, lambda a, k: Num(app('rint', v.arith()), v.kind, v.nan))
        raise PyExc('AttributeError', name)

    # ------------------------------------------------------------ reductions
    def reduce(self, a, axis, f, keepdims=False):
        """apply f(1-D getter, n) along an axis or over everything"""
        I = self.I
        a = self.asarr(a)
        if axis is None:
            if a.ndim == 1:
                return f(lambda i: a.get(i), a.shape[0], a.dtype)
            if a.ndim == 0:
                return f(lambda i: a.get(), ONE, a.dtype)
            if a.ndim == 2:
                return None
            raise Unsupported('full reduction of %d axes' % a.ndim)
        t = I.index_term(axis)
        ax = int(t.val)
        if ax < 0:
            ax += a.ndim
        if not 0 <= ax < a.ndim:
            raise PyExc('AxisError')
        rest = [s for k, s in enumerate(a.shape) if k != ax]
        if not rest:
            r = f(lambda i: a.get(i), a.shape[0], a.dtype)
            return r

        def g(*i):
            def get(k):
                idx = list(i)
                idx.insert(ax, k)
                return a.get(*idx)
            return f(get, a.shape[ax], a.dtype)
        vs = [fresh('d', 'I') for _ in rest]
        v = g(*vs)
        r = self.new(rest, g, 'c' if isinstance(v, Cx) else v.kind)
        return r


class LazyUnsupported(object):
    """a library function outside the modelled set: using it is unsupported, naming it is not"""

    def __init__(self, name):
        self.name = name

    def model_call(self, I, args, kw):
        raise Unsupported('library function %s' % self.name)

    def model_attr(self, I, a):
        return I.np.resolve(self.name + '.' + a)


class StridesOf(object):
    def __init__(self, a):
        self.a = a


def selidx_facts(x):
    ma, n, i = x.args
    out = [implies(and_(le(ZERO, i), lt(i, _count(ma, n))), and_(le(ZERO, x), lt(x, n), sel(ma, x, force=True), ge(x, i)))]
    return out


def _count(ma, n):
    v = fresh('k', 'I')
    return mk_sum(v, ZERO, n, ite(sel(ma, v, force=True), ONE, ZERO))


MODS = {'np', 'np.random', 'np.fft', 'np.lib', 'np.lib.stride_tricks', 'np.linalg', 'np.multiply', 'scipy', 'scipy.stats',
        'scipy.stats.chi2', 'scipy.special', 'scipy.signal', 'scipy.integrate', 'scipy.interpolate', 'math', 'os', 'os.path',
        'json', 'warnings', 'matplotlib', 'matplotlib.pyplot', 'itertools', 'functools', 'operator', 'collections', 'sys'}

CONSTS = {
    'np.pi': lambda: Num(PI, 'f'), 'math.pi': lambda: Num(PI, 'f'),
    'np.inf': lambda: Num(INF, 'f'), 'math.inf': lambda: Num(INF, 'f'),
    'np.nan': lambda: Num(ZERO, 'f', TRUE), 'math.nan': lambda: Num(ZERO, 'f', TRUE),
    'np.e': lambda: Num(app('exp', ONE), 'f'), 'math.e': lambda: Num(app('exp', ONE), 'f'),
    'np.newaxis': lambda: None,
    'scipy.stats.chi2': lambda: ModRef('scipy.stats.chi2'),
}

from . import npfuncs  # noqa: E402,F401  (registers the functions)
