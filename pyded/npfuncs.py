"""Assumed contracts of library functions (see npmodel)."""
from fractions import Fraction as F
from math import comb
from .terms import *
from . import terms as tm
from .values import *
from .loops import IterView, iter_view, nonneg_len
from . import smt
from .smt import entails
from .npmodel import fn, FUNCS, TRUSTED, NP, FileModel, _count, EXC_PARENTS, LazyUnsupported

RND = arrsym('RND', 'R')


def unary(N, I, x, f, dom=None, what='', dtype='f', pyexc=None):
    """elementwise function; dom(term): boolean domain condition"""
    if isinstance(x, bool):
        x = I.num(x)
    if isinstance(x, (PyList, tuple, Range)):
        x = N.asarr(x)
    if isinstance(x, NDArray):
        if dom is not None:
            def ok(*i):
                v = x.get(*i)
                return or_(v.nan, dom(v.arith()))
            N.check_all(x.shape, ok, what)
        return N.new(x.shape, lambda *i: f(x.get(*i)), dtype or x.dtype)
    if isinstance(x, Cx):
        return f(x)
    x = I.num(x)
    if dom is not None:
        c = dom(x.arith())
        if c is not TRUE and not I.decide(or_(x.nan, c)):
            raise PyExc(pyexc or 'NonFinite', what)
    return f(x)


def nn(t):
    return TRUE if smt.nonneg(t) else ge(t, ZERO)


def _sqrt(v):
    if isinstance(v, Cx):
        raise Unsupported('complex sqrt')
    return Num(sqrt(v.arith()), 'f', v.nan)


@fn('np.sqrt')
def np_sqrt(N, I, x):
    return unary(N, I, x, _sqrt, nn, 'sqrt of a negative number')


@fn('math.sqrt')
def math_sqrt(N, I, x):
    return unary(N, I, x, _sqrt, nn, 'math domain error', pyexc='ValueError')


@fn('np.square')
def np_square(N, I, x):
    return I.binop('Mult', x, x)


def _abs(v):
    if isinstance(v, Cx):
        return Num(sqrt(v.re * v.re + v.im * v.im), 'f')
    return Num(absv(v.arith()) if not smt.nonneg(v.arith()) else v.arith(), v.kind, v.nan)


@fn('np.abs', 'np.absolute', 'np.fabs', 'py.abs', 'math.fabs')
def np_abs(N, I, x):
    dt = x.dtype if isinstance(x, NDArray) and x.dtype != 'c' else 'f'
    return unary(N, I, x, _abs, dtype=dt)


def mkfun(name, dom=None, what=''):
    def f(N, I, x):
        return unary(N, I, x, lambda v: Num(app(name, v.arith()), 'f', v.nan), dom, what)
    return f


for _n in ('sin', 'cos', 'tan', 'exp', 'arctan', 'tanh', 'expm1'):
    FUNCS['np.' + _n] = FUNCS['math.' + _n] = mkfun(_n)
FUNCS['np.log'] = FUNCS['math.log'] = mkfun('log', lambda t: gt(t, ZERO), 'log of a nonpositive number')
FUNCS['scipy.special.erf'] = FUNCS['math.erf'] = mkfun('erf')


def _logb(base):
    def f(N, I, x):
        return unary(N, I, x, lambda v: Num(div(app('log', v.arith()), app('log', const(base))), 'f', v.nan),
                     lambda t: gt(t, ZERO), 'log of a nonpositive number')
    return f


FUNCS['np.log2'] = FUNCS['math.log2'] = _logb(2)
FUNCS['np.log10'] = FUNCS['math.log10'] = _logb(10)


def _keepkind(f):
    def g(v):
        if isinstance(v, Cx):
            raise Unsupported('complex rounding')
        return Num(f(v.arith()), v.kind if v.kind != 'b' else 'i', v.nan)
    return g


def _rounding(f, pyint=False):
    def g(N, I, x, decimals=None):
        if decimals is not None:
            d = I.num(decimals).term
            if d is not ZERO:
                if d.op != 'const' or d.val.denominator != 1 or f is floor or f is ceil:
                    raise Unsupported('round to decimals')
                h, ten, f2 = f, const(F(10) ** int(d.val)), None
                f2 = lambda t: div(h(mul(t, ten)), ten)
                g2 = lambda v: v if v.kind in 'ib' and d.val > 0 else Num(f2(v.arith()), v.kind if v.kind != 'b' else 'i', v.nan)
                if isinstance(x, NDArray):
                    return unary(N, I, x, g2, dtype=None)
                return unary(N, I, x, g2)
        if isinstance(x, NDArray):
            return unary(N, I, x, _keepkind(f), dtype=None)
        r = unary(N, I, x, _keepkind(f))
        if pyint and isinstance(r, Num):
            return Num(r.term, 'i', r.nan)
        return r
    return g


FUNCS['np.floor'] = _rounding(floor)
FUNCS['np.ceil'] = _rounding(ceil)
FUNCS['math.floor'] = _rounding(floor, True)
FUNCS['math.ceil'] = _rounding(ceil, True)
FUNCS['np.round'] = FUNCS['np.rint'] = FUNCS['np.around'] = _rounding(lambda t: app('rint', t))
FUNCS['py.round'] = _rounding(lambda t: app('rint', t), True)


@fn('np.trunc', 'np.fix', 'math.trunc')
def np_trunc(N, I, x):
    return unary(N, I, x, _keepkind(N.trunc), dtype=None)


@fn('np.conj', 'np.conjugate')
def np_conj(N, I, x):
    f = lambda v: Cx(v.re, mulc(-1, v.im)) if isinstance(v, Cx) else v
    return unary(N, I, x, f, dtype=None)


@fn('np.real')
def np_real(N, I, x):
    return I.getattr_(x, 'real')


@fn('np.imag')
def np_imag(N, I, x):
    return I.getattr_(x, 'imag')


@fn('np.sign')
def np_sign(N, I, x):
    return unary(N, I, x, lambda v: Num(ite(gt(v.arith(), ZERO), ONE, ite(lt(v.arith(), ZERO), const(-1), ZERO)), v.kind, v.nan), dtype=None)


@fn('np.isnan', 'math.isnan')
def np_isnan(N, I, x):
    return unary(N, I, x, lambda v: Num(v.nan, 'b'), dtype='b')


@fn('np.isfinite', 'math.isfinite')
def np_isfinite(N, I, x):
    return unary(N, I, x, lambda v: Num(not_(v.nan), 'b'), dtype='b')


@fn('np.logical_not')
def np_lnot(N, I, x):
    return unary(N, I, x, lambda v: Num(not_(I.bt(v)), 'b'), dtype='b')


for _o, _ns in {'Add': ('np.add', 'operator.add'), 'Sub': ('np.subtract', 'operator.sub'), 'Mult': ('np.multiply', 'operator.mul'),
                'Div': ('np.divide', 'np.true_divide'), 'Mod': ('np.mod', 'np.remainder'), 'FloorDiv': ('np.floor_divide',),
                'Pow': ('np.power', 'np.float_power', 'math.pow')}.items():
    for _n in _ns:
        FUNCS[_n] = (lambda o: lambda N, I, a, b: I.binop(o, N_l(N, a), N_l(N, b)))(_o)


def N_l(N, a):
    return N.asarr(a) if isinstance(a, (PyList, tuple)) else a


for _o, _n in {'Eq': 'np.equal', 'NotEq': 'np.not_equal', 'Lt': 'np.less', 'LtE': 'np.less_equal', 'Gt': 'np.greater', 'GtE': 'np.greater_equal'}.items():
    FUNCS[_n] = (lambda o: lambda N, I, a, b: I.compare(o, N_l(N, a), N_l(N, b)))(_o)
FUNCS['np.logical_and'] = lambda N, I, a, b: N.ew2('BitAnd', N.astype(N.asarr(a), 'b'), N.astype(N.asarr(b), 'b'))
FUNCS['np.logical_or'] = lambda N, I, a, b: N.ew2('BitOr', N.astype(N.asarr(a), 'b'), N.astype(N.asarr(b), 'b'))


@fn('py.pow')
def py_pow(N, I, a, b):
    return I.binop('Pow', a, b)


@fn('py.divmod')
def py_divmod(N, I, a, b):
    return (I.binop('FloorDiv', a, b), I.binop('Mod', a, b))


# ---------------------------------------------------------------- construction
@fn('np.array')
def np_array(N, I, x, dtype=None, copy=True, ndmin=None):
    dt = N.dtype(dtype)
    if isinstance(x, Opaque):
        return x
    if isinstance(x, NDArray):
        return N.astype(x, dt) if dt and dt != x.dtype else (N.copy(x) if copy is not False else x)
    a = N.asarr(x)
    return N.astype(a, dt) if dt and dt != a.dtype else a


@fn('np.asarray', 'np.ascontiguousarray', 'np.asanyarray', 'np.atleast_1d')
def np_asarray(N, I, x, dtype=None):
    dt = N.dtype(dtype)
    if isinstance(x, Opaque):
        return x
    a = N.asarr(x)
    return N.astype(a, dt) if dt and dt != a.dtype else a


@fn('np.copy', 'copy.copy', 'copy.deepcopy')
def np_copy(N, I, x):
    if isinstance(x, PyList):
        return I.list_copy(x)
    return N.copy(N.asarr(x))


def _shape(N, I, s):
    if isinstance(s, (tuple, PyList)):
        items = I.concrete_items(s)
    else:
        items = [s]
    out = []
    for x in items:
        t = I.index_term(x, 'list')
        if t.op == 'const':
            if t.val < 0:
                raise PyExc('ValueError', 'negative dimensions')
        elif not I.decide(ge(t, ZERO)):
            raise PyExc('ValueError', 'negative dimensions')
        out.append(t)
    return out


def _filled(val):
    def f(N, I, shape, dtype=None, order=None):
        dt = N.dtype(dtype) or 'f'
        v = Cx(const(val), ZERO) if dt == 'c' else Num(TRUE if val else FALSE, 'b') if dt == 'b' else Num(const(val), dt)
        return N.new(_shape(N, I, shape), lambda *i: v, dt)
    return f


FUNCS['np.zeros'] = _filled(0)
FUNCS['np.ones'] = _filled(1)


def _empty(N, I, shape, dtype=None, order=None):
    dt = N.dtype(dtype) or 'f'
    sh = _shape(N, I, shape)
    if dt != 'f':
        return _filled(0)(N, I, shape, dtype)
    d = arrsym('uninit%d' % next(_cnt), 'R')
    return arr_from_data(I.heap, d, sh, dt)


import itertools  # noqa: E402
_cnt = itertools.count()
FUNCS['np.empty'] = _empty


@fn('np.full')
def np_full(N, I, shape, fill_value, dtype=None):
    v = I.num(fill_value) if not isinstance(fill_value, Cx) else fill_value
    return N.new(_shape(N, I, shape), lambda *i: v, N.dtype(dtype) or ('c' if isinstance(v, Cx) else v.kind))


def _like(val):
    def f(N, I, a, dtype=None):
        a = N.asarr(a)
        dt = N.dtype(dtype) or a.dtype
        v = Cx(const(val), ZERO) if dt == 'c' else Num(TRUE if val else FALSE, 'b') if dt == 'b' else Num(const(val), dt)
        return N.new(a.shape, lambda *i: v, dt)
    return f


FUNCS['np.zeros_like'] = _like(0)
FUNCS['np.ones_like'] = _like(1)


@fn('np.empty_like')
def np_empty_like(N, I, a, dtype=None):
    a = N.asarr(a)
    dt = N.dtype(dtype) or a.dtype
    if dt != 'f':
        return _like(0)(N, I, a, dtype)
    return arr_from_data(I.heap, arrsym('uninit%d' % next(_cnt), 'R'), a.shape, dt)


@fn('np.full_like')
def np_full_like(N, I, a, fill_value, dtype=None):
    a = N.asarr(a)
    v = I.num(fill_value)
    dt = N.dtype(dtype) or a.dtype
    return N.new(a.shape, lambda *i: v, dt)


@fn('np.arange')
def np_arange(N, I, *args, **kw):
    step = kw.get('step')
    dt = N.dtype(kw.get('dtype'))
    a = list(args)
    if 'stop' in kw:
        a.append(kw['stop'])
    if len(a) == 1:
        start, stop = Num(ZERO, 'i'), I.num(a[0])
    else:
        start, stop = I.num(a[0]), I.num(a[1])
        if len(a) > 2:
            step = a[2]
    step = Num(ONE, 'i') if step is None else I.num(step)
    I.check_nonzero(step.arith())
    d = div(sub(stop.arith(), start.arith()), step.arith())
    n = ceil(d) if d.sort != 'I' else d
    n = nonneg_len(I, n)
    kind = 'f' if 'f' in (start.kind, stop.kind, step.kind) else 'i'
    return N.new((n,), lambda i: Num(add(start.arith(), mul(step.arith(), i)), kind), dt or kind)


def _lin(I, start, stop, n, endpoint=True):
    a, b = I.num(start).arith(), I.num(stop).arith()
    if n is ONE or (n.op != 'const' and not I.ent(gt(n, ONE)) and I.decide(le(n, ONE))):
        return lambda i: a
    den = sub(n, ONE) if endpoint else n
    st = div(sub(b, a), den)
    return lambda i: add(a, mul(i, st))


@fn('np.linspace')
def np_linspace(N, I, start, stop, num=None, endpoint=True, dtype=None):
    n = const(50) if num is None else I.index_term(num, 'list')
    if n.op != 'const' and not I.decide(ge(n, ZERO)):
        raise PyExc('ValueError', 'number of samples must be non-negative')
    f = _lin(I, start, stop, n, endpoint is not False)
    return N.new((n,), lambda i: Num(f(i), 'f'), N.dtype(dtype) or 'f')


@fn('np.logspace')
def np_logspace(N, I, start, stop, num=None, endpoint=True, base=None, dtype=None):
    n = const(50) if num is None else I.index_term(num, 'list')
    if n.op != 'const' and not I.decide(ge(n, ZERO)):
        raise PyExc('ValueError', 'number of samples must be non-negative')
    f = _lin(I, start, stop, n, endpoint is not False)
    b = const(10) if base is None else I.num(base).arith()

    def g(i):
        r = power(b, f(i))
        if r.op == 'app':
            smt.POSITIVE.add(r)
        return Num(r, 'f')
    return N.new((n,), g, 'f')


# ---------------------------------------------------------------- reductions
def _sumf(nanskip=False, square=None):
    def f(get, n, dt):
        v = fresh('s', 'I')
        x = get(v)
        if isinstance(x, Cx):
            return Cx(mk_sum(v, ZERO, n, x.re), mk_sum(v, ZERO, n, x.im))
        nan = FALSE
        t = x.arith()
        if x.nan is not FALSE:
            if nanskip:
                t = ite(x.nan, ZERO, t)
            else:
                nan = exists(v, ZERO, n, x.nan)
        k = x.kind if x.kind != 'b' else 'i'
        return Num(mk_sum(v, ZERO, n, t), k, nan)
    return f


def _red(N, I, a, axis, f):
    a = N.asarr(a)
    r = N.reduce(a, axis, f)
    if r is None:
        # two axes: reduce the last one first
        return N.reduce(N.reduce(a, Num(ONE, 'i'), f), None, f)
    return r


def _keep(r, kw):
    if kw.get('keepdims'):
        raise Unsupported('keepdims')
    return r


@fn('np.sum')
def np_sum(N, I, a, axis=None, dtype=None):
    return _red(N, I, a, axis, _sumf())


@fn('np.nansum')
def np_nansum(N, I, a, axis=None):
    return _red(N, I, a, axis, _sumf(True))


@fn('py.sum', 'math.fsum')
def py_sum(N, I, a, start=None):
    if isinstance(a, NDArray) and a.ndim > 1:
        r = N.reduce(a, Num(ZERO, 'i'), _sumf())
    else:
        n, el = iter_view(I, a)
        if n.op == 'const' and n.val <= 64:
            r = start if start is not None else Num(ZERO, 'i')
            for i in range(int(n.val)):
                r = I.binop('Add', r, el(const(i)))
            return r
        probe = el(fresh('i', 'I'))
        if isinstance(probe, NDArray):
            raise Unsupported('sum of arrays')
        r = _sumf()(lambda i: el(i) if isinstance(el(i), (Num, Cx)) else I.num(el(i)), n, None)
    return r if start is None else I.binop('Add', start, r)


def _div_n(I, s, n, nonempty=True):
    if not (n.op == 'const' and n.val > 0) and not I.decide(gt(n, ZERO)):
        raise PyExc('NonFinite', 'mean of an empty slice')
    if isinstance(s, Cx):
        return Cx(s.re / n, s.im / n)
    return Num(div(s.arith(), n), 'f', s.nan)


def _meanf(I):
    def f(get, n, dt):
        return _div_n(I, _sumf()(get, n, dt), n)
    return f


@fn('np.mean')
def np_mean(N, I, a, axis=None, dtype=None):
    a = N.asarr(a)
    if axis is None and a.ndim == 2:
        s = _red(N, I, a, None, _sumf())
        return _div_n(I, s, mul(a.shape[0], a.shape[1]))
    if axis is not None:
        ax = int(I.index_term(axis).val)
        if not I.decide(gt(a.shape[ax], ZERO)):
            raise PyExc('NonFinite', 'mean of an empty slice')
    return N.reduce(a, axis, _meanf(I))


@fn('np.average')
def np_average(N, I, a, axis=None, weights=None):
    if weights is not None:
        a, w = N.asarr(a), N.asarr(weights)
        if a.ndim != 1 or w.ndim != 1 or axis is not None:
            raise Unsupported('weighted average')
        if not I.decide(eq(a.shape[0], w.shape[0])):
            raise PyExc('TypeError')
        return I.binop('Div', np_sum(N, I, I.binop('Mult', a, w)), np_sum(N, I, w))
    return np_mean(N, I, a, axis)


@fn('np.nanmean')
def np_nanmean(N, I, a, axis=None):
    a = N.asarr(a)

    def f(get, n, dt):
        v = fresh('s', 'I')
        x = get(v)
        if x.nan is FALSE:
            return _meanf(I)(get, n, dt)
        c = mk_sum(v, ZERO, n, ite(x.nan, ZERO, ONE))
        return _div_n(I, _sumf(True)(get, n, dt), c)
    return N.reduce(a, axis, f)


@fn('np.var')
def np_var(N, I, a, axis=None, ddof=None):
    a = N.asarr(a)
    dd = ZERO if ddof is None else I.num(ddof).arith()
    if axis is None and a.ndim != 1:
        raise Unsupported('var of several axes')

    def f(get, n, dt):
        m = _meanf(I)(get, n, dt).term

        def g(k):
            x = get(k)
            d = sub(x.arith(), m)
            return Num(mul(d, d), 'f', x.nan)
        return _div_n(I, _sumf()(g, n, dt), sub(n, dd))
    return N.reduce(a, axis, f)


@fn('np.std')
def np_std(N, I, a, axis=None, ddof=None):
    return np_sqrt(N, I, np_var(N, I, a, axis, ddof))


@fn('statistics.mean')
def st_mean(N, I, a):
    return np_mean(N, I, a)


def _is_zero(I, e):
    from .norm import Norm, TooBig
    try:
        return e is ZERO or Norm(I.hyps).is_zero(e)
    except TooBig:
        return False


def _extf(I, mk):
    def f(get, n, dt):
        if not (n.op == 'const' and n.val > 0) and not I.decide(gt(n, ZERO)):
            raise PyExc('ValueError', 'zero-size array to reduction operation')
        v = fresh('s', 'I')
        x = get(v)
        nan = FALSE if x.nan is FALSE else exists(v, ZERO, n, x.nan)
        if n.op == 'const' and n.val <= 4:
            tt = tmax if mk is mk_max else tmin
            t = get(ZERO).arith()
            for i in range(1, int(n.val)):
                t = tt(t, get(const(i)).arith())
            return Num(t, x.kind, nan)
        x0, x1 = get(ZERO).arith(), get(ONE).arith()
        d = sub(x1, x0)
        if x.term.op in ('lin', 'mul', 'var') and _is_zero(I, sub(x.arith(), add(x0, mul(v, d)))):      # an arithmetic progression
            up = I.ent(ge(d, ZERO))
            if up or I.ent(le(d, ZERO)):
                return Num(get(sub(n, ONE)).arith() if up == (mk is mk_max) else x0, x.kind, nan)
        return Num(mk(v, ZERO, n, x.arith()), x.kind, nan)
    return f


def _ext(mk):
    def f(N, I, a, axis=None):
        a = N.asarr(a)
        if axis is not None:
            t = I.index_term(axis)
            n = a.shape[int(t.val)]
            if n.op != 'const' and not I.decide(gt(n, ZERO)):
                raise PyExc('ValueError', 'zero-size array')
        elif a.ndim == 2:
            return N.reduce(N.reduce(a, Num(ONE, 'i'), _extf(I, mk)), None, _extf(I, mk))
        return N.reduce(a, axis, _extf(I, mk))
    return f


FUNCS['np.max'] = FUNCS['np.amax'] = FUNCS['np.maximum.reduce'] = _ext(mk_max)
FUNCS['np.min'] = FUNCS['np.amin'] = FUNCS['np.minimum.reduce'] = _ext(mk_min)


@fn('np.ptp')
def np_ptp(N, I, a, axis=None):
    return I.binop('Sub', _ext(mk_max)(N, I, a, axis), _ext(mk_min)(N, I, a, axis))


def _pick(I, tt, a, b):
    x, y = a.arith(), b.arith()
    k = 'f' if 'f' in (a.kind, b.kind) else 'i'
    if x is INF or y is INF:
        o = y if x is INF else x
        return Num(o if tt is tmin else INF, k)
    small, big = (x, y) if I.ent(le(x, y)) else (y, x) if I.ent(le(y, x)) else (None, None)
    if small is not None:
        t = small if tt is tmin else big
        if t is x and t is y:
            return Num(t, k)
        return Num(t, a.kind if t is x else b.kind)
    return Num(tt(x, y), k)


def _pyext(tt, mk):
    def f(N, I, *args, **kw):
        if kw:
            if set(kw) == {'default'} and len(args) == 1:
                if not I.decide(gt(iter_view(I, args[0])[0], ZERO)):
                    return kw['default']
            else:
                raise Unsupported('min/max with key')
        if len(args) == 1:
            n, el = iter_view(I, args[0])
            if n.op != 'const':
                return _extf(I, mk)(el, n, None)
            items = [el(const(i)) for i in range(int(n.val))]
            if not items:
                raise PyExc('ValueError', 'empty sequence')
        else:
            items = list(args)
        r = I.num(items[0])
        for x in items[1:]:
            r = _pick(I, tt, r, I.num(x))
        return r
    return f


FUNCS['py.min'] = _pyext(tmin, mk_min)
FUNCS['py.max'] = _pyext(tmax, mk_max)


def _elext(tt):
    def f(N, I, a, b):
        a, b = N.asarr(a), N.asarr(b)
        shape, (sa, sb) = N.bshape([a.shape, b.shape])

        def g(*i):
            x, y = N.bget(a, sa, i), N.bget(b, sb, i)
            return Num(tt(x.arith(), y.arith()), 'f' if 'f' in (x.kind, y.kind) else 'i', or_(x.nan, y.nan))
        r = N.new(shape, g, N.join([a.dtype, b.dtype]))
        return r.get() if r.ndim == 0 else r
    return f


FUNCS['np.maximum'] = _elext(tmax)
FUNCS['np.minimum'] = _elext(tmin)


@fn('np.clip')
def np_clip(N, I, a, lo, hi):
    if lo is not None:
        a = FUNCS['np.maximum'](N, I, a, lo)
    if hi is not None:
        a = FUNCS['np.minimum'](N, I, a, hi)
    return a


@fn('np.any')
def np_any(N, I, a, axis=None):
    if axis is not None:
        raise Unsupported('any with axis')
    return N.any_(a)


@fn('np.all')
def np_all(N, I, a, axis=None):
    if axis is not None:
        raise Unsupported('all with axis')
    return N.all_(a)


@fn('py.any')
def py_any(N, I, a):
    n, el = iter_view(I, a)
    if n.op == 'const':
        r = or_(*[I.bt(el(const(i))) for i in range(int(n.val))])
    else:
        v = fresh('q', 'I')
        r = exists(v, ZERO, n, I.bt(el(v)))
    return True if r is TRUE else False if r is FALSE else Num(r, 'b')


@fn('py.all')
def py_all(N, I, a):
    n, el = iter_view(I, a)
    if n.op == 'const':
        r = and_(*[I.bt(el(const(i))) for i in range(int(n.val))])
    else:
        v = fresh('q', 'I')
        r = forall(v, ZERO, n, I.bt(el(v)))
    return True if r is TRUE else False if r is FALSE else Num(r, 'b')


@fn('np.count_nonzero')
def np_cnz(N, I, a):
    return np_sum(N, I, N.astype(N.asarr(a), 'b'))


@fn('np.cumsum', 'np.add.accumulate')
def np_cumsum(N, I, a, axis=None, dtype=None):
    a = N.asarr(a)
    if a.ndim != 1:
        raise Unsupported('cumsum of %d axes' % a.ndim)

    def f(i):
        return _sumf()(lambda k: a.get(k), add(i, ONE), None)
    return N.new(a.shape, f, 'i' if a.dtype == 'b' else a.dtype)


@fn('np.cumprod', 'np.multiply.accumulate')
def np_cumprod(N, I, a):
    a = N.asarr(a)
    if a.ndim != 1 or a.dtype == 'c':
        raise Unsupported('cumprod')
    v = fresh('e', 'I')
    arr = ghost(I, a.shape[0], mk_afn([v], a.get(v).arith(), [a.shape[0]]))
    return N.new(a.shape, lambda i: Num(app('cumprod', arr, i), a.dtype), a.dtype)


def ghost(I, n, src):
    """the contract's own name for this series if they agree elementwise on the n positions (congruence of functions of a series)"""
    from .prove import Prover, Budget, Timeout
    for gn, gs in getattr(I, 'ghosts', ()):
        if gs is src:
            return src
    for gn, gs in getattr(I, 'ghosts', ()):
        w = fresh('w', 'I')
        try:
            if Prover(list(I.hyps), Budget(20)).prove(le(n, gn)) and \
                    Prover(list(I.hyps) + [le(ZERO, w), lt(w, n)], Budget(20)).prove_eq(sel(src, w), sel(gs, w)):
                return gs
        except Timeout:
            pass
    return src


TRUSTED['np.multiply.accumulate'] = 'running product'


@fn('np.prod')
def np_prod(N, I, a):
    n, el = iter_view(I, a)
    if n.op != 'const':
        raise Unsupported('symbolic product')
    r = Num(ONE, 'i')
    for i in range(int(n.val)):
        r = I.binop('Mult', r, el(const(i)))
    return r


@fn('np.diff')
def np_diff(N, I, a, n=None, axis=None):
    a = N.asarr(a)
    k = 1 if n is None else int(I.index_term(n).val)
    if a.ndim != 1:
        raise Unsupported('diff of %d axes' % a.ndim)
    for _ in range(k):
        m = sub(a.shape[0], ONE)
        if m.op == 'const':
            m = m if m.val >= 0 else ZERO
        else:
            m = nonneg_len(I, m)
        src = a
        a = N.new((m,), lambda i, src=src: I.scalar('Sub', src.get(add(i, ONE)), src.get(i))
                  if not isinstance(src.get(i), Cx) else I.scalar_c('Sub', src.get(add(i, ONE)), src.get(i)), a.dtype)
    return a


@fn('np.dot', 'np.inner', 'np.vdot', 'np.matmul')
def np_dot(N, I, a, b):
    if isinstance(a, Num) or isinstance(b, Num):
        return I.binop('Mult', a, b)
    a, b = N.asarr(a), N.asarr(b)
    if a.ndim == 1 and b.ndim == 1:
        if a.shape[0] is not b.shape[0] and not I.decide(eq(a.shape[0], b.shape[0])):
            raise PyExc('ValueError', 'shapes not aligned')
        return _sumf()(lambda k: I.scalar('Mult', a.get(k), b.get(k)), a.shape[0], None)
    if a.ndim == 2 and b.ndim == 1:
        if not I.decide(eq(a.shape[1], b.shape[0])):
            raise PyExc('ValueError', 'shapes not aligned')
        return N.new((a.shape[0],), lambda i: _sumf()(lambda k: I.scalar('Mult', a.get(i, k), b.get(k)), b.shape[0], None), N.join([a.dtype, b.dtype]))
    raise Unsupported('matrix product')


@fn('np.convolve')
def np_convolve(N, I, a, b, mode='full'):
    a, b = N.asarr(a), N.asarr(b)
    na, nb = a.shape[0], b.shape[0]
    if mode == 'valid':
        if not I.decide(ge(na, nb)):
            a, b, na, nb = b, a, nb, na
        n = add(sub(na, nb), ONE)
        v = lambda i: _sumf()(lambda k: I.scalar('Mult', b.get(k), a.get(sub(add(i, sub(nb, ONE)), k))), nb, None)
        return N.new((n,), v, N.join([a.dtype, b.dtype]))
    raise Unsupported('convolve mode %s' % mode)


# ---------------------------------------------------------------- rearrangement
def _concat(N, I, arrs):
    arrs = [N.asarr(a) for a in arrs]
    if not arrs:
        raise PyExc('ValueError', 'need at least one array')
    nd = arrs[0].ndim
    if any(a.ndim != nd for a in arrs) or nd == 0:
        raise PyExc('ValueError', 'dimensions must match')
    offs = [ZERO]
    for a in arrs:
        offs.append(add(offs[-1], a.shape[0]))
    rest = arrs[0].shape[1:]
    for a in arrs[1:]:
        for x, y in zip(a.shape[1:], rest):
            if x is not y and not I.decide(eq(x, y)):
                raise PyExc('ValueError', 'dimensions must match')

    def f(i, *r):
        v = arrs[-1].get(sub(i, offs[-2]), *r)
        if i.op != 'const' and len(arrs) > 1 and I.ent(ge(i, offs[-2])):
            return v
        for k in range(len(arrs) - 2, -1, -1):
            c = lt(i, offs[k + 1])
            if c is FALSE:
                continue
            v = I.merge_values(c, arrs[k].get(sub(i, offs[k]), *r), v) if c is not TRUE else arrs[k].get(sub(i, offs[k]), *r)
        return v
    # an empty part contributes nothing
    live = [a for a in arrs if a.shape[0] is not ZERO]
    if len(live) == 1:
        return N.copy(live[0], N.join([a.dtype for a in arrs]))
    return N.new((offs[-1],) + tuple(rest), f, N.join([a.dtype for a in arrs]))


@fn('np.concatenate', 'np.hstack')
def np_concatenate(N, I, arrs, axis=None):
    items = I.concrete_items(arrs)
    if axis is not None and I.index_term(axis) is not ZERO:
        raise Unsupported('concatenate axis')
    items = [N.asarr(a) for a in items]
    return _concat(N, I, items)


@fn('np.append')
def np_append(N, I, a, v, axis=None):
    a, v = N.asarr(a), N.asarr(v)
    if axis is not None or a.ndim != 1:
        raise Unsupported('append axis')
    if v.ndim == 0:
        w = v.get()
        v = N.new((ONE,), lambda i: w, v.dtype)
    return _concat(N, I, [a, v])


@fn('np.insert')
def np_insert(N, I, a, pos, v, axis=None):
    a = N.asarr(a)
    p = I.index_term(pos, 'list')
    if a.ndim == 1:
        p = I.norm_index(p, add(a.shape[0], ONE))
        v = N.asarr(v)
        dt = a.dtype
        if v.ndim == 0:
            w = v.get()
            if dt == 'i' and w.kind == 'f':
                w = Num(N.trunc(w.term), 'i')
            v = N.new((ONE,), lambda i: w, dt)
        left = N.view(a, [slice(None, Num(p))])
        right = N.view(a, [slice(Num(p), None)])
        if left.shape[0] is ZERO:
            return _concat(N, I, [v, right])
        return _concat(N, I, [left, v, right])
    if a.ndim == 2 and axis is not None and p is ZERO:
        ax = int(I.index_term(axis).val) % 2
        w = I.num(v)
        shape = list(a.shape)
        shape[ax] = add(shape[ax], ONE)

        def f(*i):
            i2 = list(i)
            i2[ax] = sub(i[ax], ONE)
            return I.value_ite(eq(i[ax], ZERO), w, lambda: a.get(*i2))
        return N.new(shape, f, a.dtype)
    raise Unsupported('insert')


@fn('np.delete')
def np_delete(N, I, a, pos, axis=None):
    a = N.asarr(a)
    if a.ndim != 1 or isinstance(pos, (NDArray, PyList)):
        raise Unsupported('delete')
    p = I.norm_index(I.index_term(pos, 'list'), a.shape[0])
    return _concat(N, I, [N.view(a, [slice(None, Num(p))]), N.view(a, [slice(Num(add(p, ONE)), None)])])


def _stack_cols(N, I, items):
    items = [N.asarr(a) for a in items]
    n = items[0].shape[0]
    for a in items:
        if a.ndim != 1:
            raise Unsupported('column_stack')
        if a.shape[0] is not n and not I.decide(eq(a.shape[0], n)):
            raise PyExc('ValueError', 'dimensions must match')
    return items, n


@fn('np.column_stack')
def np_colstack(N, I, arrs):
    items, n = _stack_cols(N, I, I.concrete_items(arrs))
    return N.new((n, const(len(items))), lambda i, k: N._tsel(tuple(a.get(i) for a in items), k) if k.op != 'const' else items[int(k.val)].get(i),
                 N.join([a.dtype for a in items]))


@fn('np.vstack', 'np.stack')
def np_vstack(N, I, arrs, axis=None):
    if axis is not None:
        t = I.index_term(axis)
        if t is ONE or t is const(-1):
            return np_colstack(N, I, arrs)
    items, n = _stack_cols(N, I, I.concrete_items(arrs))
    return N.new((const(len(items)), n), lambda k, i: N._tsel(tuple(a.get(i) for a in items), k) if k.op != 'const' else items[int(k.val)].get(i),
                 N.join([a.dtype for a in items]))


@fn('np.flip', 'np.flipud')
def np_flip(N, I, a, axis=None):
    a = N.asarr(a)
    return N.view(a, [slice(None, None, Num(const(-1)))])


@fn('np.reshape')
def np_reshape(N, I, a, shape):
    a = N.asarr(a)
    if isinstance(shape, Num):
        shape = (shape,)
    sh = [I.index_term(s, 'list') for s in I.concrete_items(shape)]
    if a.ndim == 1 and len(sh) == 1:
        if sh[0].op == 'const' and sh[0].val == -1:
            return a
        if not I.decide(eq(sh[0], a.shape[0])):
            raise PyExc('ValueError', 'cannot reshape')
        return a
    if a.ndim == 1 and len(sh) == 2:
        n = a.shape[0]
        r, c = sh
        if r.op == 'const' and r.val == -1:
            r = idiv(n, c)
            if not I.decide(eq(mul(r, c), n)):
                raise PyExc('ValueError', 'cannot reshape')
        elif c.op == 'const' and c.val == -1:
            c = idiv(n, r)
            if not I.decide(eq(mul(r, c), n)):
                raise PyExc('ValueError', 'cannot reshape')
        elif not I.decide(eq(mul(r, c), n)):
            raise PyExc('ValueError', 'cannot reshape')
        (off, st), = a.maps if len(a.maps) == 1 else (None,)
        s = st[0]
        return NDArray(a.buf, (r, c), [(off, {0: mul(s, c), 1: s})])
    if a.ndim == 2 and len(sh) == 1:
        return np_ravel(N, I, a)
    raise Unsupported('reshape')


@fn('np.ravel')
def np_ravel(N, I, a):
    a = N.asarr(a)
    if a.ndim == 1:
        return N.copy(a)
    if a.ndim == 2:
        c = a.shape[1]
        return N.new((mul(a.shape[0], c),), lambda i: a.get(idiv(i, c), sub(i, mul(c, idiv(i, c)))), a.dtype)
    raise Unsupported('ravel')


@fn('np.transpose')
def np_transpose(N, I, a):
    return N.transpose(N.asarr(a))


@fn('np.repeat')
def np_repeat(N, I, a, k):
    raise Unsupported('repeat')


@fn('np.tile')
def np_tile(N, I, a, reps):
    a = N.asarr(a)
    k = I.index_term(reps)
    if k.op != 'const' or a.ndim != 1:
        raise Unsupported('tile')
    return _concat(N, I, [a] * int(k.val))


@fn('np.take')
def np_take(N, I, a, ix):
    return N.getitem(N.asarr(a), N.asarr(ix) if isinstance(ix, (PyList, tuple)) else ix)


@fn('np.nonzero', 'np.flatnonzero')
def np_nonzero(N, I, a):
    m = N.astype(N.asarr(a), 'b')
    n = m.shape[0]
    idx = N.new((n,), lambda i: Num(i, 'i'), 'i')
    return (N.compress(idx, m),)


FUNCS['np.flatnonzero'] = lambda N, I, a: np_nonzero(N, I, a)[0]
FUNCS['np.argwhere'] = lambda N, I, a: np_reshape(N, I, np_nonzero(N, I, a)[0], (Num(const(-1)), Num(ONE)))


@fn('np.compress')
def np_compress(N, I, m, a):
    return N.compress(N.asarr(a), N.astype(N.asarr(m), 'b'))


@fn('np.where')
def np_where(N, I, c, a=None, b=None):
    if a is None:
        return np_nonzero(N, I, c)
    c, a, b = N.asarr(c), N.asarr(a), N.asarr(b)
    shape, (sc, sa, sb) = N.bshape([c.shape, a.shape, b.shape])
    r = N.new(shape, lambda *i: I.merge_values(I.bt(N.bget(c, sc, i)), N.bget(a, sa, i), N.bget(b, sb, i)), N.join([a.dtype, b.dtype]))
    return r.get() if r.ndim == 0 else r


def beta(t, depth=6):
    """elements of comprehension arrays outside binders, written out"""
    if depth == 0 or t.op in tm.BINDERS or not t.args:
        return t
    if t.op == 'sel' and t.args[0].op == 'afn':
        return beta(sel(*t.args, force=True), depth - 1)
    return tm.rebuild(t, [beta(a, depth - 1) for a in t.args])


def uniq_facts(x):
    a, n, i = x.args
    nu = appI('nuniq', a, n)
    w = appI('uniqpos', a, n, i)
    nxt = tm._mk('app', (a, n, add(i, ONE)), 'uniq', x.sort)
    y = sel(a, w, force=True)
    z = beta(y) if a.op != 'afn' or len(tm.pp(y)) < 400 else y
    return [implies(and_(le(ZERO, i), lt(i, nu)), and_(le(ZERO, w), lt(w, n), eq(z, x))),
            implies(and_(le(ZERO, i), lt(add(i, ONE), nu)), lt(x, nxt))]


@fn('np.unique')
def np_unique(N, I, a):
    """sorted distinct values"""
    a = N.asarr(a)
    if a.ndim != 1:
        raise Unsupported('unique of %d axes' % a.ndim)
    n = a.shape[0]
    v = fresh('e', 'I')
    t = a.get(v).arith()
    arr = mk_afn([v], t, [n])
    smt.APP_FACTS.setdefault('uniq', uniq_facts)
    nu = appI('nuniq', arr, n)
    I.assume(ge(nu, ZERO), le(nu, n), iff(gt(n, ZERO), gt(nu, ZERO)))
    so = 'I' if t.sort == 'I' else 'R'
    r = N.new((nu,), lambda i: Num(tm._mk('app', (arr, n, i), 'uniq', so), a.dtype), a.dtype)
    r.buf.meta = ('unique', arr, n)
    return r


TRUSTED['np.unique'] = 'returns the sorted distinct values'


@fn('py.sorted', 'np.sort')
def py_sorted(N, I, a, reverse=None):
    items = I.concrete_items(a)
    if all(isinstance(x, Num) and x.term.op == 'const' for x in items):
        return PyList(I.heap, sorted(items, key=lambda x: x.term.val, reverse=bool(reverse)))
    if all(isinstance(x, str) for x in items):
        return PyList(I.heap, sorted(items, reverse=bool(reverse)))
    raise Unsupported('sort of symbolic values')


@fn('np.lib.stride_tricks.as_strided')
def as_strided(N, I, a, shape=None, strides=None):
    """memory view; every address must lie inside the source array"""
    a = N.asarr(a)
    if a.ndim != 1 or shape is None or strides is None:
        raise Unsupported('as_strided')
    sh = [I.index_term(s, 'list') for s in I.concrete_items(shape)]
    st = I.concrete_items(strides)
    ss = []
    for s in st:
        if isinstance(s, Num) and s.term.op == 'app' and s.term.val == 'stride':
            ss.append(ONE)
        elif isinstance(s, Num) and 'stride' in pp(s.term):
            q = div(s.term, STRIDE)
            ss.append(q)
        else:
            raise Unsupported('strides')
    last = ZERO
    for s, k in zip(sh, ss):
        if not I.decide(ge(s, ZERO)):
            raise PyExc('ValueError', 'negative dimensions')
        last = add(last, mul(sub(s, ONE), k))
    nonempty = and_(*[ge(s, ONE) for s in sh])
    if not I.quiet:
        I.oblige('as_strided at line %d stays inside the array' % I.line, implies(nonempty, lt(last, a.shape[0])), kind='memory')
    (off, m), = a.maps
    base = m[0]
    return NDArray(a.buf, sh, [(off, {k: mul(base, q) for k, q in enumerate(ss)})])


STRIDE = appI('stride')


@fn('np.lib.stride_tricks.sliding_window_view')
def sliding(N, I, a, window, axis=None):
    a = N.asarr(a)
    w = I.index_term(window[0] if isinstance(window, tuple) else window, 'list')
    n = sub(a.shape[0], sub(w, ONE))
    if not I.decide(ge(n, ONE)):
        raise PyExc('ValueError', 'window shape')
    (off, m), = a.maps
    return NDArray(a.buf, [n, w], [(off, {0: m[0], 1: m[0]})])


# ---------------------------------------------------------------- python builtins
@fn('py.len')
def py_len(N, I, x):
    if isinstance(x, NDArray):
        if x.ndim == 0:
            raise PyExc('TypeError', 'len() of unsized object')
        return Num(x.shape[0], 'i')
    if isinstance(x, PyList):
        return Num(x.len(), 'i')
    if isinstance(x, (tuple, str)):
        return Num(const(len(x)), 'i')
    if isinstance(x, PyDict):
        return Num(const(len(x.d)), 'i')
    if isinstance(x, (Range, IterView)):
        return Num(iter_view(I, x)[0], 'i')
    if isinstance(x, Opaque) or isinstance(x, Str):
        raise Unsupported('len of %r' % x)
    raise PyExc('TypeError', 'object has no len()')


@fn('np.size')
def np_size(N, I, x):
    return N.array_attr(N.asarr(x), 'size')


@fn('np.shape')
def np_shape(N, I, x):
    return N.array_attr(N.asarr(x), 'shape')


@fn('np.ndim')
def np_ndim(N, I, x):
    return N.array_attr(N.asarr(x), 'ndim')


@fn('py.range')
def py_range(N, I, *a):
    t = [I.index_term(x, 'list') for x in a]
    if len(t) == 1:
        return Range(ZERO, t[0], ONE)
    if len(t) == 2:
        return Range(t[0], t[1], ONE)
    return Range(t[0], t[1], t[2])


@fn('py.enumerate')
def py_enumerate(N, I, x, start=None):
    n, el = iter_view(I, x)
    s = ZERO if start is None else I.index_term(start)
    return IterView(n, lambda i: (Num(add(i, s), 'i'), el(i)))


@fn('py.zip')
def py_zip(N, I, *xs):
    vs = [iter_view(I, x) for x in xs]
    n = vs[0][0]
    for m, _ in vs[1:]:
        if m is not n:
            if I.decide(le(m, n)):
                n = m
    els = [e for _, e in vs]
    return IterView(n, lambda i: tuple(e(i) for e in els))


@fn('py.reversed')
def py_reversed(N, I, x):
    n, el = iter_view(I, x)
    return IterView(n, lambda i: el(sub(sub(n, ONE), i)))


@fn('py.map')
def py_map(N, I, f, *xs):
    n, el = py_zip(N, I, *xs).n, py_zip(N, I, *xs).elem
    return IterView(n, lambda i: I.call(f, list(el(i)), {}))


@fn('py.iter')
def py_iter(N, I, x):
    return x


@fn('py.print')
def py_print(N, I, *a, **k):
    return None


@fn('py.isinstance')
def py_isinstance(N, I, x, t):
    ts = t if isinstance(t, tuple) else (t,)
    out = False
    if isinstance(x, Opaque):
        raise Unsupported('isinstance of an opaque argument')
    for c in ts:
        if isinstance(c, Cls):
            if isinstance(x, PyObj):
                k = x.cls
                st = [k]
                while st:
                    q = st.pop()
                    if q is c:
                        out = True
                    st.extend(b for b in q.bases if isinstance(b, Cls))
        elif isinstance(c, TypeRef):
            n = c.name
            if isinstance(x, NDArray):
                out = out or n == 'ndarray'
            elif isinstance(x, PyList):
                out = out or n == 'list'
            elif isinstance(x, tuple):
                out = out or n == 'tuple'
            elif isinstance(x, (str, Str)):
                out = out or n == 'str'
            elif isinstance(x, bool):
                out = out or n in ('bool', 'int')
            elif isinstance(x, Num):
                out = out or (n == 'float' and x.kind == 'f') or (n == 'int' and x.kind == 'i') or (n == 'bool' and x.kind == 'b')
                if n in ('integer', 'floating', 'number', 'generic'):
                    raise Unsupported('numpy scalar type test')
            elif isinstance(x, PyDict):
                out = out or n == 'dict'
            elif x is None:
                pass
            elif isinstance(x, (Cx,)):
                out = out or n == 'complex'
        elif c is None:
            pass
        else:
            raise Unsupported('isinstance with %r' % (c,))
    return out


@fn('py.callable')
def py_callable(N, I, x):
    return isinstance(x, (Func, Method, Builtin, Cls, TypeRef))


@fn('py.getattr')
def py_getattr(N, I, o, name, *d):
    if not isinstance(name, str):
        raise Unsupported('getattr with a computed name')
    try:
        return I.getattr_(o, name)
    except PyExc as e:
        if e.name == 'AttributeError' and d:
            return d[0]
        raise


@fn('py.hasattr')
def py_hasattr(N, I, o, name):
    try:
        I.getattr_(o, name)
        return True
    except PyExc:
        return False


@fn('py.setattr')
def py_setattr(N, I, o, name, v):
    I.setattr_(o, name, v)


@fn('py.type')
def py_type(N, I, x):
    return N.construct(TypeRef('type'), [x], {})


@fn('py.repr')
def py_repr(N, I, x):
    return I.mkstr([I.fmt(x, 'r')])


@fn('py.open')
def py_open(N, I, name, mode='r', **kw):
    f = FileModel(I.heap, name, mode)
    N.files.append(f)
    return f


@fn('py.id')
def py_id(N, I, x):
    raise Unsupported('id')


@fn('np.isscalar')
def np_isscalar(N, I, x):
    return isinstance(x, (Num, str, bool, Cx))


@fn('np.iscomplexobj')
def np_iscx(N, I, x):
    return isinstance(x, Cx) or isinstance(x, NDArray) and x.dtype == 'c'


@fn('json.load')
def json_load(N, I, f):
    return PyDict(I.heap, {'version': 'VERSION'})


@fn('os.path.join')
def os_join(N, I, *a):
    return '/'.join(x if isinstance(x, str) else '?' for x in a)


@fn('os.path.dirname')
def os_dirname(N, I, a):
    return 'dir'


@fn('warnings.catch_warnings', 'warnings.simplefilter', 'warnings.filterwarnings', 'warnings.warn', 'np.seterr', 'np.errstate')
def warn_noop(N, I, *a, **k):
    return None


# ---------------------------------------------------------------- random draws, transforms, quadrature
def draw(N, I, shape):
    p = I.rng.pos
    n = ONE
    for s in shape:
        n = mul(n, s)
    I.rng.pos = add(p, n)
    S = I.rng.stream
    if not shape:
        return Num(sel(S, p), 'f')
    if len(shape) > 1:
        raise Unsupported('draws with several axes')
    return N.new(shape, lambda i: Num(sel(S, add(p, i)), 'f'), 'f')


@fn('np.random.randn')
def np_randn(N, I, *n):
    return draw(N, I, _shape(N, I, tuple(n)) if n else [])


@fn('np.random.standard_normal')
def np_stdn(N, I, size=None):
    return draw(N, I, [] if size is None else _shape(N, I, size))


@fn('np.random.normal')
def np_normal(N, I, loc=None, scale=None, size=None):
    d = draw(N, I, [] if size is None else _shape(N, I, size))
    loc = Num(ZERO, 'f') if loc is None else loc
    if scale is not None:
        s = I.num(scale)
        if not smt.nonneg(s.arith()) and not I.decide(ge(s.arith(), ZERO)):
            raise PyExc('ValueError', 'scale < 0')
        d = I.binop('Mult', d, scale)
    return I.binop('Add', loc, d)


@fn('np.random.seed')
def np_seed(N, I, s=None):
    if s is None:
        raise Unsupported('seed()')
    I.rng.pos = ZERO
    I.rng.stream = appA('RNDseed', 'R', I.num(s).arith())


for _k in ('np.random.randn', 'np.random.normal', 'np.random.standard_normal'):
    TRUSTED[_k] = 'fresh independent standard normal draws'


def comp_arrays(N, I, x):
    x = N.asarr(x)
    if x.ndim != 1:
        raise Unsupported('transform of several axes')
    v = fresh('e', 'I')
    e = x.get(v)
    n = x.shape[0]
    if isinstance(e, Cx):
        return mk_afn([v], e.re, [n]), mk_afn([v], e.im, [n]), n
    return mk_afn([v], e.arith(), [n]), None, n


def _padded(N, I, x, n):
    if n is None:
        return x
    raise Unsupported('transform length')


@fn('np.fft.rfft')
def np_rfft(N, I, x, n=None):
    a, im, m = comp_arrays(N, I, x)
    if im is not None:
        raise PyExc('TypeError')
    if n is not None:
        n = I.index_term(n)
        if n is not m and not I.decide(eq(n, m)):
            if not I.decide(ge(n, m)):
                raise Unsupported('truncating transform')
            v = fresh('e', 'I')
            a = mk_afn([v], ite(lt(v, m), sel(a, v, force=True), ZERO), [n])
            m = n
    return N.new((add(idiv(m, const(2)), ONE),), lambda k: Cx(app('rfft_re', a, m, k), app('rfft_im', a, m, k)), 'c')


def _convolution(N, I, re, im, m, L):
    """convolution theorem: the inverse transform of a product of two transforms of real series of length L"""
    k = fresh('k', 'I')
    r, i = sel(re, k, force=True), sel(im, k, force=True)
    fs = {}
    for x in subterms(r):
        if x.op == 'app' and x.val in ('rfft_re', 'rfft_im') and x.args[2] is k:
            fs.setdefault(x.args[:2], 1)
    fs = list(fs)
    if len(fs) == 1:
        fs = fs * 2
    if len(fs) != 2:
        return None
    (a, n1), (b, n2) = fs
    for n in (n1, n2):
        if n is not L and not I.ent(eq(n, L)):
            return None
    R = lambda s_, n: app('rfft_re', s_, n, k)
    M = lambda s_, n: app('rfft_im', s_, n, k)
    if r is not sub(mul(R(a, n1), R(b, n2)), mul(M(a, n1), M(b, n2))):
        return None
    if i is not add(mul(R(a, n1), M(b, n2)), mul(M(a, n1), R(b, n2))):
        return None
    I.trusted.add('convolution theorem of the discrete Fourier transform')

    def f(t):
        v = fresh('j', 'I')
        q = sub(t, v)
        return Num(mk_sum(v, ZERO, L, mul(sel(a, v), ite(ge(q, ZERO), sel(b, q), sel(b, add(q, L))))), 'f')
    return N.new((L,), f, 'f')


@fn('np.fft.irfft')
def np_irfft(N, I, x, n=None):
    a, im, m = comp_arrays(N, I, x)
    if im is None:
        im = mk_afn([fresh('e', 'I')], ZERO, [m])
    L = mulc(2, sub(m, ONE)) if n is None else I.index_term(n)
    c = _convolution(N, I, a, im, m, L)
    if c is not None:
        return c
    return N.new((L,), lambda k: Num(app('irfft', a, im, m, L, k), 'f'), 'f')


@fn('np.fft.ifft')
def np_ifft(N, I, x):
    a, im, m = comp_arrays(N, I, x)
    if im is None:
        im = mk_afn([fresh('e', 'I')], ZERO, [m])
    a, im = ghost(I, m, a), ghost(I, m, im)
    return N.new((m,), lambda k: Cx(app('ifft_re', a, im, m, k), app('ifft_im', a, im, m, k)), 'c')


@fn('np.fft.fft')
def np_fft(N, I, x):
    a, im, m = comp_arrays(N, I, x)
    if im is None:
        im = mk_afn([fresh('e', 'I')], ZERO, [m])
    return N.new((m,), lambda k: Cx(app('fft_re', a, im, m, k), app('fft_im', a, im, m, k)), 'c')


for _k in ('rfft', 'irfft', 'ifft', 'fft'):
    TRUSTED['np.fft.' + _k] = 'discrete Fourier transform (uninterpreted)'

ZSYM = sym('$z', 'R')           # integration variable
ZPOS = sym('$z+', 'R')          # integration variable of an integral over positive numbers
smt.POSITIVE.add(ZPOS)


def integral(lo, hi, body, pos=True):
    """integral of body over (lo, hi) in terms of ZPOS / ZSYM; pos: lo <= hi and the integrand is not negative"""
    return app('quadgt' if pos == 'strict' else 'quadpos' if pos else 'quad', body, lo, hi)


def almost_nonzero(t):
    """t vanishes at isolated points of the integration variable only"""
    k, d = fac_parts(t)
    return k != 0 and all(x is ZPOS or x.op == 'app' and (x.val == 'pow' and x.args[0] is ZPOS or x.val in ('sin', 'cos') and x.args[0] is ZPOS) for x in d)


def ordered(I, lo, hi):
    """lo <= hi; infinity is larger than every number"""
    from .prove import Prover, Budget, _replace
    if I.ent(le(lo, hi)):
        return True
    (ka, fa), (kb, fb) = fac_parts(lo), fac_parts(hi)
    com = {x: e for x, e in fa.items() if fb.get(x) == e}
    P = Prover(list(I.hyps), Budget(20))
    if ka > 0 and kb > 0 and all(smt.nonneg(x) or P.prove(ge(x, ZERO)) for x in com):
        lo, hi = [mk_mul(k, {x: e for x, e in f.items() if x not in com}) for k, f in ((ka, fa), (kb, fb))]
    lo, hi = P.simp(lo, True), P.simp(hi, True)
    big = sym('$big', 'R')
    H = [gt(big, x) for x in subterms(lo) if x.op in ('sel', 'sym') and x.sort == 'R' and x is not INF]
    P = Prover(list(I.hyps) + H + [gt(big, ZERO)], Budget(20))
    return P.prove(ge(P.simp(sub(_replace(hi, INF, big), lo), True), ZERO)) or P._instantiate(ge(sub(_replace(hi, INF, big), lo), ZERO))


@fn('scipy.integrate.quad')
def sp_quad(N, I, f, a, b, args=(), **kw):
    """(integral, error estimate) of f over (a, b)"""
    lo, hi = I.num(a).arith(), I.num(b).arith()
    h0 = len(I.hyps)
    z = ZSYM
    if I.ent(ge(lo, ZERO)) or smt.nonneg(lo):
        z = ZPOS
        I.hyps.append(gt(z, ZERO))
    try:
        if isinstance(args, PyList):
            args = tuple(args.items)
        if not isinstance(args, tuple):
            args = (args,)
        v = I.call(f, [Num(z, 'f')] + list(args), {})
    finally:
        if len(I.hyps) > h0 and z is ZPOS and I.hyps[h0] is gt(z, ZERO):
            del I.hyps[h0]
    body = I.num(v).arith()
    pos = smt.nonneg(body) and (hi is INF or ordered(I, lo, hi))
    if pos and hi is INF and lo is not INF and almost_nonzero(body):
        pos = 'strict'
    return (Num(integral(lo, hi, body, pos), 'f'), Num(app('quaderr', body, lo, hi), 'f'))


TRUSTED['scipy.integrate.quad'] = 'the definite integral of its integrand (uninterpreted)'


def affine_seq(I, a):
    """(first, step) of a one-dimensional array whose element k is first + k*step, None when that is not provable"""
    v, n = fresh('e', 'I'), a.shape[0]
    x0, x1 = a.get(ZERO).arith(), a.get(ONE).arith()
    d = sub(x1, x0)
    e = sub(a.get(v).arith(), add(x0, mul(v, d)))
    if _is_zero(I, e) or smt.entails(I.hyps + [le(ZERO, v), lt(v, n)], eq(e, ZERO)):
        return x0, d
    return None


@fn('scipy.integrate.simpson')
def sp_simpson(N, I, y, x=None, dx=None, axis=None):
    """composite Simpson rule: for an odd number of equally spaced points the textbook sum, otherwise uninterpreted"""
    y = N.asarr(y)
    xs = None
    if x is not None:
        x = N.asarr(x)
        h = affine_seq(I, x) if x.ndim == 1 else None
        h = h and h[1]
        xs = comp_arrays(N, I, x)[0]
    else:
        h = I.num(dx).arith() if dx is not None else ONE
        xs = h

    def f(get, m, dt):
        if x is not None and m is not x.shape[0] and not I.decide(eq(m, x.shape[0])):
            raise PyExc('ValueError', 'x and y must have the same length')
        half = idiv(sub(m, ONE), const(2))
        if h is not None and (eq(sub(m, ONE), mulc(2, half)) is TRUE or smt.entails(I.hyps, eq(sub(m, ONE), mulc(2, half)))):
            p = fresh('e', 'I')
            at = lambda k: get(add(mulc(2, p), k)).arith()
            nan = [get(add(mulc(2, p), k)).nan for k in (ZERO, ONE, const(2))]
            body = mul(mulc(F(1, 3), h), add(at(ZERO), add(mulc(4, at(ONE)), at(const(2)))))
            if any(q is not FALSE for q in nan) and not I.quiet:
                I.oblige('simpson at line %d gets no NaN' % I.line, forall(p, ZERO, half, not_(or_(*nan))), kind='memory')
            return Num(mk_sum(p, ZERO, half, body), 'f')
        v = fresh('e', 'I')
        return Num(app('simpson', mk_afn([v], get(v).arith(), [m]), xs, m), 'f')
    return N.reduce(y, axis if axis is not None else Num(const(y.ndim - 1)), f)


TRUSTED['scipy.integrate.simpson'] = "composite Simpson rule: sum of h/3 (g(2p) + 4 g(2p+1) + g(2p+2)) for an odd number of equally spaced points; otherwise uninterpreted"


class Interp1d(object):
    def __init__(self, x, y, n, kind, grid):
        self.x, self.y, self.n, self.kind, self.grid = x, y, n, kind, grid

    def model_call(self, I, args, kw):
        N = I.np
        if self.grid is None:
            return unary(N, I, args[0], lambda v: Num(app('interp1d_' + str(self.kind), self.x, self.y, self.n, v.arith()), 'f'))
        x0, d = self.grid
        at = lambda t: div(sub(t, x0), d)
        if not I.quiet:
            q = N.asarr(args[0]) if not isinstance(args[0], Num) else None
            v = fresh('e', 'I')
            u = at(q.get(v).arith()) if q is not None and q.ndim == 1 else at(I.num(args[0]).arith()) if q is None else None
            if u is not None:
                I.oblige('the point given to interp1d at line %d lies inside the range of x' % I.line,
                         forall(v, ZERO, q.shape[0] if q is not None else ONE, and_(le(ZERO, u), le(u, sub(self.n, ONE)))), kind='memory')
        return unary(N, I, args[0], lambda v: Num(app('spline_' + str(self.kind), self.y, self.n, at(v.arith())), 'f'))


@fn('scipy.interpolate.interp1d')
def sp_interp1d(N, I, x, y, kind='linear', **kw):
    a, _, n = comp_arrays(N, I, x)
    b, _, m = comp_arrays(N, I, y)
    if n is not m and not I.decide(eq(n, m)):
        raise PyExc('ValueError', 'x and y must have the same length')
    if kw:
        raise Unsupported('interp1d options')
    if kind == 'cubic' and not I.decide(ge(n, const(4))):
        raise PyExc('ValueError', 'the number of derivatives at boundaries does not match')
    g = affine_seq(I, N.asarr(x))
    if g is not None and not smt.entails(I.hyps, gt(g[1], ZERO)):
        g = None
    return Interp1d(a, b, n, kind, g)


TRUSTED['scipy.interpolate.interp1d'] = ('interpolant, uninterpreted; on equally spaced x it is the interpolant over the integers 0..n-1 at '
                                         '(t - x0)/dx, defined for 0 <= (t - x0)/dx <= n - 1 only')


def chi2_facts(x):
    p, k = x.args
    return [implies(and_(gt(p, ZERO), gt(k, ZERO)), gt(x, ZERO))]


@fn('scipy.stats.chi2.ppf')
def sp_chi2ppf(N, I, q, df):
    smt.APP_FACTS['chi2ppf'] = chi2_facts
    q, df = I.num(q), I.num(df)
    if not I.decide(and_(gt(q.arith(), ZERO), lt(q.arith(), ONE))):
        raise PyExc('NonFinite', 'chi2.ppf outside (0, 1)')
    if not I.decide(gt(df.arith(), ZERO)):
        raise PyExc('NonFinite', 'chi2.ppf with nonpositive degrees of freedom')
    return Num(app('chi2ppf', q.arith(), df.arith()), 'f')


TRUSTED['scipy.stats.chi2.ppf'] = 'chi-squared quantile function, positive on (0,1)'


@fn('scipy.stats.chi2.isf')
def sp_chi2isf(N, I, q, df):
    return sp_chi2ppf(N, I, Num(sub(ONE, I.num(q).arith()), 'f'), df)


@fn('scipy.special.binom', 'scipy.special.comb', 'math.comb')
def sp_binom(N, I, n, k):
    a, b = I.num(n).term, I.num(k).term
    if a.op == 'const' and b.op == 'const' and a.val.denominator == 1 and b.val.denominator == 1 and a.val >= 0 and b.val >= 0:
        return Num(const(comb(int(a.val), int(b.val))), 'f')
    return Num(app('binom', a, b), 'f')


@fn('math.factorial', 'scipy.special.factorial')
def m_fact(N, I, n):
    t = I.num(n).term
    if t.op == 'const':
        r = 1
        for i in range(2, int(t.val) + 1):
            r *= i
        return Num(const(r), 'i')
    raise Unsupported('symbolic factorial')


@fn('scipy.signal.welch')
def sp_welch(N, I, x, fs=None, nperseg=None, **kw):
    a, _, n = comp_arrays(N, I, x)
    f = I.num(fs).arith()
    s = I.num(nperseg).arith()
    L = appI('welch_len', n, s)
    I.assume(ge(L, ONE))
    return (N.new((L,), lambda k: Num(app('welch_f', n, f, s, k), 'f'), 'f'),
            N.new((L,), lambda k: Num(app('welch_p', a, n, f, s, k), 'f'), 'f'))


TRUSTED['scipy.signal.welch'] = 'Welch periodogram (uninterpreted)'


@fn('np.polyfit')
def np_polyfit(N, I, x, y, deg):
    a, _, n = comp_arrays(N, I, x)
    b, _, m = comp_arrays(N, I, y)
    d = I.index_term(deg, 'list')
    if d.op != 'const':
        raise Unsupported('polyfit degree')
    if n is not m and not I.decide(eq(n, m)):
        raise PyExc('TypeError', 'expected x and y to have same length')
    if not I.decide(gt(n, ZERO)):
        raise PyExc('TypeError', 'expected non-empty vector for x')
    return N.new((add(d, ONE),), lambda k: Num(app('polyfit', a, b, n, d, k), 'f'), 'f')


TRUSTED['np.polyfit'] = 'least-squares polynomial coefficients (uninterpreted)'


@fn('np.polyval')
def np_polyval(N, I, p, x):
    p = N.asarr(p)
    k = p.shape[0]
    if k.op != 'const':
        raise Unsupported('polyval degree')
    k = int(k.val)
    r = p.get(ZERO)
    xs = N.asarr(x)
    co = [p.get(const(i)).arith() for i in range(k)]

    def f(*i):
        t = xs.get(*i).arith()
        r = co[0]
        for c in co[1:]:
            r = add(mul(r, t), c)
        return Num(r, 'f')
    r = N.new(xs.shape, f, 'f')
    return r.get() if r.ndim == 0 else r
