"""Callee contracts and the common shape of the public-function obligations."""
from .terms import *
from . import terms as tm
from . import smt
from .values import *
from .interp import Interp
from .prove import Prover, Budget, Timeout

A = 'allantools.allantools'


def reachable(v, seen=None):
    """mutable objects (buffers, lists, dictionaries, objects) reachable from a value"""
    seen = {} if seen is None else seen
    if isinstance(v, (list, tuple)):
        for x in v:
            reachable(x, seen)
    elif isinstance(v, dict):
        for x in v.values():
            reachable(x, seen)
    elif isinstance(v, NDArray):
        seen.setdefault(id(v.buf), v.buf)
    elif isinstance(v, (PyList, PyDict)):
        if id(v) not in seen:
            seen[id(v)] = v
            reachable(v.items if isinstance(v, PyList) else v.d, seen)
    elif isinstance(v, PyObj) and id(v) not in seen:
        seen[id(v)] = v
        reachable(v.attrs, seen)
    return list(seen.values())


class Ctx(object):
    """one symbolic execution unit"""

    def __init__(self, repo, budget=400):
        self.I = Interp(repo, budget)
        self.I.contracts = {}
        self.notes = []
        self.covers = 0          # reachable return paths (vacuity guard)
        self.paths = 0
        self.frames_only = False
        self.alias = True

    def only_frames(self):
        """state the frame conditions instead of the functional ones"""
        self.frames_only = True
        self.I.force_only = lambda n: '.frame.' in n

    # ---------------------------------------------------------------- inputs
    def series(self, name, n, kind='array', dtype='f', nan=None, base=None):
        """a caller-owned sequence of n numbers; base: use these contents"""
        X = base if base is not None else arrsym(name, 'I' if dtype == 'i' else 'R')
        I = self.I
        if kind == 'array':
            a = arr_from_data(I.heap, X, [n], dtype, nan=nan, name=name, origin=name)
            return a, X
        l = PyList(I.heap, None, n, lambda i: Num(sel(X, i), dtype))
        l.origin = name
        return l, X

    def run(self, mod, qual, args, kw, pre, capture, setup=None):
        I = self.I
        f = I.get_func(mod, qual)

        def go():
            I.assume(*pre)
            a, k = args, kw
            if callable(args):
                a = args()
            if callable(kw):
                k = kw()
            if setup:
                setup()
            own[:] = [(o, o.get_state()) for o in reachable((list(a), dict(k)))]
            return I.call_func(f, list(a), dict(k), root=True)

        def done(o, d, s):
            c0 = self.covers
            r = capture(o, d)
            if self.frames_only:
                self.frame(qual, own, o)
                if o[0] == 'return':
                    self.covers = c0 + 1
            return r
        own = []
        return I.explore(go, done)

    def frame(self, qual, own, o):
        """caller-owned memory is unchanged and no result shares it"""
        I = self.I
        how = 'return' if o[0] == 'return' else 'raise'
        for k, (b, st) in enumerate(own):
            now = b.get_state()
            same = (now[:3] == st[:3] and now[3] == st[3]) if isinstance(b, Buf) else now == st
            I.oblige('%s.frame.unmodified[%s,%s]' % (qual, getattr(b, 'name', None) or getattr(b, 'origin', None) or k, how), TRUE if same else FALSE)
        if how == 'return' and self.alias:
            ids = set(id(b) for b, _ in own)
            got = [b for b in reachable(o[1]) if id(b) in ids]
            I.oblige('%s.frame.result-shares-no-memory' % qual, FALSE if got else TRUE)

    def call(self, f, *a, **k):
        return self.I.call(f, list(a), k)


# -------------------------------------------------------------------- tau_generator
def tau_terms(n, rate, tag, even, mx):
    """the abstract selection: (count, array of averaging factors)"""
    a = (n, rate, sym('taus:' + tag, 'I'), const(1 if even else 0), mx)
    return appI('TGn', *a), appA('TG', 'I', *a)


def _tgn_facts(t):
    return [ge(t, ZERO)]


def _tg_elem_facts(arr, i):
    n, rate, tag, even, mx = arr.args
    K = appI('TGn', *arr.args)
    e = sel(arr, i)
    fs = [ge(e, ONE), le(e, sub(n, ONE)), le(e, mx)]
    if even is ONE:
        fs.append(eq(e, mulc(2, idiv(e, const(2)))))
    return [implies(and_(le(ZERO, i), lt(i, K)), and_(*fs))]


smt.APP_FACTS['TGn'] = _tgn_facts
smt.APPA_FACTS['TG'] = _tg_elem_facts


def length(I, data):
    if isinstance(data, NDArray):
        if data.ndim != 1:
            raise Unsupported('tau_generator on %d-d data' % data.ndim)
        return data.shape[0]
    if isinstance(data, PyList):
        return data.len()
    raise Unsupported('tau_generator on %r' % (data,))


def tau_generator_contract(I, v):
    data, rate, taus = v['data'], v['rate'], v['taus']
    rate = I.num(rate)
    if I.decide(eq(rate.arith(), ZERO)):
        raise PyExc('RuntimeError', 'rate==0')
    n = length(I, data)
    even = v['even']
    if not isinstance(even, bool):
        raise Unsupported('symbolic even flag')
    mx = I.num(v['maximum_m']).arith()
    if mx is const(-1):
        mx = n
    tag = taus.tag if isinstance(taus, Opaque) else repr(taus)
    K, TG = tau_terms(n, rate.arith(), tag, even, mx)
    I.assume(ge(K, ZERO))
    cp = I.np.asarr(data) if isinstance(data, PyList) else I.np.copy(data)
    ms = arr_from_data(I.heap, TG, [K], 'f')
    taus2 = I.np.new((K,), lambda i: Num(div(sel(TG, i), rate.arith()), 'f'), 'f')
    return (cp, ms, taus2)


# -------------------------------------------------------------------- frequency2phase
def frequency2phase_contract(I, v):
    """length and contents as functions of the argument; specified in C14"""
    d, rate = v['freqdata'], I.num(v['rate']).arith()
    n = length(I, d)
    if isinstance(d, NDArray):
        if d.buf.nan is not None or not d.whole():
            raise Unsupported('frequency2phase contract: general array')
        src = d.buf.data
    else:
        w = fresh('w', 'I')
        src = mk_afn([w], I.num(I.list_getter(d)(w)).arith(), [n])
    L, P = f2p_terms(n, src, rate)
    return arr_from_data(I.heap, P, [L], 'f')


def f2p_terms(n, src, rate):
    return add(n, ONE), appA('F2P', 'R', n, src, rate)


def remove_small_ns_contract(I, v):
    """exactly the rows with n > 1, in order, every column from the same row (specified in C13)"""
    taus, devs, errs, ns = v['taus'], v['devs'], v['deverrs'], v['ns']
    two = isinstance(errs, PyList) and errs.items is not None and len(errs.items) == 2
    cols = [taus, devs, ns] + (list(errs.items) if two else [errs])
    for c in cols:
        if not isinstance(c, NDArray) or c.ndim != 1:
            return NotImplemented
    for c in cols:
        if c.shape[0] is not ns.shape[0] and not I.decide(eq(c.shape[0], ns.shape[0])):
            return NotImplemented
    n = ns.shape[0]
    mask = I.np.new((n,), lambda k: Num(gt(ns.get(k).arith(), ONE), 'b'), 'b')
    out = [I.np.compress(c, mask) for c in cols]
    if I.decide(eq(out[2].shape[0], ZERO)):
        raise PyExc('UserWarning')
    e = PyList(I.heap, out[3:]) if two else out[3]
    return (out[0], out[1], e, out[2])


STD = {A + '.remove_small_ns': remove_small_ns_contract, A + '.tau_generator': tau_generator_contract, A + '.frequency2phase': frequency2phase_contract}


# -------------------------------------------------------------------- comparing results
def sym_sel(mask_fn, K, q):
    """position of the q-th row selected by mask_fn among K"""
    v = fresh('k', 'I')
    ma = mk_afn([v], mask_fn(v), [K])
    return appI('selidx', ma, K, q), ma


def count_of(mask_fn, K):
    v = fresh('k', 'I')
    return mk_sum(v, ZERO, K, ite(mask_fn(v), ONE, ZERO))


def unify_masks(I, t, ma, K, hyps):
    """replace selections through masks pointwise equal to the specified mask"""
    for x in list(subterms_bound(t)):
        if x.op == 'app' and x.val == 'selidx' and x.args[0] is not ma:
            if x.args[1] is not K:
                continue
            key = ('mask', x.args[0], ma, tuple(hyps))
            r = I.__dict__.setdefault('_maskeq', {}).get(key)
            if r is None:
                v = fresh('k', 'I')
                H = list(hyps) + [le(ZERO, v), lt(v, K)]
                try:
                    r = Prover(H, Budget(30)).prove(iff(sel(x.args[0], v, force=True), sel(ma, v, force=True)))
                except Timeout:
                    r = False
                import os
                if not r and os.environ.get('PYDED_DBG'):
                    print('MASK', pp(sel(x.args[0], v, force=True))); print('WANT', pp(sel(ma, v, force=True)))
                    print('\n'.join('   H ' + pp(h) for h in H))
                I._maskeq[key] = r
            if r:
                t = rename_arr(t, x.args[0], ma)
    return t


def subterms_bound(t):
    return subterms(t)


def rename_arr(t, old, new):
    from .prove import _replace
    # selidx(old, K, q) -> selidx(new, K, q) wherever it occurs
    return _replace(t, old, new)


def arr_elem(I, v, i):
    """element i of a result column (array or list)"""
    if isinstance(v, NDArray):
        return v.get(i)
    if isinstance(v, PyList):
        return I.num(I.list_getter(v)(i))
    raise Unsupported('result column %r' % (v,))


def col_len(I, v):
    if isinstance(v, NDArray):
        if v.ndim != 1:
            return None
        return v.shape[0]
    if isinstance(v, PyList):
        return v.len()
    return None
