"""Contracts of the public statistics: rows, counts, values, errors, frames."""
import time
from fractions import Fraction as F
from .terms import *
from . import smt
from .values import *
from .contract import *

PATH_BUDGET = 400


def S(lo, hi, f):
    v = fresh('i', 'I')
    return mk_sum(v, lift(lo), lift(hi), f(v))


def MAXF(lo, hi, f):
    v = fresh('i', 'I')
    return mk_max(v, lift(lo), lift(hi), f(v))


def MINF(lo, hi, f):
    v = fresh('i', 'I')
    return mk_min(v, lift(lo), lift(hi), f(v))


def sq(t):
    return mul(t, t)


def seq_eq(I, name, v, n, want, kind='post'):
    """v is a sequence of length n with element i equal to want(i)"""
    ok = col_len(I, v)
    if ok is None:
        I.oblige(name + '.is-sequence', FALSE)
        return
    I.oblige_eq(name + '.length', ok, n, kind=kind)
    if ok is ZERO:
        return
    i = sym('row_' + name.split('.')[-1], 'I')
    h = len(I.hyps)
    I.hyps += [le(ZERO, i), lt(i, n)]
    x = arr_elem(I, v, i)
    I.oblige_eq(name + '.value', x.arith(), want(i), kind=kind)
    I.oblige(name + '.finite', not_(x.nan), kind=kind)
    del I.hyps[h:]


class Rows(object):
    """the contract: for the averaging factors TG[0..K) in turn keep those with nspec>1"""

    def __init__(self, ctx, n, rate, even=False, mx=None, tag='taus'):
        self.K, self.TG = tau_terms(n, rate, tag, even, mx if mx is not None else n)
        self.n, self.rate = n, rate

    def m(self, i):
        return sel(self.TG, i)


def check_rows(ctx, label, out, rows, rate, nspec, dev2, scale=None, err2=None, two_col=None):
    """obligations on the returned 4-tuple.
    nspec(m), dev2(m): count and squared deviation at averaging factor m
    err2(m, d2, n): squared error bar (default d2/n)"""
    I = ctx.I
    kind, v = out
    K = rows.K
    i = fresh('k', 'I')
    maskf = lambda k: gt(nspec(rows.m(k)), ONE)
    if kind == 'raise':
        if v.name == 'UserWarning':
            k = sym('row_k', 'I')
            I.oblige(label + '.warns-only-if-no-row', not_(maskf(k)), I.hyps + [le(ZERO, k), lt(k, K)])
            ctx.covers += 0
            return
        I.oblige(label + '.no-exception[%s]' % v.name, FALSE)
        return
    if not isinstance(v, tuple) or len(v) != 4:
        I.oblige(label + '.returns-four-columns', FALSE)
        return
    ctx.covers += 1
    taus, devs, errs, ns = v
    cnt = count_of(maskf, K)
    q = sym('row_q', 'I')
    pos, ma = sym_sel(maskf, K, q)
    cols = [('tau', taus), ('dev', devs), ('err', errs), ('n', ns)]
    for nm, c in cols:
        L = col_len(I, c)
        if L is None:
            I.oblige(label + '.%s.is-a-column' % nm, FALSE)
            return
        I.oblige_eq(label + '.rows-kept[%s]' % nm, unify_masks(I, L, ma, K, I.hyps), cnt)
    h = len(I.hyps)
    smt.APP_FACTS.setdefault('selidx', __import__('pyded.npmodel', fromlist=['x']).selidx_facts)
    I.hyps += [le(ZERO, q), lt(q, cnt), le(ZERO, pos), lt(pos, K), sel(ma, pos, force=True)]
    I.hyps += smt._mono_axioms and []
    m = rows.m(pos)
    I.hyps += _tg_elem_facts_at(rows, pos)
    # the selected position is an index of its own: generalise it
    P = sym('row_p', 'I')

    def val(c):
        x = arr_elem(I, c, q)
        t = unify_masks(I, x.arith(), ma, K, I.hyps)
        nanc = unify_masks(I, x.nan, ma, K, I.hyps)
        return t, nanc
    vals = {nm: val(c) for nm, c in cols}
    gen = lambda t: subst_any(t, pos, P)
    H = [gen(x) for x in I.hyps]
    mP = rows.m(P)
    nv = nspec(mP)
    d2 = dev2(mP)
    for nm in vals:
        I.oblige(label + '.%s.finite' % nm, not_(gen(vals[nm][1])), H)
    tau, dev, err, nn = [beta(gen(vals[k][0])) for k in ('tau', 'dev', 'err', 'n')]
    I.oblige_eq(label + '.tau', tau, div(mP, rate), H)
    I.oblige_eq(label + '.n', nn, nv, H)
    I.oblige(label + '.dev>=0', ge(dev, ZERO), H)
    I.oblige_eq(label + '.dev^2', mul(dev, dev), d2, H)
    # error bar relative to the returned deviation, whose value is the obligation above
    e2 = div(mul(dev, dev), nv) if err2 is None else err2(mP, mul(dev, dev), nv)
    I.oblige(label + '.err>=0', ge(err, ZERO), H)
    I.oblige_eq(label + '.err^2', mul(err, err), e2, H)
    del I.hyps[h:]


def beta(t):
    while t.op == 'sel' and t.args[0].op == 'afn':
        u = sel(*t.args, force=True)
        if u is t:
            break
        t = u
    return t


def subst_any(t, old, new):
    from .prove import _replace
    return _replace(t, old, new)


def _tg_elem_facts_at(rows, i):
    return smt.APPA_FACTS['TG'](rows.TG, i)


def statistic(ctx, fname, nspec, dev2, kind='array', pre=(), err2=None, even=False, mx=None, data_type='phase', nmin=1,
              mod='allantools.allantools', native='phase', only=None):
    """check one public statistic. nspec(N,m), dev2(N,m,x,rate)"""
    I = ctx.I
    I.contracts.update(STD)
    I.only = only
    n0 = sym('N', 'I')
    rate = sym('rate')
    taus = Opaque('taus')
    hold = {}

    def args():
        a, X = ctx.series('x', n0, kind)
        hold['a'] = a
        return [a, Num(rate, 'f'), data_type, taus]
    X = arrsym('x', 'R')
    if native == 'phase' and data_type == 'phase':
        n, x = n0, (lambda i: sel(X, i))
    elif native == 'phase':
        n, P = f2p_terms(n0, X, rate)
        x = lambda i: sel(P, i)
    elif data_type == 'phase':
        # frequency statistic of phase data: first differences times the rate
        ph = lambda i: sel(X, i)
        n, x = sub(n0, ONE), FreqSeries(lambda i: mul(rate, sub(ph(add(i, ONE)), ph(i))), ph, n0)
    else:
        L, P = f2p_terms(n0, X, rate)
        n, x = n0, FreqSeries(lambda i: sel(X, i), lambda i: sel(P, i), L)
    lab = '%s(%s,%s)' % (fname, data_type, kind)
    mxt = mx(n) if mx else n
    rows = Rows(ctx, n, rate, even, mxt)

    def capture(o, decs):
        ctx.paths += 1
        check_rows(ctx, lab, o, rows, rate, lambda m: nspec(n, m), lambda m: dev2(n, m, x, rate),
                   err2=(lambda m, d, q: err2(n, m, d, q)) if err2 else None)
        return (o[0] if o[0] == 'return' else o[1].name)
    return ctx.run(mod, fname, args, {}, [ge(n0, const(nmin)), gt(rate, ZERO)], capture)


class FreqSeries(object):
    """frequency data with the corresponding phase"""

    def __init__(self, y, phase, nphase):
        self.y, self.phase, self.nphase = y, phase, nphase

    def __call__(self, i):
        return self.y(i)


# ------------------------------------------------------------------ definitions
def d2(x, i, m):
    return add(sub(x(add(i, mulc(2, m))), mulc(2, x(add(i, m)))), x(i))


def d3(x, i, m):
    return sub(add(sub(x(add(i, mulc(3, m))), mulc(3, x(add(i, mulc(2, m))))), mulc(3, x(add(i, m)))), x(i))


def tau2(m, rate):
    return div(mul(m, m), mul(rate, rate))


DEFS = {}
DEFS['adev'] = dict(
    n=lambda N, m: sub(idiv(sub(N, ONE), m), ONE),
    d=lambda N, m, x, r: div(S(0, sub(idiv(sub(N, ONE), m), ONE), lambda i: sq(d2(x, mul(i, m), m))),
                             mulc(2, mul(tau2(m, r), sub(idiv(sub(N, ONE), m), ONE)))))
DEFS['oadev'] = dict(
    n=lambda N, m: sub(N, mulc(2, m)),
    d=lambda N, m, x, r: div(S(0, sub(N, mulc(2, m)), lambda i: sq(d2(x, i, m))), mulc(2, mul(tau2(m, r), sub(N, mulc(2, m))))))
DEFS['hdev'] = dict(
    n=lambda N, m: sub(idiv(sub(N, ONE), m), const(2)),
    d=lambda N, m, x, r: div(S(0, sub(idiv(sub(N, ONE), m), const(2)), lambda i: sq(d3(x, mul(i, m), m))),
                             mulc(6, mul(tau2(m, r), sub(idiv(sub(N, ONE), m), const(2))))))
DEFS['ohdev'] = dict(
    n=lambda N, m: sub(N, mulc(3, m)),
    d=lambda N, m, x, r: div(S(0, sub(N, mulc(3, m)), lambda i: sq(d3(x, i, m))), mulc(6, mul(tau2(m, r), sub(N, mulc(3, m))))))
DEFS['mdev'] = dict(
    n=lambda N, m: add(sub(N, mulc(3, m)), ONE),
    d=lambda N, m, x, r: div(S(0, add(sub(N, mulc(3, m)), ONE), lambda j: sq(S(j, add(j, m), lambda i: d2(x, i, m)))),
                             mulc(2, mul(mul(m, m), mul(tau2(m, r), add(sub(N, mulc(3, m)), ONE))))))
DEFS['tdev'] = dict(
    n=DEFS['mdev']['n'],
    d=lambda N, m, x, r: mulc(F(1, 3), mul(tau2(m, r), DEFS['mdev']['d'](N, m, x, r))))


def reflect(x, N, j):
    """odd reflection about both end points"""
    last = sub(N, ONE)
    return ite(lt(j, ZERO), sub(mulc(2, x(ZERO)), x(mulc(-1, j))),
               ite(gt(j, last), sub(mulc(2, x(last)), x(sub(mulc(2, last), j))), x(j)))


DEFS['totdev'] = dict(
    n=lambda N, m: sub(N, const(2)), nmin=3,
    d=lambda N, m, x, r: div(S(1, sub(N, ONE), lambda i: sq(add(sub(reflect(x, N, sub(i, m)), mulc(2, x(i))), reflect(x, N, add(i, m))))),
                             mulc(2, mul(tau2(m, r), sub(N, const(2))))))


def detrended(x, i, m, t0_slope):
    pass


def _half_slope(x, i, m):
    """average slope per sample from the two halves of the 3m points starting at i"""
    m3 = mulc(3, m)
    h = idiv(m3, const(2))
    lo = div(S(0, h, lambda k: x(add(i, k))), h)
    hi = div(S(sub(m3, h), m3, lambda k: x(add(i, k))), h)
    # distance between the centres of the halves: 3m/2, or (3m+1)/2 when the middle point is dropped
    odd = eq(sub(m, mulc(2, idiv(m, const(2)))), ONE)
    dist = ite(odd, mulc(F(1, 2), add(m3, ONE)), mulc(F(1, 2), m3))
    return div(sub(hi, lo), dist)


def _even_ext(seq, m, p):
    """9m points: reversed, direct, reversed"""
    m3 = mulc(3, m)
    return ite(lt(p, m3), seq(sub(sub(m3, ONE), p)), ite(lt(p, mulc(2, m3)), seq(sub(p, m3)), seq(sub(sub(mulc(3, m3), ONE), p))))


def _ext_arr(seq, m):
    p = fresh('p', 'I')
    E = mk_afn([p], _even_ext(seq, m, p), [mulc(9, m)])
    return lambda k: sel(E, k)


def _mod_sum(ext, m, j):
    a = S(j, add(j, m), ext)
    b = S(add(j, m), add(j, mulc(2, m)), ext)
    c = S(add(j, mulc(2, m)), add(j, mulc(3, m)), ext)
    return div(add(sub(a, mulc(2, b)), c), m)


def mtot2(N, m, x, r):
    n = add(sub(N, mulc(3, m)), ONE)

    def sub_i(i):
        sl = _half_slope(x, i, m)
        seq = lambda k: sub(x(add(i, k)), mul(sl, k))
        return div(S(0, mulc(6, m), lambda j: sq(_mod_sum(_ext_arr(seq, m), m, j))), mulc(6, m))
    return div(S(0, n, sub_i), mulc(2, mul(tau2(m, r), n)))


DEFS['mtotdev'] = dict(n=DEFS['mdev']['n'], d=mtot2, mx=lambda N: div(N, const(3)))
DEFS['ttotdev'] = dict(n=DEFS['mdev']['n'], mx=lambda N: div(N, const(3)),
                       d=lambda N, m, x, r: mulc(F(1, 3), mul(tau2(m, r), mtot2(N, m, x, r))))


def theo2(N, m, x, r):
    h = idiv(m, const(2))
    inner = lambda i: S(0, h, lambda d: div(
        sq(add(sub(x(i), x(add(sub(i, d), h))), sub(x(add(i, m)), x(add(add(i, d), h))))), sub(h, d)))
    return div(S(0, sub(N, m), inner), mul(const(F(3, 4)), mul(sub(N, m), tau2(m, r))))


DEFS['theo1'] = dict(n=lambda N, m: mul(sub(N, m), idiv(m, const(2))), d=theo2, even=True,
                     err2=lambda N, m, d2_, n: div(d2_, sub(N, m)))
DEFS['tierms'] = dict(
    n=lambda N, m: sub(N, m),
    d=lambda N, m, x, r: div(S(0, sub(N, m), lambda i: sq(sub(x(add(i, m)), x(i)))), sub(N, m)),
    err2=lambda N, m, d2_, n: ZERO)


def _mtie(N, m, x):
    return MAXF(0, sub(N, m), lambda i: sub(MAXF(0, add(m, ONE), lambda k: x(add(i, k))), MINF(0, add(m, ONE), lambda k: x(add(i, k)))))


DEFS['mtie'] = dict(n=lambda N, m: sub(N, m), d=lambda N, m, x, r: sq(_mtie(N, m, x)))


def pdev2(N, m, x, r):
    M = sub(N, mulc(2, m))
    one = DEFS['oadev']['d'](N, m, x, r)
    half = mulc(F(1, 2), sub(m, ONE))
    gen = div(mulc(72, S(0, M, lambda i: sq(S(0, m, lambda k: mul(sub(half, k), sub(x(add(i, k)), x(add(add(i, k), m)))))))),
              mul(M, mul(powi(m, 4), tau2(m, r))))
    return ite(eq(m, ONE), one, gen)


DEFS['pdev'] = dict(n=lambda N, m: sub(N, mulc(2, m)), d=pdev2)


def htot2(N, m, y, r):
    """N frequency points"""
    n = add(sub(N, mulc(3, m)), ONE)

    def sub_i(i):
        sl = _half_slope(y, i, m)
        c = idiv(mulc(3, m), const(2))
        seq = lambda k: sub(y(add(i, k)), mul(sl, sub(k, c)))
        return div(S(0, mulc(6, m), lambda j: sq(_mod_sum(_ext_arr(seq, m), m, j))), mulc(36, m))
    gen = div(S(0, n, sub_i), n)
    return ite(eq(m, ONE), DEFS['ohdev']['d'](y.nphase, m, y.phase, r), gen)


DEFS['htotdev'] = dict(n=lambda N, m: add(sub(N, mulc(3, m)), ONE), d=htot2, mx=lambda N: div(N, const(3)), native='freq', nmin=2)
