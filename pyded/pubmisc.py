"""Contracts of the remaining functions: gaps, covariances, selection, conversion, relations."""
from fractions import Fraction as F
from .terms import *
from . import smt
from .values import *
from .contract import *
from .prove import Prover, Budget, Timeout
from .pubdev import (S, MAXF, MINF, sq, d2, d3, tau2, DEFS, Rows, check_rows, seq_eq, FreqSeries, statistic, subst_any)

AT = 'allantools.allantools'
CI = 'allantools.ci'
ALPHAS = {'wp': 2, 'fp': 1, 'wf': 0, 'ff': -1, 'rf': -2}


# ------------------------------------------------------------------ gaps (C10)
def edf_term(N, m, alpha):
    return app('EDFS', lift(N), lift(m), const(9 if alpha is None else alpha))


def edf_simple_contract(I, v):
    """some positive number determined by its arguments (its value is specified in C19)"""
    a = v['alpha']
    if a is not None:
        a = I.num(a).arith()
        if a.op != 'const':
            return NotImplemented
        a = int(a.val) if a.val in (2, 1, 0, -1, -2) else None
    t = edf_term(I.num(v['N']).arith(), I.num(v['m']).arith(), a)
    I.assume(gt(t, ZERO))
    I.trusted.add('edf_simple returns a positive number (where the gaps leave none, the error columns are unspecified)')
    return Num(t, 'f')


def gap_input(I, kind, gaps, X, G, N):
    if kind == 'array':
        return arr_from_data(I.heap, X, [N], 'f', nan=G if gaps else None, name='x', origin='x')
    l = PyList(I.heap, None, N, lambda i: Num(sel(X, i), 'f', sel(G, i) if gaps else FALSE))
    l.origin = 'x'
    return l


class GapSpec(object):
    """differences whose three points are all present"""

    def __init__(self, N, rate, gaps, X, G):
        x = lambda i: sel(X, i)
        miss = (lambda i: sel(G, i)) if gaps else (lambda i: FALSE)
        ok3 = lambda m: (lambda i: not_(or_(miss(i), miss(add(i, m)), miss(add(i, mulc(2, m))))))
        hi = lambda m: sub(N, mulc(2, m))
        self.n = lambda m: S(ZERO, hi(m), lambda i: ite(ok3(m)(i), ONE, ZERO)) if gaps else hi(m)
        self.present = S(ZERO, N, lambda i: ite(miss(i), ZERO, ONE)) if gaps else N
        self.dev2 = lambda m: div(S(ZERO, hi(m), lambda i: ite(ok3(m)(i), sq(d2(x, i, m)), ZERO)), mulc(2, mul(self.n(m), tau2(m, rate))))


def err_limit(present, m, alpha, lev, dev, lower, abstract=False):
    edf = edf_term(present, m, alpha)
    if abstract:
        return sub(dev, app('CILO', dev, edf, lev)) if lower else sub(app('CIHI', dev, edf, lev), dev)
    qlo = mulc(F(1, 2), sub(ONE, lev))
    lim = app('sqrt', div(mul(edf, mul(dev, dev)), chi2(sub(ONE, qlo) if lower else qlo, edf)))
    return sub(dev, lim) if lower else sub(lim, dev)


def ci_contract(I, v):
    """the limits as functions of deviation, degrees of freedom and level (values: C18)"""
    d, k, c = [I.num(v[q]) for q in ('dev', 'edf', 'ci')]
    c = c.arith()
    I.oblige('confidence_interval.requires(1/2<=ci<1)', and_(ge(c, const(F(1, 2))), lt(c, ONE)), kind='pre')
    a = (d.arith(), k.arith(), c)
    return (Num(app('CILO', *a), 'f', d.nan), Num(app('CIHI', *a), 'f', d.nan))


def grad_terms(m):
    return app('GDEV', m), app('GLO', m), app('GHI', m), appI('GN', m)


def calc_gradev_unit(ctx, noise, kind='array', gaps=True, mk='f'):
    """deviation, error pair and count at one averaging factor"""
    I = ctx.I
    I.contracts[CI + '.edf_simple'] = edf_simple_contract
    I.contracts[CI + '.confidence_interval'] = ci_contract
    I.only = lambda n: '.frame.' not in n
    N, rate, lev, m = sym('N', 'I'), sym('rate'), sym('ci'), sym('m', 'I')
    X, G = arrsym('x', 'R'), arrsym('gap', 'B')
    sp = GapSpec(N, rate, gaps, X, G)
    alpha = ALPHAS.get(noise)
    lab = 'calc_gradev_phase(%s%s)' % (noise, ',gaps' if gaps else '')

    def capture(o, decs):
        ctx.paths += 1
        if o[0] == 'raise':
            I.oblige('%s.no-exception[%s]' % (lab, o[1].name), FALSE)
            return
        ctx.covers += 1
        r = o[1]
        ok = isinstance(r, tuple) and len(r) == 3
        if ok:
            dev, er, n = r
            if isinstance(er, PyList) and er.items is not None:
                er = tuple(er.items)
            ok = isinstance(er, tuple) and len(er) == 2
        if not ok:
            I.oblige(lab + '.shape', FALSE)
            return
        n = I.num(n).arith()
        c = sp.n(m)
        two = gt(n, ONE)
        if two is FALSE:
            I.oblige(lab + '.counts-complete-differences', le(c, ONE))
            for nm, e in (('lower', er[0]), ('upper', er[1])):
                I.oblige_eq(lab + '.%s-error-of-one-difference' % nm, I.num(e).arith(), ZERO)
            return
        I.oblige(lab + '.counts-complete-differences', iff(two, gt(c, ONE)))
        h = len(I.hyps)
        I.hyps.append(two)
        I.oblige_eq(lab + '.n', n, c)
        I.hyps.append(eq(n, c))
        I.hyps.append(gt(c, ONE))
        dv = I.num(dev)
        I.oblige(lab + '.dev.finite', not_(dv.nan))
        d = dv.arith()
        I.oblige(lab + '.dev>=0', ge(d, ZERO))
        I.oblige_eq(lab + '.dev^2', mul(d, d), sp.dev2(m))
        # the error columns are functions of the deviation: generalise over it
        absr = any('confidence_interval' in q for q in I.used_contracts)
        D = d if absr else sym('dev')
        gen = lambda t: t if absr else subst_any(t, d, D)
        del I.hyps[h:]
        H = [gen(t) for t in I.hyps + [two, eq(n, c), gt(c, ONE)]] + [ge(D, ZERO)]
        for nm, e, lo in (('lower', er[0], True), ('upper', er[1], False)):
            e = I.num(e)
            I.oblige(lab + '.%s.finite' % nm, not_(gen(e.nan)), H)
            I.oblige_eq(lab + '.%s-error' % nm, gen(e.arith()), err_limit(sp.present, m, alpha, lev, D, lo, absr), H)
        del I.hyps[h:]
        I.hyps.append(le(n, ONE))
        if FALSE in I.hyps:
            del I.hyps[h:]
            return
        for nm, e in (('lower', er[0]), ('upper', er[1])):
            e = I.num(e)
            I.oblige_eq(lab + '.%s-error-of-one-difference' % nm, e.arith(), ZERO)
        del I.hyps[h:]
    return ctx.run(AT, 'calc_gradev_phase', lambda: [gap_input(I, kind, gaps, X, G, N), Num(rate, 'f'), Num(m, mk), Num(ONE, 'i'), Num(lev, 'f'), noise], {},
                   [ge(N, ONE), ge(m, ONE), le(m, N), gt(rate, ZERO), lt(lev, ONE), ge(lev, const(F(1, 2)))], capture)


def gradev_unit(ctx, noise, kind, gaps=True):
    """row selection; deviation, errors and count of each row are those of calc_gradev_phase at its averaging factor"""
    I = ctx.I
    I.contracts.update(STD)
    I.contracts[CI + '.edf_simple'] = edf_simple_contract
    I.only = lambda n: '.frame.' not in n
    N, rate, lev = sym('N', 'I'), sym('rate'), sym('ci')
    taus = Opaque('taus')
    X, G = arrsym('x', 'R'), arrsym('gap', 'B')
    sp = GapSpec(N, rate, gaps, X, G)
    rows = Rows(ctx, N, rate)
    alpha = ALPHAS.get(noise)
    lab = 'gradev(%s,%s%s)' % (noise, kind, ',gaps' if gaps else '')

    def calc(I, v):
        d = v['data']
        if not (isinstance(d, NDArray) and d.ndim == 1 and d.shape[0] is N and v['noisetype'] == noise):
            return NotImplemented
        k = sym('any_k', 'I')
        e = d.get(k)
        H = [le(ZERO, k), lt(k, N)]
        same = I.num(v['rate']).arith() is rate and I.num(v['stride']).arith() is ONE and I.num(v['confidence']).arith() is lev
        if not same or not (Prover(list(I.hyps) + H, Budget(10)).prove_eq(ite(e.nan, ZERO, e.arith()), ite(sel(G, k) if gaps else FALSE, ZERO, sel(X, k)))
                            and Prover(list(I.hyps) + H, Budget(10)).prove(iff(e.nan, sel(G, k) if gaps else FALSE))):
            return NotImplemented
        m = I.num(v['mj']).arith()
        I.oblige('calc_gradev_phase.requires(m>=1,0.5<=ci<1)', and_(ge(m, ONE), ge(lev, const(F(1, 2))), lt(lev, ONE)), kind='pre')
        g = grad_terms(m)
        return (Num(g[0], 'f'), PyList(I.heap, [Num(g[1], 'f'), Num(g[2], 'f')]), Num(g[3], 'i'))
    I.contracts[AT + '.calc_gradev_phase'] = calc

    def capture(o, decs):
        ctx.paths += 1
        nsp = lambda m: grad_terms(m)[3]
        if o[0] == 'return' and isinstance(o[1], tuple) and len(o[1]) == 4:
            t, d, e, n = o[1]
            if not (isinstance(e, PyList) and e.items is not None and len(e.items) == 2):
                I.oblige(lab + '.two-error-columns', FALSE)
                return 'bad'
            if any('calc_gradev_phase' in q for q in I.used_contracts):
                for i, nm in ((0, 'lower'), (1, 'upper')):
                    check_rows2(ctx, '%s.%s' % (lab, nm), (t, d, e.items[i], n), rows, rate, nsp, None,
                                lambda dev, m, nv, i=i: grad_terms(m)[1 + i], lambda m: grad_terms(m)[0])
            else:
                for i, nm in ((0, 'lower'), (1, 'upper')):
                    check_rows2(ctx, '%s.%s' % (lab, nm), (t, d, e.items[i], n), rows, rate, sp.n, sp.dev2,
                                lambda dev, m, nv, i=i: err_limit(sp.present, m, alpha, lev, dev, i == 0))
        else:
            check_rows(ctx, lab, o, rows, rate, nsp if any('calc_gradev_phase' in q for q in I.used_contracts) else sp.n, sp.dev2)
        return o[0]
    return ctx.run(AT, 'gradev', lambda: [gap_input(I, kind, gaps, X, G, N), Num(rate, 'f'), 'phase', taus], {'ci': Num(lev, 'f'), 'noisetype': noise},
                   [ge(N, ONE), gt(rate, ZERO), gt(lev, ZERO), lt(lev, ONE), ge(lev, const(F(1, 2)))], capture)


def chi2(q, df):
    return app('chi2ppf', q, df)


def check_rows2(ctx, label, v, rows, rate, nspec, dev2, err_value, dev_value=None):
    from .pubdev import subst_any, _tg_elem_facts_at
    I = ctx.I
    K = rows.K
    maskf = lambda k: gt(nspec(rows.m(k)), ONE)
    ctx.covers += 1
    cnt = count_of(maskf, K)
    q = sym('row_q', 'I')
    pos, ma = sym_sel(maskf, K, q)
    names = ('tau', 'dev', 'err', 'n')
    for nm, c in zip(names, v):
        L = col_len(I, c)
        if L is None:
            I.oblige(label + '.%s.is-a-column' % nm, FALSE)
            return
        I.oblige_eq(label + '.rows-kept[%s]' % nm, unify_masks(I, L, ma, K, I.hyps), cnt)
    h = len(I.hyps)
    smt.APP_FACTS.setdefault('selidx', __import__('pyded.npmodel', fromlist=['x']).selidx_facts)
    I.hyps += [le(ZERO, q), lt(q, cnt), le(ZERO, pos), lt(pos, K), sel(ma, pos, force=True)]
    I.hyps += _tg_elem_facts_at(rows, pos)
    P = sym('row_p', 'I')
    vals = {}
    for nm, c in zip(names, v):
        e = arr_elem(I, c, q)
        vals[nm] = (unify_masks(I, e.arith(), ma, K, I.hyps), unify_masks(I, e.nan, ma, K, I.hyps))
    gen = lambda t: subst_any(t, pos, P)
    H = [gen(t) for t in I.hyps]
    m = rows.m(P)
    nv = nspec(m)
    for nm in names:
        I.oblige(label + '.%s.finite' % nm, not_(gen(vals[nm][1])), H)
    tau, dev, err, nn = [gen(vals[k][0]) for k in names]
    I.oblige_eq(label + '.tau', tau, div(m, rate), H)
    I.oblige_eq(label + '.n', nn, nv, H)
    if dev_value:
        I.oblige_eq(label + '.dev', dev, dev_value(m), H)
    else:
        I.oblige(label + '.dev>=0', ge(dev, ZERO), H)
        I.oblige_eq(label + '.dev^2', mul(dev, dev), dev2(m), H)
    I.oblige_eq(label + '.err', err, err_value(dev, m, nv), H)
    del I.hyps[h:]
