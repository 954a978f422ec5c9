"""Relational contracts by self-composition: the real function runs twice on related inputs (C15, C27)."""
from .terms import *
from . import smt
from .values import *
from .contract import *
from .pubdev import S, sq, beta, subst_any, DEFS
from .pubrel import AT, not_frame


def taugen_same_factors(I, v):
    """tau selection when both runs request the same averaging factors (C12: the selection depends on length and
    rounded tau*rate only)"""
    data, rate = v['data'], I.num(v['rate']).arith()
    if I.decide(eq(rate, ZERO)):
        raise PyExc('RuntimeError', 'rate==0')
    n = length(I, data)
    mx = I.num(v['maximum_m']).arith()
    if mx is const(-1):
        mx = n
    K, TG = tau_terms(n, ONE, v['taus'].tag, v['even'], mx)
    I.assume(ge(K, ZERO))
    cp = I.np.asarr(data) if isinstance(data, PyList) else I.np.copy(data)
    return (cp, arr_from_data(I.heap, TG, [K], 'f'), I.np.new((K,), lambda i: Num(div(sel(TG, i), rate), 'f'), 'f'))


def columns(v):
    if not isinstance(v, tuple) or len(v) != 4:
        return None
    return list(v)


def masks(t):
    return [x for x in subterms(t) if x.op == 'app' and x.val == 'selidx']


def pair_unit(ctx, fname, variant, kind='array', two=False):
    """results of two runs: tau2 = ft*tau1, dev2^2 = fd*dev1^2, err2^2 = fd*err1^2, n2 = n1"""
    I = ctx.I
    I.contracts.update(STD)
    I.contracts[AT + '.tau_generator'] = taugen_same_factors
    I.only = not_frame
    N, r1 = sym('N', 'I'), sym('rate')
    a, b, g, c = sym('offset'), sym('slope'), sym('drift'), sym('c')
    r2, ft, fd = r1, ONE, ONE
    f = lambda x, i: x
    pre = [ge(N, const(3 if fname == 'totdev' else 1)), gt(r1, ZERO)]
    if variant == 'offset':
        f = lambda x, i: add(x, a)
    elif variant == 'ramp':
        f = lambda x, i: add(x, add(a, mul(b, i)))
    elif variant == 'drift':
        f = lambda x, i: add(x, add(a, add(mul(b, i), mul(g, mul(i, i)))))
    elif variant == 'scale':
        f = lambda x, i: mul(c, x)
        fd = mul(c, c)
    elif variant == 'rate':
        r2, pre = mul(r1, c), pre + [gt(c, ZERO)]
        ft = div(ONE, c)
        fd = ONE if fname in ('tdev', 'ttotdev', 'tierms', 'mtie') else mul(c, c)
    else:
        raise Unsupported(variant)
    lab = '%s.%s' % (fname, variant)
    F_ = I.get_func(AT, fname)

    def go():
        I.assume(*pre)
        out = []
        for k, rate in ((0, r1), (1, r2)):
            args = []
            for nm in ('x', 'y')[:2 if fname == 'gcodev' else 1]:
                X = arrsym(nm, 'R')
                if k and variant != 'rate':
                    v = fresh('w', 'I')
                    X = mk_afn([v], f(sel(X, v), v), [N])
                args.append(ctx.series(nm, N, kind, base=X)[0])
            try:
                out.append(('return', I.call_func(F_, args + [Num(rate, 'f'), 'phase', Opaque('taus')], {}, root=True)))
            except PyExc as e:
                out.append(('raise', e))
        return out

    def capture(o, d):
        ctx.paths += 1
        if o[0] != 'return':
            I.oblige(lab + '.completes[%s]' % o[1].name, FALSE)
            return o[1].name
        (k1, v1), (k2, v2) = o[1]
        if k1 != k2 or (k1 == 'raise' and v1.name != v2.name):
            I.oblige(lab + '.same-outcome', FALSE)
            return 'differ'
        if k1 == 'raise':
            return v1.name
        c1, c2 = columns(v1), columns(v2)
        if c1 is None or c2 is None:
            I.oblige(lab + '.returns-four-columns', FALSE)
            return 'shape'
        ctx.covers += 1
        q = sym('row_q', 'I')
        L1, L2 = col_len(I, c1[0]), col_len(I, c2[0])
        smt.APP_FACTS.setdefault('selidx', __import__('pyded.npmodel', fromlist=['x']).selidx_facts)
        sels = masks(arr_elem(I, c1[3], q).arith()) or masks(arr_elem(I, c1[0], q).arith())
        ma, K = (sels[0].args[0], sels[0].args[1]) if sels else (None, None)
        un = (lambda t: unify_masks(I, t, ma, K, I.hyps)) if ma is not None else (lambda t: t)
        h = len(I.hyps)
        if ma is not None:
            v = fresh('k', 'I')
            cnt = mk_sum(v, ZERO, K, ite(sel(ma, v, force=True), ONE, ZERO))
        else:
            cnt = L1
        for nm, x1, x2 in zip(('tau', 'dev', 'err', 'n'), c1, c2):
            I.oblige_eq(lab + '.rows[%s]' % nm, un(col_len(I, x2)), cnt)
            I.oblige_eq(lab + '.rows1[%s]' % nm, un(col_len(I, x1)), cnt)
        I.hyps += [le(ZERO, q), lt(q, cnt)]
        gen = lambda t: t
        if ma is not None:
            pos = appI('selidx', ma, K, q)
            I.hyps += [le(ZERO, pos), lt(pos, K), sel(ma, pos, force=True)]
            P = sym('row_p', 'I')
            gen = lambda t: beta(subst_any(t, pos, P))
            for x in set(y for col in c1 for y in subterms(arr_elem(I, col, q).arith()) if y.op == 'sel' and y.args[0].op == 'appa' and y.args[0].val == 'TG'):
                I.hyps += smt.APPA_FACTS['TG'](x.args[0], x.args[1])
        H = [gen(x) for x in I.hyps]
        g1 = [gen(un(arr_elem(I, x, q).arith())) for x in c1]
        n1 = [gen(un(arr_elem(I, x, q).nan)) for x in c1]
        g2 = [gen(un(arr_elem(I, x, q).arith())) for x in c2]
        n2 = [gen(un(arr_elem(I, x, q).nan)) for x in c2]
        for nm, x, y in zip(('tau', 'dev', 'err', 'n'), n1, n2):
            I.oblige(lab + '.%s.nan' % nm, iff(x, y), H)
        I.oblige_eq(lab + '.tau', g2[0], mul(ft, g1[0]), H)
        I.oblige_eq(lab + '.n', g2[3], g1[3], H)
        for k, nm in ((1, 'dev'), (2, 'err')):
            I.oblige(lab + '.%s>=0' % nm, and_(ge(g1[k], ZERO), ge(g2[k], ZERO)), H)
            I.oblige_eq(lab + '.%s^2' % nm, mul(g2[k], g2[k]), mul(fd, mul(g1[k], g1[k])), H)
        del I.hyps[h:]
        return 'return'
    return I.explore(go, lambda o, d, s: capture(o, d))
