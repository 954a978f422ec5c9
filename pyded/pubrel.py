"""Covariances, tau selection, row filtering and conversions (C11-C14)."""
from fractions import Fraction as F
from .terms import *
from . import smt
from .values import *
from .contract import *
from .prove import Prover, Budget, Timeout
from .pubdev import (S, MAXF, MINF, sq, d2, d3, tau2, DEFS, Rows, check_rows, seq_eq, FreqSeries, statistic, subst_any)
from .pubci import scalar_unit, dec, cint, series_data
from .npfuncs import PI

AT = 'allantools.allantools'
not_frame = lambda n: '.frame.' not in n


# ------------------------------------------------------------------ C11
def gco_n(N, m):
    return sub(N, mulc(2, m))


def gco2(x, y, N, m, r):
    n = gco_n(N, m)
    return div(absv(S(0, n, lambda i: mul(d2(x, i, m), d2(y, i, m)))), mulc(2, mul(tau2(m, r), n)))


def gcodev_unit(ctx, kind='array', data_type='phase'):
    I = ctx.I
    I.contracts.update(STD)
    I.only = not_frame
    N, rate = sym('N', 'I'), sym('rate')
    X, Y = arrsym('x', 'R'), arrsym('y', 'R')
    if data_type == 'phase':
        n, x, y = N, (lambda i: sel(X, i)), (lambda i: sel(Y, i))
    else:
        n, P = f2p_terms(N, X, rate)
        _, Q = f2p_terms(N, Y, rate)
        x, y = (lambda i: sel(P, i)), (lambda i: sel(Q, i))
    rows = Rows(ctx, n, rate)
    lab = 'gcodev(%s,%s)' % (data_type, kind)

    def capture(o, decs):
        ctx.paths += 1
        check_rows(ctx, lab, o, rows, rate, lambda m: gco_n(n, m), lambda m: gco2(x, y, n, m, rate))
        return o[0]
    r = ctx.run(AT, 'gcodev', lambda: [ctx.series('x', N, kind)[0], ctx.series('y', N, kind)[0], Num(rate, 'f'), data_type, Opaque('taus')], {},
                [ge(N, ONE), gt(rate, ZERO)], capture)
    # consequences of the formula: symmetric, and the overlapping Allan deviation on equal inputs
    m = sym('m', 'I')
    H = [ge(m, ONE), ge(N, add(mulc(2, m), ONE)), gt(rate, ZERO)]
    I.oblige_eq(lab + '.lemma.symmetric', gco2(x, y, n, m, rate), gco2(y, x, n, m, rate), H, kind='lemma')
    I.oblige_eq(lab + '.lemma.equal-inputs', gco2(x, x, n, m, rate), DEFS['oadev']['d'](n, m, x, rate), H, kind='lemma')
    return r


def stat_rows_contract(fname):
    """the four columns of any statistic of gap-free phase data; the rows depend on length, rate and taus only"""
    def c(I, v):
        if v['data_type'] != 'phase' or not isinstance(v['taus'], Opaque):
            return NotImplemented
        x, rate = v['data'], I.num(v['rate']).arith()
        n = length(I, x)
        src = series_data(I, x, n)
        tag = sym('taus:' + v['taus'].tag, 'I')
        a = (n, rate, tag)
        K = appI('STn:' + fname, *a)
        T, D, E, C = appA('STt:' + fname, 'R', *a), appA('STd:' + fname, 'R', src, *a), appA('STe:' + fname, 'R', src, *a), appA('STc:' + fname, 'I', *a)
        q = fresh('q', 'I')
        I.assume(ge(K, ONE), forall(q, ZERO, K, ge(sel(C, q), const(2))))
        mk = lambda A_: arr_from_data(I.heap, A_, [K], 'f')
        return (mk(T), mk(D), mk(E), mk(C))
    return c


def hat_unit(ctx, fname, kind='array'):
    """three_cornered_hat_phase"""
    I = ctx.I
    I.only = not_frame
    I.contracts[AT + '.' + fname] = stat_rows_contract(fname)
    N, rate = sym('N', 'I'), sym('rate')
    tags = ('ab', 'bc', 'ca')
    lab = 'three_cornered_hat_phase(%s,%s)' % (fname, kind)
    w = fresh('w', 'I')

    def args():
        return [ctx.series(t, N, kind)[0] for t in tags] + [Num(rate, 'f'), Opaque('taus'), I.get_func(AT, fname)]

    def capture(o, decs):
        ctx.paths += 1
        if o[0] == 'raise':
            I.oblige('%s.no-exception[%s]' % (lab, o[1].name), FALSE)
            return
        ctx.covers += 1
        v = o[1]
        if not (isinstance(v, tuple) and len(v) == 4):
            I.oblige(lab + '.four-columns', FALSE)
            return
        a = (N, rate, sym('taus:taus', 'I'))
        K = appI('STn:' + fname, *a)
        src = {}
        for t in tags:
            X = arrsym(t, 'R')
            z = fresh('w', 'I')
            src[t] = mk_afn([z], sel(X, z), [N])
        D = {t: appA('STd:' + fname, 'R', src[t], *a) for t in tags}
        C, T = appA('STc:' + fname, 'I', *a), appA('STt:' + fname, 'R', *a)
        half = lambda k: mulc(F(1, 2), sub(add(sq(sel(D['ab'], k)), sq(sel(D['ca'], k))), sq(sel(D['bc'], k))))
        var = lambda k: ite(lt(half(k), ZERO), ZERO, half(k))
        seq_eq(I, lab + '.tau', v[0], K, lambda k: sel(T, k))
        seq_eq(I, lab + '.n', v[3], K, lambda k: sel(C, k))
        sqr(I, lab + '.dev', v[1], K, var)
        sqr(I, lab + '.err', v[2], K, lambda k: div(var(k), sel(C, k)))
    return ctx.run(AT, 'three_cornered_hat_phase', args, {}, [ge(N, ONE), gt(rate, ZERO)], capture)


def sqr(I, name, v, n, want):
    """non-negative column whose squares are want"""
    L = col_len(I, v)
    if L is None:
        I.oblige(name + '.is-a-column', FALSE)
        return
    I.oblige_eq(name + '.length', L, n)
    i = sym('row_' + name.split('.')[-1], 'I')
    h = len(I.hyps)
    I.hyps += [le(ZERO, i), lt(i, n)]
    x = arr_elem(I, v, i)
    t = x.arith()
    I.oblige(name + '.finite', not_(x.nan))
    I.oblige(name + '>=0', ge(t, ZERO))
    I.oblige_eq(name + '^2', mul(t, t), want(i))
    del I.hyps[h:]


# ------------------------------------------------------------------ C13
def filter_unit(ctx, two, lists=False):
    """remove_small_ns"""
    I = ctx.I
    I.only = not_frame
    K = sym('K', 'I')
    names = ['tau', 'dev', 'err', 'err2', 'n'] if two else ['tau', 'dev', 'err', 'n']
    lab = 'remove_small_ns(%d error columns)' % (2 if two else 1)

    def args():
        a = {n: arr_from_data(I.heap, arrsym(n, 'R'), [K], 'f', name=n, origin=n) for n in names}
        e = PyList(I.heap, [a['err'], a['err2']]) if two else a['err']
        return [a['tau'], a['dev'], e, a['n']]
    C = arrsym('n', 'R')
    maskf = lambda k: gt(sel(C, k), ONE)

    def capture(o, decs):
        ctx.paths += 1
        cnt = count_of(maskf, K)
        if o[0] == 'raise':
            if o[1].name == 'UserWarning':
                k = sym('row_k', 'I')
                ctx.covers += 1
                I.oblige(lab + '.warns-only-if-no-row', not_(maskf(k)), I.hyps + [le(ZERO, k), lt(k, K)])
            else:
                I.oblige('%s.no-exception[%s]' % (lab, o[1].name), FALSE)
            return
        ctx.covers += 1
        v = o[1]
        ok = isinstance(v, tuple) and len(v) == 4
        if ok and two:
            ok = isinstance(v[2], PyList) and v[2].items is not None and len(v[2].items) == 2
        if not ok:
            I.oblige(lab + '.four-columns', FALSE)
            return
        I.oblige(lab + '.some-row', gt(cnt, ZERO))
        cols = [('tau', v[0]), ('dev', v[1])] + ([('err', v[2].items[0]), ('err2', v[2].items[1])] if two else [('err', v[2])]) + [('n', v[3])]
        q = sym('row_q', 'I')
        pos, ma = sym_sel(maskf, K, q)
        for nm, c in cols:
            L = col_len(I, c)
            if L is None:
                I.oblige(lab + '.%s.is-a-column' % nm, FALSE)
                continue
            I.oblige_eq(lab + '.%s.length' % nm, unify_masks(I, L, ma, K, I.hyps), cnt)
            h = len(I.hyps)
            I.hyps += [le(ZERO, q), lt(q, cnt)]
            x = arr_elem(I, c, q)
            I.oblige_eq(lab + '.%s.value' % nm, unify_masks(I, x.arith(), ma, K, I.hyps), sel(arrsym(nm, 'R'), pos))
            I.oblige(lab + '.%s.finite' % nm, not_(x.nan))
            del I.hyps[h:]
    return ctx.run(AT, 'remove_small_ns', args, {}, [ge(K, ZERO)], capture)


# ------------------------------------------------------------------ C12
def forced(t):
    while t.op == 'sel' and t.args[0].op == 'afn':
        u = sel(*t.args, force=True)
        if u is t:
            break
        t = u
    return t


def deep_force(t):
    """beta-reduce the ground applications in t"""
    from .prove import _replace
    for _ in range(20):
        c = [x for x in subterms(t) if x.op == 'sel' and x.args[0].op == 'afn' and not any(v.op == 'bv' for v in x.fv) and sel(*x.args, force=True) is not x]
        if not c:
            return t
        x = max(c, key=lambda x: x.id)
        t = _replace(t, x, sel(*x.args, force=True))
    return t


def closure_facts(t):
    """facts about the selections occurring in t: strictly increasing, and with an inverse (the modelled np.unique and masking)"""
    masks, uniqs = {}, {}
    sels, us = {}, {}
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'app' and x.val == 'selidx':
            masks[(x.args[0], x.args[1])] = 1
            if not any(v.op == 'bv' for v in x.fv):
                sels[x] = 1
        if x.op == 'app' and x.val == 'uniq':
            uniqs[(x.args[0], x.args[1], x.sort)] = 1
            if not any(v.op == 'bv' for v in x.fv):
                us[x] = 1
        st.extend(x.args)
    return masks, uniqs, sels, us


def mono_facts(ts):
    from .npmodel import _count
    out = []
    S_, U_ = {}, {}
    for t in ts:
        _, _, s, u = closure_facts(t)
        S_.update(s)
        U_.update(u)
    for D in (S_, U_):
        for x in D:
            for y in D:
                if x is y or x.args[0] is not y.args[0]:
                    continue
                top = _count(x.args[0], x.args[1]) if D is S_ else appI('nuniq', x.args[0], x.args[1])
                out.append(implies(and_(le(ZERO, x.args[2]), lt(x.args[2], y.args[2]), lt(y.args[2], top)), lt(x, y)))
    return out


def rewrite(t, rules):
    from .prove import _replace
    for _ in range(8):
        u = t
        for x, y in rules:
            u = _replace(u, x, y)
        if u is t:
            break
        t = u
    return t


def witness(t, k0, K, L):
    """ways to follow position k0 of the source (length K) into the result (length L): [(position, rules, goals)]"""
    from .npmodel import _count
    masks, uniqs, _, _ = closure_facts(t)
    front = [(k0, K, [], [])]
    out = []
    for depth in range(6):
        nxt = []
        for c, n, rules, goals in front:
            if n is L:
                out.append((c, rules, goals))
            for ma, mn in masks:
                if mn is n:
                    r = appI('selrank', ma, mn, c)
                    nxt.append((r, _count(ma, mn), rules + [(appI('selidx', ma, mn, r), c)], goals + [rewrite(deep_force(sel(ma, c, force=True)), rules)]))
            for a, un, so in uniqs:
                if un is n:
                    r = appI('uniqrank', a, un, c)
                    nxt.append((r, appI('nuniq', a, un), rules + [(tm_app(a, un, r, so), rewrite(sel(a, c, force=True), rules))], goals))
        front = nxt
    return out


def tm_app(a, n, i, so):
    from . import terms as tm
    return tm._mk('app', (a, n, i), 'uniq', so)


def taugen_unit(ctx, taus='array', even=False, mx=False, kind='array'):
    """tau_generator"""
    I = ctx.I
    I.only = not_frame
    N, rate, K = sym('N', 'I'), sym('rate'), sym('K', 'I')
    M = sym('maximum_m', 'I') if mx else None
    lab = 'tau_generator(%s,%s%s%s)' % (taus, kind, ',even' if even else '', ',maximum' if mx else '')
    T = arrsym('taus', 'R')
    lists = taus in ('array', 'list')
    X = arrsym('data', 'R')

    def args():
        if taus == 'array':
            t = arr_from_data(I.heap, T, [K], 'f', name='taus', origin='taus')
        elif taus == 'list':
            t = PyList(I.heap, None, K, lambda i: Num(sel(T, i), 'f'))
            t.origin = 'taus'
        elif taus == 'none':
            t = None
        elif taus == 'empty':
            t = PyList(I.heap, [])
        else:
            t = taus
        return [ctx.series('data', N, kind)[0], Num(rate, 'f'), t]
    kw = {}
    if even:
        kw['even'] = True
    if mx:
        kw['maximum_m'] = Num(M, 'i')

    def capture(o, decs):
        ctx.paths += 1
        if o[0] == 'raise':
            I.oblige('%s.no-exception[%s]' % (lab, o[1].name), FALSE)
            return
        ctx.covers += 1
        v = o[1]
        if not (isinstance(v, tuple) and len(v) == 3):
            I.oblige(lab + '.three-results', FALSE)
            return
        d, m, t2 = v
        seq_eq(I, lab + '.data', d, N, lambda i: sel(X, i))
        L, L2 = col_len(I, m), col_len(I, t2)
        if L is None or L2 is None:
            I.oblige(lab + '.is-a-column', FALSE)
            return
        q = sym('row_q', 'I')
        h = len(I.hyps)
        I.oblige_eq(lab + '.taus.length', L2, L)
        I.hyps += [le(ZERO, q), lt(q, L)]
        e = forced(arr_elem(I, m, q).arith())
        from .npmodel import selidx_facts
        for x in closure_facts(e)[2]:
            I.hyps += [deep_force(f) for f in selidx_facts(x)]
        I.oblige_eq(lab + '.tau', arr_elem(I, t2, q).arith(), div(e, rate))
        I.oblige(lab + '.m>=1', ge(e, ONE))
        I.oblige(lab + '.m<len', le(e, sub(N, ONE)))
        if mx:
            I.oblige(lab + '.m<=maximum', le(e, M))
        if even:
            I.oblige(lab + '.even', eq(e, mulc(2, idiv(e, const(2)))))
        e1 = forced(arr_elem(I, m, add(q, ONE)).arith())
        I.hyps += [lt(add(q, ONE), L)] + mono_facts([e, e1])
        I.oblige(lab + '.increasing', lt(e, e1))
        del I.hyps[h:]
        # sound: every factor is requested
        src = forced(e)
        for x in sorted(closure_facts(e)[3], key=lambda x: x.id):
            src = rewrite(src, [(x, sel(x.args[0], appI('uniqpos', *x.args), force=True))])
        H = I.hyps + [le(ZERO, q), lt(q, L)]
        from .npfuncs import uniq_facts
        for x in closure_facts(e)[3]:
            H = H + uniq_facts(x)
        for x in list(closure_facts(e)[2]) + list(closure_facts(src)[2]):
            H = H + selidx_facts(x)
        ground = [x for x in sub_all(src) if not any(z.op == 'bv' for z in x.fv)]
        if lists:
            ks = [x.args[1] for x in ground if x.op == 'sel' and x.args[0] is T]
            k = ks[0] if ks else ZERO
            I.oblige(lab + '.requested.position', and_(le(ZERO, k), lt(k, K)), H)
            I.oblige(lab + '.requested', eq(e, app('rint', mul(sel(T, k), rate))), H)
        elif taus in ('octave', 'none', 'empty', 'decade'):
            base = 10 if taus == 'decade' else 2
            I.oblige(lab + '.requested.source', eq(e, src), H)
            cs = (1, 2, 4) if base == 10 else (1,)
            div3 = [x.args[0] for x in ground if x.op == 'idiv' and x.args[1] is const(3)] or [x.args[1] for x in ground if x.op == 'sel' and x.args[0].op == 'afn' and '3*idiv' in pp(x.args[0])]
            variants = [(src, H)]
            if base == 10 and div3:
                from .prove import _replace
                a3 = sym('a3', 'I')
                variants = [(deep_force(_replace(src, div3[0], add(mulc(3, a3), const(b)))), H + [ge(a3, ZERO), eq(div3[0], add(mulc(3, a3), const(b)))]) for b in range(3)]
            for sv, Hv in variants:
                ps = [x for x in sub_all(sv) if x.op == 'app' and x.val == 'pow' and x.args[0] is const(base) and not any(z.op == 'bv' for z in x.fv)]
                ps = ps or [ONE]
                I.oblige(lab + '.requested.exponent', TRUE if ps[0] is ONE else le(ZERO, ps[0].args[1]), Hv)
                I.oblige(lab + '.requested', or_(*[eq(sv, mulc(c, ps[0])) for c in cs]), Hv)
        # complete: every requested factor that qualifies is there
        if lists:
            cases = [(sym('k0', 'I'), K, app('rint', mul(sel(T, sym('k0', 'I')), rate)), [ge(sym('k0', 'I'), ZERO), lt(sym('k0', 'I'), K)])]
        elif taus == 'all':
            k0 = sym('k0', 'I')
            cases = [(sub(k0, ONE), N, k0, [])]
        else:
            a_ = sym('a', 'I')
            base = 10 if taus == 'decade' else 2
            lg = div(app('log', N), app('log', const(base)))
            fl = app('floor', lg)
            P_ = app('pow', const(base), a_)
            cases = []
            for b, c in enumerate((1, 2, 4) if base == 10 else (1,)):
                w = mulc(c, P_)
                n_ = len((1, 2, 4)) if base == 10 else 1
                # base^a < N implies a < log(N)/log(base)
                cases.append((add(mulc(n_, a_), const(b)), mulc(n_, add(fl, ONE)), w, [ge(a_, ZERO), implies(lt(P_, N), lt(a_, lg)), implies(ge(N, const(base)), ge(lg, ONE)), ge(P_, ONE), implies(ge(a_, ONE), ge(P_, const(base)))] + ([eq(P_, mulc(2, appI('half', a_)))] if 0 else [])))
        for k0, Ks, want, extra in cases:
            hy = I.hyps + extra + [ge(want, ONE), lt(want, N)] + ([le(want, M)] if mx else [])
            if even:
                if lists or taus == 'all':
                    hy.append(eq(want, mulc(2, sym('hh', 'I'))))
                else:
                    hy += [eq(want, mulc(2, sym('hh', 'I')))]
            if smt.entails(hy, FALSE):
                I.oblige(lab + '.complete[none qualifies]', FALSE, hy)
                continue
            ws = witness(src if False else e, k0, Ks, L)
            if not ws:
                # the table of candidates may be spelled differently
                for Kx in {x[1] for x in closure_facts(e)[0]}:
                    if quick(hy, eq(Kx, Ks)):
                        ws = witness(e, k0, Kx, L)
                        if ws:
                            break
            if not ws:
                I.oblige(lab + '.complete', FALSE, hy, kind='internal')
                continue
            pos, rules, goals = ws[0]
            ev = rewrite(forced(arr_elem(I, m, pos).arith()), rules)
            I.oblige(lab + '.complete.in-range', and_(le(ZERO, k0), lt(k0, Ks)), hy)
            for j, g in enumerate(goals):
                I.oblige(lab + '.complete.kept', deep_force(g), hy)
            I.oblige(lab + '.complete.value', eq(deep_force(ev), want), hy)
        return e
    # the requested factor at position k of the source
    return ctx.run(AT, 'tau_generator', args, kw, [ge(N, ONE), gt(rate, ZERO), ge(K, ONE)] + ([ge(M, ZERO)] if mx else []), capture)


def quick(hy, g, secs=20):
    try:
        return Prover(list(hy), Budget(secs)).prove(g)
    except Timeout:
        return False


def sub_all(t):
    return [x for x in subterms(t)]


# ------------------------------------------------------------------ C13: thinning of averaging factors
def tau_reduction_unit(ctx, kind='f'):
    I = ctx.I
    I.only = not_frame
    K, rate, npd = sym('K', 'I'), sym('rate'), sym('n_per_decade')
    M = arrsym('ms', 'I')
    lab = 'tau_reduction(%s)' % kind

    def args():
        return [arr_from_data(I.heap, M, [K], kind, name='ms', origin='ms'), Num(rate, 'f'), Num(npd, 'f')]
    step = lambda k: app('rint', mul(npd, div(app('log', sel(M, k)), app('log', const(10)))))
    maskf = lambda k: ne(step(add(k, ONE)), step(k))

    def capture(o, decs):
        ctx.paths += 1
        if o[0] == 'raise':
            I.oblige('%s.no-exception[%s]' % (lab, o[1].name), FALSE)
            return
        ctx.covers += 1
        v = o[1]
        if not (isinstance(v, tuple) and len(v) == 2):
            I.oblige(lab + '.two-results', FALSE)
            return
        n = sub(K, ONE)
        q = sym('row_q', 'I')
        cnt = count_of(maskf, n)
        pos, ma = sym_sel(maskf, n, q)
        for nm, c, want in (('m', v[0], lambda: sel(M, pos)), ('tau', v[1], lambda: div(sel(M, pos), rate))):
            L = col_len(I, c)
            if L is None:
                I.oblige(lab + '.%s.is-a-column' % nm, FALSE)
                continue
            I.oblige_eq(lab + '.%s.length' % nm, unify_masks(I, L, ma, n, I.hyps), cnt)
            h = len(I.hyps)
            I.hyps += [le(ZERO, q), lt(q, cnt)]
            I.oblige_eq(lab + '.%s.value' % nm, unify_masks(I, arr_elem(I, c, q).arith(), ma, n, I.hyps), want())
            del I.hyps[h:]
    k = fresh('k', 'I')
    return ctx.run(AT, 'tau_reduction', args, {}, [ge(K, ONE), gt(rate, ZERO), forall(k, ZERO, K, ge(sel(M, k), ONE))], capture)


# ------------------------------------------------------------------ C14
def presence(N, G):
    """first and one past the last present sample, with what defines them"""
    a, b = sym('first', 'I'), sym('last', 'I')
    k = fresh('k', 'I')
    return a, b, [le(ZERO, a), lt(a, b), le(b, N), not_(sel(G, a)), not_(sel(G, sub(b, ONE))), forall(k, ZERO, a, sel(G, k)),
                  forall(k, b, N, sel(G, k))]


def returns(ctx, lab, o):
    I = ctx.I
    ctx.paths += 1
    if o[0] == 'raise':
        I.oblige('%s.no-exception[%s]' % (lab, o[1].name), FALSE)
        return None
    ctx.covers += 1
    return o[1]


def trim_unit(ctx, kind='array'):
    I = ctx.I
    I.only = not_frame
    N = sym('N', 'I')
    X, G = arrsym('x', 'R'), arrsym('gap', 'B')
    a, b, facts = presence(N, G)
    lab = 'trim_data(%s)' % kind

    def args():
        if kind == 'array':
            return [arr_from_data(I.heap, X, [N], 'f', nan=G, name='x', origin='x')]
        l = PyList(I.heap, None, N, lambda i: Num(sel(X, i), 'f', sel(G, i)))
        l.origin = 'x'
        return [l]

    def capture(o, decs):
        v = returns(ctx, lab, o)
        if v is None:
            return
        L = col_len(I, v)
        if L is None:
            I.oblige(lab + '.is-a-sequence', FALSE)
            return
        h = len(I.hyps)
        I.oblige_eq(lab + '.length', L, sub(b, a))
        i = sym('row_i', 'I')
        I.hyps += [le(ZERO, i), lt(i, sub(b, a))]
        x = arr_elem(I, v, i)
        I.oblige_eq(lab + '.value', x.arith(), sel(X, add(a, i)))
        I.oblige_eq(lab + '.gaps', ite(x.nan, ONE, ZERO), ite(sel(G, add(a, i)), ONE, ZERO))
        del I.hyps[h:]
    return ctx.run(AT, 'trim_data', args, {}, [ge(N, ONE)] + facts, capture)


def trim_contract(X, a, b):
    """the samples from the first to the last present one; all of them present by the precondition"""
    def c(I, v):
        return I.np.new((sub(b, a),), lambda i: Num(sel(X, add(a, i)), 'f'), 'f')
    return c


def f2p_unit(ctx, kind='array', gaps=False):
    """frequency2phase; gaps: leading and trailing missing samples"""
    I = ctx.I
    I.only = not_frame
    N, rate = sym('N', 'I'), sym('rate')
    X, G = arrsym('y', 'R'), arrsym('gap', 'B')
    a, b, facts = presence(N, G)
    k = fresh('k', 'I')
    facts = facts + [forall(k, a, b, not_(sel(G, k)))] if gaps else []
    if gaps:
        I.contracts[AT + '.trim_data'] = trim_contract(X, a, b)
    else:
        a, b = ZERO, N
    lab = 'frequency2phase(%s%s)' % (kind, ',gaps' if gaps else '')
    n = sub(b, a)
    mean = div(S(a, b, lambda k: sel(X, k)), n)

    def args():
        if kind == 'array':
            y = arr_from_data(I.heap, X, [N], 'f', nan=G if gaps else None, name='y', origin='y')
        else:
            y = PyList(I.heap, None, N, lambda i: Num(sel(X, i), 'f'))
            y.origin = 'y'
        return [y, Num(rate, 'f')]

    def capture(o, decs):
        v = returns(ctx, lab, o)
        if v is None:
            return
        seq_eq(I, lab + '.phase', v, add(n, ONE), lambda i: div(S(ZERO, i, lambda k: sub(sel(X, add(a, k)), mean)), rate))
    return ctx.run(AT, 'frequency2phase', args, {}, [ge(N, ONE), gt(rate, ZERO)] + facts, capture)


def p2f_unit(ctx, kind='array', roundtrip=False):
    """phase2frequency; roundtrip: of the phase that frequency2phase is specified to return"""
    I = ctx.I
    I.only = not_frame
    N, rate = sym('N', 'I'), sym('rate')
    X = arrsym('x', 'R')
    lab = 'phase2frequency(%s)' % ('frequency2phase' if roundtrip else kind)
    y = lambda k: sel(X, k)
    if roundtrip:
        mean = div(S(ZERO, N, y), N)
        v = fresh('v', 'I')
        n = add(N, ONE)
        base = mk_afn([v], div(S(ZERO, v, lambda k: sub(y(k), mean)), rate), [n])
    else:
        n, base = N, X

    def args():
        return [ctx.series('x', n, kind, base=base)[0], Num(rate, 'f')]

    def capture(o, decs):
        v = returns(ctx, lab, o)
        if v is None:
            return
        if roundtrip:
            seq_eq(I, lab + '.is-mean-removed', v, N, lambda i: sub(y(i), mean))
        else:
            seq_eq(I, lab + '.frequency', v, sub(N, ONE), lambda i: mul(rate, sub(sel(X, add(i, ONE)), sel(X, i))))
    return ctx.run(AT, 'phase2frequency', args, {}, [ge(N, ONE), gt(rate, ZERO)], capture)


def p2rad_unit(ctx, kind='array'):
    I = ctx.I
    I.only = not_frame
    N, v0 = sym('N', 'I'), sym('v0')
    X = arrsym('x', 'R')
    lab = 'phase2radians(%s)' % kind

    def capture(o, decs):
        v = returns(ctx, lab, o)
        if v is not None:
            seq_eq(I, lab + '.radians', v, N, lambda i: mulc(2, mul(PI, mul(v0, sel(X, i)))))
    return ctx.run(AT, 'phase2radians', lambda: [ctx.series('x', N, kind)[0], Num(v0, 'f')], {}, [ge(N, ONE)], capture)


def frac_unit(ctx, kind='array', nominal=True):
    I = ctx.I
    I.only = not_frame
    N, mu = sym('N', 'I'), sym('mu')
    X = arrsym('f', 'R')
    lab = 'frequency2fractional(%s,%s)' % (kind, 'nominal' if nominal else 'mean')
    mean = mu if nominal else div(S(ZERO, N, lambda k: sel(X, k)), N)

    def capture(o, decs):
        v = returns(ctx, lab, o)
        if v is not None:
            seq_eq(I, lab + '.fractional', v, N, lambda i: div(sub(sel(X, i), mean), mean))
    kw = {'mean_frequency': Num(mu, 'f')} if nominal else {}
    pre = [ge(N, ONE), ne(mean, ZERO)] + ([ne(mu, const(-1))] if nominal else [])
    return ctx.run(AT, 'frequency2fractional', lambda: [ctx.series('f', N, kind)[0]], kw, pre, capture)


def bad_type_unit(ctx, fname):
    """an unknown data type is refused"""
    I = ctx.I
    I.only = not_frame
    I.contracts.update(STD)
    N, rate = sym('N', 'I'), sym('rate')
    lab = '%s(unknown data_type)' % fname

    def capture(o, decs):
        ctx.paths += 1
        ctx.covers += 1
        I.oblige(lab + '.is-refused', TRUE if o[0] == 'raise' else FALSE)
    a = lambda: [ctx.series(n, N)[0] for n in (('x', 'y') if fname == 'gcodev' else ('x',))] + [Num(rate, 'f'), 'foo', Opaque('taus')]
    return ctx.run(AT, fname, a, {}, [ge(N, ONE), gt(rate, ZERO)], capture)
