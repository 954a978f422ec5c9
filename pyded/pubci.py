"""Contracts of masks (C24), confidence intervals (C18), degrees of freedom (C19) and noise identification (C20)."""
from fractions import Fraction as F
from math import comb
from .terms import *
from . import smt
from .values import *
from .contract import *
from .npfuncs import PI
from .pubdev import S, sq, seq_eq, tau2, DEFS

CI = 'allantools.ci'
MK = 'allantools.mask'


def dec(s):
    return const(F(s))


def number(I, name, v):
    """the result as one finite number"""
    if isinstance(v, bool):
        v = Num(const(1 if v else 0), 'i')
    if not isinstance(v, Num):
        I.oblige(name + '.is-a-number', FALSE)
        return None
    if v.nan is not FALSE:
        I.oblige(name + '.finite', not_(v.nan))
    if v.term is INF or v.term is NANT:
        I.oblige(name + '.finite', FALSE)
        return None
    return v.arith()


def scalar_unit(ctx, mod, qual, args, pre, want, label=None, kw=(), raises=None, check=None):
    """one returned number equal to `want`; raises: condition under which an exception of the given name is specified"""
    I = ctx.I
    lab = label or qual

    def capture(o, decs):
        ctx.paths += 1
        if o[0] == 'raise':
            if raises and o[1].name in raises:
                ctx.covers += 1
                I.oblige('%s.raises-%s-only-as-specified' % (lab, o[1].name), raises[o[1].name])
            else:
                I.oblige('%s.no-exception[%s]' % (lab, o[1].name), FALSE)
            return o[1].name
        ctx.covers += 1
        if raises:
            for n, c in raises.items():
                I.oblige('%s.raises-%s-when-specified' % (lab, n), not_(c))
        if check:
            check(o[1])
            return 'return'
        t = number(I, lab, o[1])
        if t is not None:
            I.oblige_eq(lab + '.value', t, want() if callable(want) else want)
        return 'return'
    return ctx.run(mod, qual, args, dict(kw), pre, capture)


# ------------------------------------------------------------------ C24
def pieces(*ps):
    """piecewise linear limit: (upper end, inclusive, slope, level), ..., (None, _, slope, level)"""
    def f(t):
        r = None
        for hi, incl, a, b in reversed(ps):
            v = add(mul(dec(a), t), dec(b))
            r = v if r is None else ite((le if incl else lt)(t, dec(hi)), v, r)
        return r
    return f


MASKS = {
    'prc_tdev': pieces(('100', 0, '0', '3e-9'), ('1000', 0, '0.03e-9', '0'), (None, 0, '0', '30e-9')),
    'prc_mtie': pieces(('1000', 0, '0.275e-9', '0.025e-6'), (None, 0, '1e-11', '0.29e-6')),
    'eprtc_tdev': pieces(('30000', 0, '0', '1e-9'), ('300000', 0, '3.33333e-14', '0'), (None, 0, '0', '10e-9')),
    'eprtc_mtie': pieces(('1', 1, '0', '4e-9'), ('100', 1, '0.11114e-9', '3.89e-9'), ('400000', 1, '0.0375e-12', '15e-9'),
                         (None, 0, '0', '30e-9')),
    'prtcA_tdev': pieces(('100', 0, '0', '3e-9'), ('1000', 0, '0.03e-9', '0'), (None, 0, '0', '30e-9')),
    'prtcB_tdev': pieces(('100', 0, '0', '1e-9'), ('500', 0, '0.01e-9', '0'), (None, 0, '0', '5e-9')),
    'prtcA_mtie': pieces(('273', 0, '0.275e-9', '0.025e-6'), (None, 0, '0', '100e-9')),
    'prtcB_mtie': pieces(('54.5', 0, '0.275e-9', '0.025e-6'), (None, 0, '0', '40e-9')),
}


def mask_unit(ctx, name, kind='f'):
    """value for every observation interval, and the shape of the limit: at least zero, never dropping by more than a
    thousandth (the rounding of the printed coefficients at a breakpoint)"""
    I = ctx.I
    f = I.get_func(MK, name)
    t, u = sym('tau', 'I' if kind == 'i' else 'R'), sym('tau2', 'I' if kind == 'i' else 'R')

    def go():
        I.assume(gt(t, ZERO), le(t, u))
        return I.call_func(f, [Num(t, kind)], {}, root=True), I.call_func(f, [Num(u, kind)], {}, root=True)

    def capture(o, decs):
        ctx.paths += 1
        lab = '%s(%s)' % (name, kind)
        if o[0] == 'raise':
            I.oblige('%s.no-exception[%s]' % (lab, o[1].name), FALSE)
            return
        ctx.covers += 1
        a, b = number(I, lab, o[1][0]), number(I, lab, o[1][1])
        if a is None or b is None:
            return
        I.oblige_eq(lab + '.limit', a, MASKS[name](t))
        I.oblige(lab + '.non-negative', ge(a, ZERO))
        I.oblige(lab + '.non-decreasing', le(a, mul(b, dec('1.001'))))
    return I.explore(go, lambda o, d, s: capture(o, d))


# ------------------------------------------------------------------ C18
def chi2(q, df):
    return app('chi2ppf', q, df)


def limits(dev, edf, level):
    lo = mulc(F(1, 2), sub(ONE, level))
    f = lambda q: app('sqrt', div(mul(edf, mul(dev, dev)), chi2(q, edf)))
    return f(sub(ONE, lo)), f(lo)


def pair_check(I, lab, v, lo, hi):
    if isinstance(v, PyList) and v.items is not None:
        v = tuple(v.items)
    if not isinstance(v, tuple) or len(v) != 2:
        I.oblige(lab + '.returns-two-limits', FALSE)
        return
    for nm, x, w in (('lower', v[0], lo), ('upper', v[1], hi)):
        t = number(I, '%s.%s' % (lab, nm), x)
        if t is not None:
            I.oblige('%s.%s>=0' % (lab, nm), ge(t, ZERO))
            I.oblige_eq('%s.%s^2' % (lab, nm), mul(t, t), mul(w, w))


def ci_unit(ctx, default):
    I = ctx.I
    d, k, lev = sym('dev'), sym('edf'), sym('ci')
    one_sigma = app('erf', div(ONE, app('sqrt', const(2))))
    pre = [ge(d, ZERO), gt(k, ZERO)]
    args = [Num(d, 'f'), Num(k, 'f')]
    if default:
        pre += [ge(one_sigma, const(F(1, 2))), lt(one_sigma, ONE)]
        level = one_sigma
    else:
        args.append(Num(lev, 'f'))
        pre += [ge(lev, const(F(1, 2))), lt(lev, ONE)]
        level = lev
    lo, hi = limits(d, k, level)
    lab = 'confidence_interval(%s)' % ('default level' if default else 'ci')
    return scalar_unit(ctx, CI, 'confidence_interval', args, pre, None, lab, check=lambda v: pair_check(I, lab, v, lo, hi))


def edf_g(a, d, m, N, ov, mod):
    return app('EDFG', lift(a), lift(d), lift(m), lift(N), const(1 if ov else 0), const(1 if mod else 0))


def edf_greenhall_contract(I, v):
    """a positive number determined by its arguments (value: C19)"""
    if not isinstance(v['overlapping'], bool) or not isinstance(v['modified'], bool):
        return NotImplemented
    t = edf_g(I.num(v['alpha']).arith(), I.num(v['d']).arith(), I.num(v['m']).arith(), I.num(v['N']).arith(), v['overlapping'], v['modified'])
    I.assume(gt(t, ZERO))
    return Num(t, 'f')


def noise_id_term(src, n, af, dtype, dmin, dmax):
    return appI('NID', src, n, lift(af), sym('dt:' + dtype, 'I'), lift(dmin), lift(dmax))


def autocorr_contract(I, v):
    """(integer exponent, exponent, difference order, rho) determined by the data and the settings (value: C20)"""
    x = v['x']
    n = length(I, x)
    src = series_data(I, x, n)
    if not isinstance(v['data_type'], str):
        return NotImplemented
    a = noise_id_term(src, n, I.num(v['af']).arith(), v['data_type'], I.num(v['dmin']).arith(), I.num(v['dmax']).arith())
    return (Num(a, 'i'), Num(app('NIDa', a), 'f'), Num(appI('NIDd', a), 'i'), Num(app('NIDr', a), 'f'))


def series_data(I, x, n):
    w = fresh('w', 'I')
    return mk_afn([w], arr_elem(I, x, w).arith(), [n])


CI_DEVS = {'adev': (2, False, False), 'oadev': (2, True, False), 'mdev': (2, True, True), 'tdev': (2, True, True),
           'hdev': (3, False, False), 'ohdev': (3, True, False)}


def ci_noise_unit(ctx, dev_type, data_type, kind='array'):
    I = ctx.I
    I.contracts[CI + '.edf_greenhall'] = edf_greenhall_contract
    I.contracts[CI + '.autocorr_noise_id'] = autocorr_contract
    I.only = lambda n: '.frame.' not in n
    N, dv, af, lev = sym('N', 'I'), sym('dev'), sym('af', 'I'), sym('ci')
    X = arrsym('x', 'R')
    w = fresh('w', 'I')
    src = mk_afn([w], sel(X, w), [N])
    lab = 'confidence_interval_noiseID(%s,%s)' % (dev_type, data_type)
    known = dev_type in CI_DEVS

    def args():
        return [ctx.series('x', N, kind)[0], Num(dv, 'f'), Num(af, 'i')]

    def check(v):
        if not known:
            I.oblige(lab + '.rejected', FALSE)
            return
        d, ov, mo = CI_DEVS[dev_type]
        alpha = noise_id_term(src, N, af, data_type, 0, 3 if d == 3 else 2)
        lo, hi = limits(dv, edf_g(alpha, d, af, N, ov, mo), lev)
        pair_check(I, lab, v, lo, hi)
    raises = None if known else {'NotImplementedError': TRUE, 'ValueError': TRUE, 'KeyError': TRUE, 'RuntimeError': TRUE}

    def capture(o, decs):
        ctx.paths += 1
        if o[0] == 'raise':
            if not known and o[1].name not in ('NameError', 'UnboundLocalError', 'AttributeError', 'TypeError'):
                ctx.covers += 1
                I.oblige(lab + '.rejected', TRUE)
            else:
                I.oblige('%s.no-exception[%s]' % (lab, o[1].name), FALSE)
            return
        ctx.covers += 1
        check(o[1])
    return ctx.run(CI, 'confidence_interval_noiseID', args, dict(dev_type=dev_type, data_type=data_type, ci=Num(lev, 'f')),
                   [ge(N, ONE), ge(af, ONE), ge(dv, ZERO), ge(lev, const(F(1, 2))), lt(lev, ONE)], capture)


# ------------------------------------------------------------------ C19: tables of NIST SP1065
def edf_simple_spec(N, m, a):
    L = lambda t: app('log', t)
    if a == 2:
        return div(mul(add(N, ONE), sub(N, mulc(2, m))), mulc(2, sub(N, m)))
    if a == 1:
        return app('exp', app('sqrt', mul(L(div(sub(N, ONE), mulc(2, m))), L(div(mul(add(mulc(2, m), ONE), sub(N, ONE)), const(4))))))
    if a == 0:
        return mul(sub(div(mulc(3, sub(N, ONE)), mulc(2, m)), div(mulc(2, sub(N, const(2))), N)),
                   div(mulc(4, mul(m, m)), add(mulc(4, mul(m, m)), const(5))))
    if a == -1:
        one = div(mulc(2, sq(sub(N, const(2)))), sub(mul(dec('2.3'), N), dec('4.9')))
        gen = div(mulc(5, mul(N, N)), mul(mulc(4, m), add(N, mulc(3, m))))
        return ite(eq(m, ONE), one, gen)
    if a == -2:
        return mul(div(sub(N, const(2)), mul(m, sq(sub(N, const(3))))), add(sub(sq(sub(N, ONE)), mulc(3, mul(m, sub(N, ONE)))), mulc(4, mul(m, m))))


def edf_simple_unit(ctx, a, kind='i'):
    N, m = sym('N', 'I'), sym('m', 'I')
    # the table covers deviations with at least one difference; N = 2m (no difference) has zero degrees of freedom
    pre = [ge(m, ONE), ge(N, add(mulc(2, m), ONE)), ge(N, const(4))]
    I = ctx.I

    def want():
        w = edf_simple_spec(N, m, a)
        I.oblige('edf_simple(%d).lemma-positive' % a, gt(w, ZERO))      # what gradev relies on for complete data
        return w
    return scalar_unit(ctx, CI, 'edf_simple', [Num(N, kind), Num(m, kind), Num(const(a), 'i')], pre, want, 'edf_simple(%d)' % a)


T7 = {0: ('1.5', '0'), -1: ('1.17', '0.22'), -2: ('0.93', '0.36')}
T8 = {2: ('1.9', '2.1'), 1: ('1.2', '1.4'), 0: ('1.1', '1.2'), -1: ('0.85', '0.5'), -2: ('0.75', '0.31')}


def edf_tot_unit(ctx, which, a):
    N, m = sym('N', 'I'), sym('m', 'I')
    pre = [ge(m, ONE), ge(N, add(mulc(2, m), ONE)), ge(N, const(4))]
    T = T7 if which == 'edf_totdev' else T8

    def want():
        if a in T:
            return sub(mul(dec(T[a][0]), div(N, m)), dec(T[a][1]))
        return edf_simple_spec(N, m, a)
    return scalar_unit(ctx, CI, which, [Num(N, 'i'), Num(m, 'i'), Num(const(a), 'i')], pre, want, '%s(%d)' % (which, a))


# ------------------------------------------------------------------ C19: Greenhall-Riley
SWT, SXT, SZT = (lambda t, a: app('SW', lift(t), lift(a))), (lambda t, f, a: app('SX', lift(t), lift(f), lift(a))), \
    (lambda t, f, a, d: app('SZ', lift(t), lift(f), lift(a), lift(d)))


def cint(I, v, what):
    t = I.num(v).arith()
    if t.op != 'const':
        raise Unsupported('symbolic ' + what)
    return int(t.val)


def sw_spec(t, a):
    """Greenhall's s_w"""
    if a % 2:
        return ite(eq(t, ZERO), ZERO, mul(powi(t, 3 - a), app('log', absv(t))))
    return mulc(-1, absv(t)) if a == 2 else absv(powi(t, 3 - a))


def sw_contract(I, v):
    return Num(SWT(I.num(v['t']).arith(), cint(I, v['alpha'], 'alpha')), 'f')


def sx_contract(I, v):
    return Num(SXT(I.num(v['t']).arith(), I.num(v['F']).arith(), cint(I, v['alpha'], 'alpha')), 'f')


def sz_contract(I, v):
    """s_z, which is not zero at 0 (assumed: it is a variance up to a positive factor)"""
    t = I.num(v['t']).arith()
    r = SZT(t, I.num(v['F']).arith(), cint(I, v['alpha'], 'alpha'), cint(I, v['d'], 'd'))
    if t is ZERO:
        I.assume(ne(r, ZERO))
        I.trusted.add('greenhall_sz(0, ...) is not zero')
    return Num(r, 'f')


def sx_spec(t, f, a):
    if f is INF:
        return SWT(t, a + 2)
    w = div(ONE, f)
    return mul(mul(f, f), sub(mulc(2, SWT(t, a)), add(SWT(sub(t, w), a), SWT(add(t, w), a))))


def sz_spec(t, f, a, d):
    """(-1)^d times the 2d-th central difference of s_x"""
    r = ZERO
    for k in range(-d, d + 1):
        r = add(r, mulc((-1) ** k * comb(2 * d, d + k), SXT(add(t, const(k)), f, a)))
    return r


def bsum_spec(J, M, Sx, f, a, d):
    z = lambda j: sq(SZT(div(j, Sx), f, a, d))
    return add(sq(SZT(ZERO, f, a, d)), mul(sub(ONE, div(J, M)), z(J)), S(1, J, lambda j: mul(mulc(2, sub(ONE, div(j, M))), z(j))))


def bsum_term(J, M, Sx, f, a, d):
    return app('BSUM', lift(J), lift(M), lift(Sx), lift(f), lift(a), lift(d))


def bsum_contract(I, v):
    n = lambda k: I.num(v[k]).arith()
    I.oblige('greenhall_BasicSum.requires(1<=J<=M,S>0,F>0)', and_(ge(n('J'), ONE), le(n('J'), n('M')), gt(n('S'), ZERO),
             TRUE if n('F') is INF else gt(n('F'), ZERO)), kind='pre')
    r = bsum_term(n('J'), n('M'), n('S'), n('F'), cint(I, v['alpha'], 'alpha'), cint(I, v['d'], 'd'))
    I.assume(gt(r, ZERO))
    I.trusted.add('greenhall_BasicSum is positive')
    return Num(r, 'f')


def sw_unit(ctx, a):
    t = sym('t')
    return scalar_unit(ctx, CI, 'greenhall_sw', [Num(t, 'f'), Num(const(a), 'i')], [], lambda: sw_spec(t, a), 'greenhall_sw(%d)' % a)


def sx_unit(ctx, a, inf):
    ctx.I.contracts[CI + '.greenhall_sw'] = sw_contract
    t, f = sym('t'), INF if inf else sym('F')
    return scalar_unit(ctx, CI, 'greenhall_sx', [Num(t, 'f'), Num(f, 'f'), Num(const(a), 'i')], [] if inf else [gt(f, ZERO)],
                       lambda: sx_spec(t, f, a), 'greenhall_sx(%d,%s)' % (a, 'inf' if inf else 'F'))


def sz_unit(ctx, a, d, inf=False):
    ctx.I.contracts[CI + '.greenhall_sx'] = sx_contract
    t, f = sym('t'), INF if inf else sym('F')
    return scalar_unit(ctx, CI, 'greenhall_sz', [Num(t, 'f'), Num(f, 'f'), Num(const(a), 'i'), Num(const(d), 'i')], [] if inf else [gt(f, ZERO)],
                       lambda: sz_spec(t, f, a, d), 'greenhall_sz(alpha=%d,d=%d,%s)' % (a, d, 'inf' if inf else 'F'))


def bsum_unit(ctx, a, d):
    ctx.I.contracts[CI + '.greenhall_sz'] = sz_contract
    J, M, Sx, f = sym('J', 'I'), sym('M'), sym('S'), sym('F')
    return scalar_unit(ctx, CI, 'greenhall_BasicSum', [Num(J, 'f'), Num(M, 'f'), Num(Sx, 'f'), Num(f, 'f'), Num(const(a), 'i'), Num(const(d), 'i')],
                       [ge(J, ONE), le(J, M), gt(Sx, ZERO), gt(f, ZERO)], lambda: bsum_spec(J, M, Sx, f, a, d),
                       'greenhall_BasicSum(alpha=%d,d=%d)' % (a, d))


TAB1 = {2: ['2/3 1/3', '7/9 1/2', '22/25 2/3'], 1: ['0.840 0.345', '0.997 0.616', '1.141 0.843'],
        0: ['1.079 0.368', '1.033 0.607', '1.184 0.848'], -1: [None, '1.048 0.534', '1.180 0.816'],
        -2: [None, '1.302 0.535', '1.175 0.777'], -3: [None, None, '1.194 0.703'], -4: [None, None, '1.489 0.702']}
TAB2 = {2: ['3/2 1/2', '35/18 1', '231/100 3/2'], 1: ['78.6 25.2', '790 410', '9950 6520'],
        0: ['2/3 1/6', '2/3 1/3', '7/9 1/2'], -1: [None, '0.852 0.375', '0.997 0.617'],
        -2: [None, '1.079 0.368', '1.033 0.607'], -3: [None, None, '1.053 0.553'], -4: [None, None, '1.302 0.535']}
TAB3 = ['6 4', '15.23 12', '47.8 40']


def pair(s):
    a, b = s.split()
    return dec(a), dec(b)


JMAX = 100


def greenhall_spec(a, d, m, N, ov, mod):
    """inverse degrees of freedom by the published cases; (term, refused condition, unspecified condition)"""
    f, s = (ONE if mod else m), (m if ov else ONE)
    L = add(div(m, f), mulc(d, m))
    M = add(ONE, floor(div(mul(s, sub(N, L)), m)))
    J = tmin(M, mulc(d + 1, s))
    r = div(M, s)
    jm = const(JMAX)
    mp = div(jm, r)
    small, large = le(J, jm), gt(r, const(d + 1))
    tab = lambda T: (lambda ab: div(sub(ab[0], div(ab[1], r)), r))(pair(T[a][d - 1]))
    z0 = lambda fx: sq(SZT(ZERO, fx, a, d))
    if mod:
        c1 = div(bsum_term(J, M, s, ONE, a, d), mul(z0(ONE), M))
        c3 = div(bsum_term(jm, jm, mp, ONE, a, d), mulc(JMAX, z0(ONE)))
        return ite(small, c1, ite(large, tab(TAB1), c3)), FALSE, L, M, r, J
    if a <= 0:
        c1 = ite(le(mulc(d + 1, m), jm), div(bsum_term(J, M, s, m, a, d), mul(z0(m), M)), div(bsum_term(J, M, s, INF, a, d), mul(z0(INF), M)))
        c3 = div(bsum_term(jm, jm, mp, INF, a, d), mulc(JMAX, z0(INF)))
        return ite(small, c1, ite(large, tab(TAB2), c3)), FALSE, L, M, r, J
    if a == 1:
        b0, b1 = pair(TAB3[d - 1])
        g = sq(add(b0, mul(b1, app('log', m))))
        a0, a1 = pair(TAB2[1][d - 1])
        c1 = div(bsum_term(J, M, s, m, 1, d), mul(z0(m), M))
        c2 = div(sub(a0, div(a1, r)), mul(g, r))
        c3 = div(bsum_term(jm, jm, mp, mp, 1, d), mulc(JMAX, g))
        return ite(small, c1, ite(large, c2, c3)), FALSE, L, M, r, J
    a0, a1 = const(F(comb(4 * d, 2 * d), comb(2 * d, d) ** 2)), const(F(d, 2))
    return div(sub(a0, div(a1, r)), M), le(ceil(r), const(d)), L, M, r, J


def greenhall_unit(ctx, a, d, ov, mod):
    I = ctx.I
    I.contracts[CI + '.greenhall_sz'] = sz_contract
    I.contracts[CI + '.greenhall_BasicSum'] = bsum_contract
    m, N = sym('m', 'I'), sym('N', 'I')
    inv, refused, L, M, r, J = greenhall_spec(a, d, m, N, ov, mod)
    # at least one difference; the boundary r = d+1 of the two asymptotic forms is left open (either agrees in the tables' accuracy)
    pre = [ge(m, ONE), ge(sub(N, L), ZERO), or_(le(J, const(JMAX)), ne(r, const(d + 1)))]
    lab = 'edf_greenhall(alpha=%d,d=%d%s%s)' % (a, d, ',overlapping' if ov else '', ',modified' if mod else '')
    return scalar_unit(ctx, CI, 'edf_greenhall', [Num(const(a), 'i'), Num(const(d), 'i'), Num(m, 'i'), Num(N, 'i')], pre, None, lab,
                       kw=dict(overlapping=ov, modified=mod), raises={'NotImplementedError': refused} if refused is not FALSE else None,
                       check=lambda v: I.oblige_eq(lab + '.1/edf', div(ONE, number(I, lab, v)), inv))


# ------------------------------------------------------------------ C20
def one_tau_contract(fname):
    """public statistic at a single requested tau (rows, counts and values: C01, C03)"""
    D = DEFS[fname]

    def c(I, v):
        taus = v['taus']
        if isinstance(taus, PyList) and taus.items is not None and len(taus.items) == 1:
            t = I.num(taus.items[0]).arith()
        elif isinstance(taus, NDArray) and taus.ndim == 1 and taus.shape[0] is ONE:
            t = taus.get(ZERO).arith()
        else:
            return NotImplemented
        if v['data_type'] != 'phase':
            return NotImplemented
        rate = I.num(v['rate']).arith()
        x = v['data']
        n = length(I, x)
        src = series_data(I, x, n)
        m = floor(add(mul(t, rate), const(F(1, 2))))
        if mul(t, rate).sort == 'I':
            m = mul(t, rate)
        if not I.decide(and_(ge(m, ONE), lt(m, n), gt(D['n'](n, m), ONE))):
            raise PyExc('UserWarning')
        d2 = D['d'](n, m, lambda i: sel(src, i), rate)
        k = D['n'](n, m)
        d = app('sqrt', d2)
        I.assume(ge(d2, ZERO))
        one = lambda t_: I.np.new((ONE,), lambda i: Num(t_, 'f'), 'f')
        return (one(div(m, rate)), one(d), one(div(d, app('sqrt', k))), one(k))
    return c


AT_ = 'allantools.allantools'


def ratio_contracts(I):
    for f in ('adev', 'oadev', 'mdev', 'tdev', 'hdev', 'ohdev'):
        I.contracts[AT_ + '.' + f] = one_tau_contract(f)


def rn_unit(ctx, kind='array'):
    I = ctx.I
    ratio_contracts(I)
    N, rate, af = sym('N', 'I'), sym('rate'), sym('af', 'I')
    X = arrsym('x', 'R')
    x = lambda i: sel(X, i)
    a2, m2 = DEFS['adev']['d'](N, af, x, rate), DEFS['mdev']['d'](N, af, x, rate)
    # both statistics exist: at least two third-difference windows, and a deviation that is not zero
    pre = [ge(af, ONE), gt(rate, ZERO), ge(N, add(mulc(3, af), ONE)), gt(a2, ZERO)]
    return scalar_unit(ctx, CI, 'rn', lambda: [ctx.series('x', N, kind)[0], Num(af, 'i'), Num(rate, 'f')], pre,
                       lambda: div(m2, a2), 'rn(%s)' % kind)


def b1_unit(ctx, kind='array'):
    I = ctx.I
    ratio_contracts(I)
    N, rate, af = sym('N', 'I'), sym('rate'), sym('af', 'I')
    X = arrsym('x', 'R')
    x = lambda i: sel(X, i)
    a2 = DEFS['adev']['d'](N, af, x, rate)
    K = idiv(sub(N, ONE), af)
    pre = [ge(af, ONE), gt(rate, ZERO), ge(N, add(mulc(3, af), ONE)), gt(a2, ZERO)]
    y = lambda k: div(S(0, af, lambda j: mul(rate, sub(x(add(add(mul(k, af), j), ONE)), x(add(mul(k, af), j))))), af)
    mean = div(S(0, K, y), K)
    var = div(S(0, K, lambda k: sq(sub(y(k), mean))), sub(K, ONE))
    return scalar_unit(ctx, CI, 'b1', lambda: [ctx.series('x', N, kind)[0], Num(af, 'i'), Num(rate, 'f')], pre,
                       lambda: div(var, a2), 'b1(%s)' % kind)


def rn_theory_unit(ctx, b):
    af = sym('af', 'I')
    L = lambda t: app('log', t)
    pi = PI

    def want():
        if b == 0:
            return div(ONE, af)
        if b == -1:
            avar = div(add(dec('1.038'), mulc(3, L(mul(pi, af)))), mulc(4, sq(pi)))
            return div(div(mulc(3, L(const(F(256, 27)))), mulc(8, sq(pi))), avar)
        return ONE
    pre = [ge(af, ONE)]
    return scalar_unit(ctx, CI, 'rn_theory', [Num(af, 'i'), Num(const(b), 'i')], pre, want, 'rn_theory(b=%d)' % b)


def b1_theory_unit(ctx, mu):
    N = sym('N', 'I')

    def want():
        if mu == 0:
            return div(mul(N, app('log', N)), mulc(2, mul(sub(N, ONE), app('log', const(2)))))
        return div(mul(N, sub(ONE, powi(N, mu))), mulc(2, mul(sub(N, ONE), const(1 - F(2) ** mu))))
    return scalar_unit(ctx, CI, 'b1_theory', [Num(N, 'i'), Num(const(mu), 'i')], [ge(N, const(2))], want, 'b1_theory(mu=%d)' % mu)


MU = {0: -2, -1: -2, -2: -1, -3: 0, -4: 1, -5: 2, -6: 3}


def b_to_mu_unit(ctx, b):
    return scalar_unit(ctx, CI, 'b_to_mu', [Num(const(b), 'i')], [], const(MU[b]), 'b_to_mu(%d)' % b)


def acf_term(n, src):
    return app('ACF', n, src)


def acf_spec(n, x):
    mu = div(S(0, n, x), n)
    num = S(0, sub(n, ONE), lambda i: mul(sub(x(i), mu), sub(x(add(i, ONE)), mu)))
    return div(num, S(0, n, lambda i: sq(sub(x(i), mu))))


def lag1_unit(ctx, kind='array'):
    N = sym('N', 'I')
    X = arrsym('x', 'R')
    x = lambda i: sel(X, i)
    mu = div(S(0, N, x), N)
    pre = [ge(N, ONE), gt(S(0, N, lambda i: sq(sub(x(i), mu))), ZERO)]
    return scalar_unit(ctx, CI, 'lag1_acf', lambda: [ctx.series('x', N, kind)[0]], pre, lambda: acf_spec(N, x), 'lag1_acf(%s)' % kind)


def canon(I, n, src):
    """the specified series elementwise equal to this one, if any (congruence of the abstract functions)"""
    for gn, gs in getattr(I, 'ghosts', ()):
        if gn is n and gs is src:
            return n, src
    for gn, gs in getattr(I, 'ghosts', ()):
        w = fresh('w', 'I')
        try:
            P = Prover(list(I.hyps), Budget(20))
            if P.prove_eq(n, gn):
                Q = Prover(list(I.hyps) + [le(ZERO, w), lt(w, gn)], Budget(20))
                if Q.prove_eq(sel(src, w), sel(gs, w)):
                    return gn, gs
        except Timeout:
            pass
    return n, src


def lag1_contract(I, v):
    """the lag-1 autocorrelation of a series that is not constant; it exceeds -1 (Cauchy-Schwarz)"""
    n = length(I, v['x'])
    r = acf_term(*canon(I, n, series_data(I, v['x'], n)))
    I.assume(gt(r, const(-1)))
    I.trusted.add('lag1_acf > -1 (Cauchy-Schwarz); the series is not constant')
    return Num(r, 'f')


def detrend_contract(I, v):
    d = cint(I, v['deg'], 'degree')
    n = length(I, v['x'])
    gn, gs = canon(I, n, series_data(I, v['x'], n))
    return arr_from_data(I.heap, appA('DETR', 'R', gn, gs, const(d)), [gn], 'f')


def detrend_unit(ctx, deg, kind='array'):
    """residual of the least-squares polynomial over the sample index"""
    I = ctx.I
    I.only = lambda n: '.frame.' not in n
    N = sym('N', 'I')
    X = arrsym('x', 'R')
    v = fresh('v', 'I')
    T_ = mk_afn([v], v, [N])
    src = mk_afn([v], sel(X, v), [N])
    co = [app('polyfit', T_, src, N, const(deg), const(k)) for k in range(deg + 1)]

    def want(i):
        r = ZERO
        for k, c in enumerate(co):
            r = add(r, mul(c, powi(i, deg - k)))
        return sub(sel(X, i), r)
    lab = 'detrend(%d)' % deg
    return scalar_unit(ctx, CI, 'detrend', lambda: [ctx.series('x', N, kind)[0]], [ge(N, const(deg + 1))], None, lab,
                       kw=dict(deg=Num(const(deg), 'i')), check=lambda r: seq_eq(I, lab, r, N, want))


def noise_id_unit(ctx, data_type, dmin, dmax, kind='array'):
    I = ctx.I
    I.contracts[CI + '.lag1_acf'] = lag1_contract
    I.contracts[CI + '.detrend'] = detrend_contract
    N, af = sym('N', 'I'), sym('af', 'I')
    X = arrsym('x', 'R')
    w = fresh('w', 'I')
    if data_type == 'phase':
        n = add(idiv(sub(N, ONE), af), ONE)
        base, deg, add2 = mk_afn([w], sel(X, mul(w, af)), [n]), 2, 2
    else:
        n = idiv(N, af)
        base, deg, add2 = mk_afn([w], div(S(0, af, lambda j: sel(X, add(mul(w, af), j))), af), [n]), 1, 0
    lab = 'autocorr_noise_id(%s,%d,%d)' % (data_type, dmin, dmax)
    series = [appA('DETR', 'R', n, base, const(deg))]
    for k in range(dmax):
        v = fresh('w', 'I')
        p = series[-1]
        series.append(mk_afn([v], sub(sel(p, add(v, ONE)), sel(p, v)), [sub(n, const(k + 1))]))
    I.ghosts = [(n, base)] + [(sub(n, const(k)), z) for k, z in enumerate(series)]
    rho = []
    for k in range(dmax + 1):
        r1 = acf_term(sub(n, const(k)), series[k])
        rho.append(div(r1, add(ONE, r1)))

    def capture(o, decs):
        ctx.paths += 1
        short = lt(n, const(30))
        if o[0] == 'raise':
            if o[1].name in ('NotImplementedError', 'ValueError', 'RuntimeError'):
                ctx.covers += 1
                I.oblige(lab + '.refuses-only-short-series', short)
            else:
                I.oblige('%s.no-exception[%s]' % (lab, o[1].name), FALSE)
            return
        ctx.covers += 1
        I.oblige(lab + '.refuses-short-series', not_(short))
        r = o[1]
        if not isinstance(r, tuple) or len(r) != 4:
            I.oblige(lab + '.returns-four-values', FALSE)
            return
        ai, a, d, rh = [number(I, lab, x) for x in r]
        if None in (ai, a, d, rh):
            return
        if d.op != 'const' or not 0 <= int(d.val) <= dmax:
            I.oblige(lab + '.order-in-range', FALSE)
            return
        d = int(d.val)
        eqs = []
        I.oblige_eq(lab + '.rho', rh, rho[d])
        I.oblige(lab + '.order>=dmin', TRUE if d >= dmin else FALSE)
        h = len(I.hyps)
        I.hyps.append(eq(rh, rho[d]))
        if d < dmax:
            I.oblige(lab + '.stops-at-quarter', lt(rh, const(F(1, 4))))
        for k in range(dmin, d):
            I.oblige(lab + '.did-not-stop-before', ge(rho[k], const(F(1, 4))))
        I.oblige_eq(lab + '.alpha', a, add(mulc(-2, add(rh, const(d))), const(add2)))
        # rounding to nearest; at an exact tie either neighbour
        two = mulc(2, rh)
        f = floor(add(two, const(F(1, 2))))
        tie = eq(two, sub(f, const(F(1, 2))))
        want = lambda q: add(mulc(-1, q), const(add2 - 2 * d))
        I.oblige(lab + '.alpha_int', or_(eq(ai, want(f)), and_(tie, eq(ai, want(sub(f, ONE))))))
        del I.hyps[h:]
    return ctx.run(CI, 'autocorr_noise_id', lambda: [ctx.series('x', N, kind)[0], Num(af, 'i')], dict(data_type=data_type,
                   dmin=Num(const(dmin), 'i'), dmax=Num(const(dmax), 'i')), [ge(N, ONE), ge(af, ONE)], capture)
