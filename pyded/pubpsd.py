"""Power spectral density conversions (C23)."""
from fractions import Fraction as F
from .terms import *
from . import smt
from .values import *
from .contract import *
from .pubdev import S, sq, seq_eq
from .npfuncs import PI, integral, ZPOS as ZVAR

AT = 'allantools.allantools'


def to_adev_unit(ctx, kind='array'):
    """psd_piecewise_to_adev: sqrt(2 sum_i h_i/(pi tau)^(alpha_i+1) * integral over [pi tau f_{i-1}, pi tau f_i] of sin^4 z / z^(2-alpha_i))"""
    I = ctx.I
    M, T = sym('M', 'I'), sym('T', 'I')
    v = fresh('k', 'I')
    lab = 'psd_piecewise_to_adev(%s)' % kind
    H, A, FN, TA = [arrsym(q, 'R') for q in ('h', 'alpha', 'f_nodes', 'taus')]

    def go():
        I.assume(ge(M, ONE), ge(T, ONE), forall(v, ZERO, M, gt(sel(H, v), ZERO)), forall(v, ZERO, T, gt(sel(TA, v), ZERO)),
                 forall(v, ZERO, sub(M, ONE), gt(sel(FN, v), ZERO)), forall(v, ONE, sub(M, ONE), lt(sel(FN, sub(v, ONE)), sel(FN, v))))
        a = [ctx.series(q, n, kind)[0] for q, n in (('h', M), ('alpha', M), ('f_nodes', sub(M, ONE)), ('taus', T))]
        return I.call(I.get_func(AT, 'psd_piecewise_to_adev'), a, {})

    def capture(o, d):
        ctx.paths += 1
        if o[0] == 'raise':
            I.oblige(lab + '.no-exception[%s]' % o[1].name, FALSE)
            return o[1].name
        ctx.covers += 1
        out = o[1]
        L = col_len(I, out)
        if L is None:
            I.oblige(lab + '.is-a-column', FALSE)
            return
        I.oblige_eq(lab + '.length', L, T)
        k = sym('row_k', 'I')
        h0 = len(I.hyps)
        I.hyps += [le(ZERO, k), lt(k, T), gt(sel(TA, k), ZERO)]
        x = arr_elem(I, out, k)
        tau = sel(TA, k)
        edge = lambda i: ite(eq(i, ZERO), ZERO, ite(lt(i, M), sel(FN, sub(i, ONE)), INF))
        pt = mul(PI, tau)
        sin = app('sin', ZVAR)
        seg = lambda i: mul(div(sel(H, i), power(pt, add(sel(A, i), ONE))),
                            integral(mul(pt, edge(i)), mul(pt, edge(add(i, ONE))),
                                     div(sq(sq(sin)), power(ZVAR, sub(const(2), sel(A, i))))))
        I.oblige(lab + '.finite', not_(x.nan))
        I.oblige(lab + '.adev>=0', ge(x.arith(), ZERO))
        I.oblige_eq(lab + '.adev^2', sq(x.arith()), mulc(2, S(0, M, seg)))
        del I.hyps[h0:]
        return 'return'
    return I.explore(go, lambda o, d, s: capture(o, d))


# ---------------------------------------------------------------- deviation -> PSD
class Slopes(object):
    """contract of the loop that collects the local slopes: starting from the first two points, a point is kept exactly when
    its slope differs from the last kept one by more than tol; the three lists grow together.
    Base case, step from any state satisfying the invariant, and the state after the last point are three paths."""

    def __init__(self, lab, N, A, T, tol):
        self.lab, self.N, self.A, self.T, self.tol = lab, N, A, T, tol
        self.C, self.IDX = sym('nseg', 'I'), arrsym('seg_idx', 'I')
        self.MU, self.FA, self.FT = arrsym('seg_mu', 'R'), arrsym('seg_adev', 'R'), arrsym('seg_tau', 'R')
        self.used = False

    def slope(self, i):
        L = lambda t: app('log', t)
        p = sub(i, ONE)
        return div(mulc(2, sub(L(sel(self.A, i)), L(sel(self.A, p)))), sub(L(sel(self.T, i)), L(sel(self.T, p))))

    def lists(self, c):
        return {'mu': (c, lambda k: sel(self.MU, k)), 'a': (add(c, ONE), lambda k: sel(self.FA, k)), 't': (add(c, ONE), lambda k: sel(self.FT, k))}

    def invariant(self, c, i):
        """after the points before i: c slopes kept; the kept points are IDX[0] = 0, IDX[1] = 1, IDX[2], .."""
        v = fresh('k', 'I')
        ix = lambda k: sel(self.IDX, k)
        nx = add(v, ONE)
        n = add(c, ONE)
        return [ge(c, ONE), lt(c, i), eq(ix(ZERO), ZERO), eq(ix(ONE), ONE), forall(v, ZERO, n, and_(ge(ix(v), ZERO), lt(ix(v), i))),
                forall(v, ZERO, c, lt(ix(v), ix(nx))),
                forall(v, ZERO, n, eq(sel(self.FA, v), sel(self.A, ix(v)))), forall(v, ZERO, n, gt(sel(self.FA, v), ZERO)),
                forall(v, ZERO, n, eq(sel(self.FT, v), sel(self.T, ix(v)))), forall(v, ZERO, n, gt(sel(self.FT, v), ZERO)),
                forall(v, ZERO, c, eq(sel(self.MU, v), self.slope(ix(nx)))),
                forall(v, ZERO, sub(c, ONE), gt(app('abs', sub(sel(self.MU, nx), sel(self.MU, v))), self.tol))]

    def match(self, I, st, it, fr):
        if not (isinstance(it, Range) and it.start is ONE and it.step is ONE and it.stop is self.N):
            return None
        roles = {}
        for n, v in fr.vars.items():
            if isinstance(v, PyList) and v.items is not None and not v.appends:
                if v.items == []:
                    roles.setdefault('mu', v)
                elif len(v.items) == 1 and isinstance(v.items[0], Num):
                    for r, X in (('a', self.A), ('t', self.T)):
                        if v.items[0].term is sel(X, ZERO):
                            roles.setdefault(r, v)
        return roles if len(roles) == 3 else None

    def run(self, I, st, it, fr):
        import ast
        from .loops import Abort
        roles = self.match(I, st, it, fr)
        if roles is None:
            return False
        self.used = True
        names = {n.id for b in st.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        base = I.decide(eq(sym('phase', 'I'), ZERO))
        step = False if base else I.decide(eq(sym('phase', 'I'), ONE))
        i = ONE if base else sym('point', 'I') if step else self.N
        if not base:
            I.assume(*self.invariant(self.C, i))
            if step:
                I.assume(lt(i, self.N))
            for r, (n, g) in self.lists(self.C).items():
                roles[r].items, roles[r].length, roles[r].get_ = None, n, (lambda k, g=g: Num(g(k), 'f'))
            if step:
                I.assume(ge(i, const(2)))
        for n in names:
            fr.vars.pop(n, None)
        if not base and not step:
            I.assign(st.target, Num(sub(self.N, ONE), 'i'), fr)
            return True
        before = {r: (v.items, v.length, v.get_) for r, v in roles.items()}
        I.assign(st.target, Num(i, 'i'), fr)
        try:
            I.exec_block(st.body, fr)
        except Exception as e:
            if type(e).__name__ in ('BreakEx', 'ContinueEx'):
                raise Unsupported('break or continue in the slope loop')
            raise
        kept = TRUE if base else gt(app('abs', sub(self.slope(i), sel(self.MU, sub(self.C, ONE)))), self.tol)
        c = ZERO if base else self.C
        new = {'mu': self.slope(i), 'a': sel(self.A, i), 't': sel(self.T, i)}
        for r, v in sorted(roles.items()):
            lab = '%s.%s[%s]' % (self.lab, 'first slope' if base else 'next slope', r)
            n0 = c if r == 'mu' else add(c, ONE)
            I.oblige_eq(lab + '.length', v.len(), ite(kept, add(n0, ONE), n0))
            H = I.hyps + [kept]
            from .prove import Prover, Budget
            if Prover(list(I.hyps), Budget(20)).prove(kept):
                I.oblige_eq(lab + '.new element', arr_elem(I, v, n0).arith(), new[r])
            if not base:
                k = sym('kept_k', 'I')
                I.hyps += [le(ZERO, k), lt(k, n0)]
                I.oblige_eq(lab + '.earlier elements', arr_elem(I, v, k).arith(), self.lists(self.C)[r][1](k))
                del I.hyps[-2:]
        raise Abort()


def from_adev_unit(ctx, vt='adev', kind='array'):
    """adev2psd_piecewise_approx"""
    I = ctx.I
    N, N2, tol = sym('N', 'I'), sym('N2', 'I'), sym('mu_tol')
    A, T = arrsym('adev', 'R'), arrsym('taus', 'R')
    v = fresh('k', 'I')
    lab = 'adev2psd_piecewise_approx(%s,%s)' % (vt, kind)
    spec = Slopes(lab, N, A, T, tol)
    I.loop_specs = [spec]
    C = spec.C
    top = 2 if vt.lower() == 'adev' else 4

    def good():
        return [eq(N, N2), ge(N, const(2)), forall(v, ZERO, N, gt(sel(A, v), ZERO)), forall(v, ZERO, N2, gt(sel(T, v), ZERO)),
                forall(v, ZERO, sub(N2, ONE), gt(sub(sel(T, add(v, ONE)), sel(T, v)), ZERO))]
    MU = spec.lists(C)['mu'][1]
    conv = lambda k: and_(ge(MU(k), const(-2)), le(MU(k), const(top)))

    def go():
        I.assume(ge(N, ZERO), ge(N2, ZERO), ge(tol, ZERO))
        a, t = ctx.series('adev', N, kind)[0], ctx.series('taus', N2, kind)[0]
        return I.call(I.get_func(AT, 'adev2psd_piecewise_approx'), [a, t], dict(vartype=vt, mu_tol=Num(tol, 'f')))

    def capture(o, d):
        ctx.paths += 1
        if o[0] == 'raise':
            nm = o[1].name
            H = I.hyps + good() + ([forall(v, ZERO, C, conv(v))] if spec.used else [])
            I.oblige(lab + ('.refuses only bad input' if nm == 'ValueError' else '.no-exception[%s]' % nm), FALSE, H)
            return nm
        ctx.covers += 1
        for k, g in enumerate(good()):
            I.oblige(lab + '.accepts only %s' % ('equal lengths', 'two points or more', 'positive deviations', 'positive taus', 'increasing taus')[k], g)
        if not spec.used:
            raise Unsupported('slope loop')
        k = sym('row_k', 'I')
        inr = [le(ZERO, k), lt(k, C)]
        I.oblige(lab + '.accepts only convergent slopes', conv(k), I.hyps + inr)
        out = o[1]
        if not isinstance(out, tuple) or len(out) != 4:
            I.oblige(lab + '.four results', FALSE)
            return
        fn, sy, h, al = out
        for nm, x, n in (('f_nodes', fn, sub(C, ONE)), ('Sy_nodes', sy, sub(C, ONE)), ('h', h, C), ('alpha', al, C)):
            L = col_len(I, x)
            if L is None:
                I.oblige(lab + '.%s.is-a-column' % nm, FALSE)
                return
            I.oblige_eq(lab + '.%s.length' % nm, L, n)
        h0 = len(I.hyps)
        I.hyps += inr
        rev = lambda j: sub(sub(C, ONE), j)
        I.oblige_eq(lab + '.alpha', arr_elem(I, al, k).arith(), sub(mulc(-1, MU(rev(k))), ONE))
        mu = MU(rev(k))
        a, t = sel(spec.FA, add(rev(k), ONE)), sel(spec.FT, add(rev(k), ONE))
        sin = app('sin', ZVAR)
        q = ONE if top == 2 else mulc(F(4, 3), sq(sin))
        J = integral(ZERO, INF, div(mul(q, sq(sq(sin))), power(ZVAR, add(const(3), mu))), 'strict')
        can = lambda x: powcanon(x, lambda y: y in smt.POSITIVE or I_pos(I, y))
        hv = arr_elem(I, h, k).arith()
        I.oblige_eq(lab + '.level reproduces the segment', can(mulc(2, mul(mul(hv, J), power(mul(PI, t), mu)))), sq(a))
        del I.hyps[h0:]
        I.hyps += [le(ZERO, k), lt(k, sub(C, ONE))]
        f = arr_elem(I, fn, k).arith()
        hk, hn = arr_elem(I, h, k).arith(), arr_elem(I, h, add(k, ONE)).arith()
        ak, an = arr_elem(I, al, k).arith(), arr_elem(I, al, add(k, ONE)).arith()
        I.oblige(lab + '.f_nodes > 0', gt(f, ZERO))
        I.oblige_eq(lab + '.the power laws meet at the break', can(mul(power(f, sub(an, ak)), hn)), can(hk))
        I.oblige_eq(lab + '.Sy_nodes', can(arr_elem(I, sy, k).arith()), can(mul(hk, power(f, ak))))
        del I.hyps[h0:]
        return 'return'
    return I.explore(go, lambda o, d, s: capture(o, d))


def I_pos(I, y):
    from .prove import Prover, Budget
    return smt.pos_h(list(I.hyps), y) or Prover(list(I.hyps), Budget(20)).prove(gt(y, ZERO))


def roundtrip_unit(ctx, vt='adev'):
    """one segment: the PSD obtained from two points converts back to the power law through the second one"""
    I = ctx.I
    lab = 'adev -> PSD -> adev'
    a0, a1, t0, t1, tau = [sym(q) for q in ('adev_0', 'adev_1', 'tau_0', 'tau_1', 'tau')]

    def go():
        I.assume(gt(a0, ZERO), gt(a1, ZERO), gt(t0, ZERO), gt(t1, t0), gt(tau, ZERO))
        f = lambda n: I.get_func(AT, n)
        L = lambda *x: PyList(I.heap, [Num(y, 'f') for y in x])
        r = I.call(f('adev2psd_piecewise_approx'), [L(a0, a1), L(t0, t1)], dict(vartype=vt))
        fn, sy, h, al = r
        return h, al, I.call(f('psd_piecewise_to_adev'), [h, al, fn, L(tau)], {})

    def capture(o, d):
        ctx.paths += 1
        if o[0] == 'raise':
            mu = div(mulc(2, sub(app('log', a1), app('log', a0))), sub(app('log', t1), app('log', t0)))
            I.oblige(lab + '.refuses only divergent slopes', FALSE, I.hyps + ([ge(mu, const(-2)), le(mu, const(2))] if o[1].name == 'ValueError' else []))
            return o[1].name
        ctx.covers += 1
        h, al, out = o[1]
        mu = sub(mulc(-1, arr_elem(I, al, ZERO).arith()), ONE)
        I.oblige_eq(lab + '.slope', mu, div(mulc(2, sub(app('log', a1), app('log', a0))), sub(app('log', t1), app('log', t0))))
        can = lambda x: powcanon(x, lambda y: y in smt.POSITIVE or I_pos(I, y))
        x = arr_elem(I, out, ZERO).arith()
        I.oblige_eq(lab + '.adev^2', can(mul(sq(x), power(t1, mu))), can(mul(sq(a1), power(tau, mu))))
        return 'return'
    return I.explore(go, lambda o, d, s: capture(o, d))


def refuse_unit(ctx, case):
    """inputs adev2psd_piecewise_approx must refuse whatever the values"""
    I = ctx.I
    N = sym('N', 'I')
    lab = 'adev2psd_piecewise_approx(%s)' % case

    def go():
        I.assume(ge(N, const(2)))
        a, t = ctx.series('adev', N, 'array')[0], ctx.series('taus', N, 'array')[0]
        kw = {}
        if case == 'unknown variance':
            kw = {'vartype': 'oadev'}
        return I.call(I.get_func(AT, 'adev2psd_piecewise_approx'), [a, t], kw)

    def capture(o, d):
        ctx.paths += 1
        if o[0] == 'raise':
            ctx.covers += 1
            if o[1].name != 'ValueError':
                I.oblige(lab + '.ValueError[%s]' % o[1].name, FALSE)
            else:
                I.oblige(lab + '.refused', TRUE)
            return o[1].name
        I.oblige(lab + '.refused', FALSE)
    return I.explore(go, lambda o, d, s: capture(o, d))


# ---------------------------------------------------------------- PSD -> deviation by quadrature
def psd2allan_unit(ctx, form, kind, base):
    """psd2allan: every row is the Simpson sum, over quarter steps of the frequency grid up to its end, of
    2 S(f) |sin(pi f tau)^(k+1) / (pi f tau)^k|^2, S the cubic interpolant of the given samples; tau = m/f_max, m a positive integer"""
    I = ctx.I
    M, D, B = sym('M', 'I'), sym('df', 'R'), sym('base', 'R')
    v = fresh('k', 'I')
    lab = 'psd2allan(%s,%s,base%s1)' % (form, kind, base)
    SY, FQ = arrsym('S_y', 'R'), arrsym('f', 'R')
    k = 2 if kind[0].lower() == 'm' else 1
    smt.NONNEG_APPS.add('spline_cubic')      # precondition: the interpolated density is nowhere negative
    smt.APP_FACTS['spline_cubic'] = lambda x: [ge(x, ZERO)]

    def go():
        I.assume(ge(M, const(4)), forall(v, ZERO, M, ge(sel(SY, v), ZERO)))
        a = [ctx.series('S_y', M)[0]]
        if form == 'vector':
            I.assume(lt(sel(FQ, ZERO), sel(FQ, ONE)))
            a.append(ctx.series('f', M)[0])
        elif form == 'step':
            I.assume(gt(D, ZERO))
            a.append(Num(D, 'f'))
        if base == '>':
            I.assume(gt(B, ONE))
        else:
            I.assume(le(B, ONE))
        return I.call(I.get_func(AT, 'psd2allan'), a, {'kind': kind, 'base': Num(B, 'f')})

    def capture(o, d):
        ctx.paths += 1
        if o[0] == 'raise':
            I.oblige(lab + '.no-exception[%s]' % o[1].name, FALSE)
            return o[1].name
        ctx.covers += 1
        ts, ad = o[1]
        L, L2 = col_len(I, ts), col_len(I, ad)
        if L is None or L2 is None:
            I.oblige(lab + '.columns', FALSE)
            return
        df = D if form == 'step' else ONE if form == 'default' else sub(sel(FQ, ONE), sel(FQ, ZERO))
        fmax = mul(sub(M, ONE), df)
        I.oblige_eq(lab + '.columns-of-one-length', L, L2)
        r = sym('row_k', 'I')
        h0 = len(I.hyps)
        I.hyps += [le(ZERO, r), lt(r, L)]
        tau, tau1, x = arr_elem(I, ts, r), arr_elem(I, ts, add(r, ONE)), arr_elem(I, ad, r)
        m = mul(tau.arith(), fmax)
        I.oblige(lab + '.tau-not-nan', not_(tau.nan))
        I.oblige(lab + '.tau-is-a-multiple-of-1/fmax', eq(m, floor(m)))
        I.oblige(lab + '.tau>=1/fmax', ge(m, ONE))
        I.oblige(lab + '.taus-increase', implies(lt(add(r, ONE), L), lt(tau.arith(), tau1.arith())))
        if base != '>':
            I.oblige_eq(lab + '.every-multiple', m, add(r, ONE))
            I.oblige(lab + '.below-half-of-1/df', lt(m, div(sub(M, ONE), const(2))))
            I.oblige(lab + '.up-to-half-of-1/df', ge(add(L, ONE), div(sub(M, ONE), const(2))))
        spline = lambda u: app('spline_cubic', SYA(I, SY, M), M, u)

        def g(j):
            a = mul(PI, mul(div(mul(j, df), const(4)), tau.arith()))
            t = div(power(app('sin', a), const(k + 1)), power(a, const(k)))
            return ite(eq(j, ZERO), ZERO, mul(spline(div(j, const(4))), sq(t)))
        val = mul(mulc(F(1, 6), df), S(0, mulc(2, sub(M, ONE)), lambda p: add(g(mulc(2, p)), add(mulc(4, g(add(mulc(2, p), ONE))), g(add(mulc(2, p), const(2)))))))
        I.oblige_eq(lab + '.ad^2', sq(x.arith()), val)
        del I.hyps[h0:]
        return 'return'
    return I.explore(go, lambda o, d, s: capture(o, d))


def SYA(I, SY, M):
    v = fresh('e', 'I')
    return mk_afn([v], sel(SY, v), [M])


def psd2allan_refuse_unit(ctx, what):
    """psd2allan refuses a spectrum or frequency argument that is not an array (or step) with ValueError"""
    I = ctx.I
    M = sym('M', 'I')

    def go():
        I.assume(ge(M, const(4)))
        a = [ctx.series('S_y', M, 'list' if what == 'list spectrum' else 'array')[0]]
        if what == 'list frequencies':
            a.append(ctx.series('f', M, 'list')[0])
        return I.call(I.get_func(AT, 'psd2allan'), a, {})

    def capture(o, d):
        ctx.paths += 1
        ctx.covers += 1
        I.oblige('psd2allan.refuses[%s]' % what, TRUE if o[0] == 'raise' and o[1].name == 'ValueError' else FALSE)
        return o[0]
    return I.explore(go, lambda o, d, s: capture(o, d))
