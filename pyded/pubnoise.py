"""Contracts of the noise generators (C21, C22)."""
from fractions import Fraction as F
from .terms import *
from . import smt
from .values import *
from .contract import *
from .pubdev import S, sq, seq_eq
from .pubci import dec, number, scalar_unit
from .npfuncs import PI

NK = 'allantools.noise_kasdin'
NZ = 'allantools.noise'
LOG = lambda t: app('log', lift(t))
PWR = lambda a, b: power(lift(a), lift(b))


def noise_obj(ctx, nr, qd, b, via):
    I = ctx.I
    cls = I.get_func(NK, 'Noise')
    a = [Num(nr, 'i'), Num(qd, 'f'), Num(b, 'f' if b.op != 'const' or b.val.denominator != 1 else 'i')]
    if via == 'init':
        return I.call(cls, a, {})
    o = I.call(cls, [], {})
    I.call(I.getattr_(o, 'set_input'), [], dict(nr=a[0], qd=a[1], b=a[2]))
    return o


def kasdin_unit(ctx, via):
    """time_series[k] = sum_{j<=k} w_j h_{k-j}"""
    I = ctx.I
    nr, qd, b = sym('nr', 'I'), sym('qd'), sym('b')
    v = fresh('k', 'I')
    fac = mk_afn([v], ite(eq(v, ZERO), ONE, div(sub(sub(v, ONE), mulc(F(1, 2), b)), v)), [nr])
    I.ghosts = [(nr, fac)]
    lab = 'Noise.generateNoise(%s)' % via
    R = I.rng.stream
    H = lambda k: app('cumprod', fac, k)

    def go():
        I.assume(ge(nr, const(2)), ge(qd, ZERO))
        o = noise_obj(ctx, nr, qd, b, via)
        I.call(I.getattr_(o, 'generateNoise'), [], {})
        return I.getattr_(o, 'time_series')

    def capture(o, decs):
        ctx.paths += 1
        if o[0] == 'raise':
            I.oblige('%s.no-exception[%s]' % (lab, o[1].name), FALSE)
            return
        ctx.covers += 1
        seq_eq(I, lab, o[1], nr, lambda k: S(0, add(k, ONE), lambda j: mul(mul(app('sqrt', qd), sel(R, j)), H(sub(k, j)))))
    return I.explore(go, lambda o, d, s: capture(o, d))


def coeffs(b, tau, tau0):
    """published prefactors: allan, modified allan (per frequency PSD), parabolic (per phase PSD)"""
    fh = div(const(F(1, 2)), tau0)
    pi2 = sq(PI)
    if b == 0:
        return div(mulc(3, fh), mulc(4, pi2)), div(const(F(3, 8)), pi2), div(const(F(3, 2)), pi2)
    if b == -1:
        a = div(add(sub(mulc(3, dec('0.5772156649015329')), LOG(2)), mulc(3, LOG(mul(mul(mulc(2, PI), fh), tau)))), mulc(4, pi2))
        m = div(sub(mulc(24, LOG(2)), mulc(9, LOG(3))), mulc(8, pi2))
        return a, m, div(sub(mulc(3, LOG(16)), ONE), mulc(2, pi2))
    if b == -2:
        return const(F(1, 2)), const(F(1, 4)), const(F(3, 5))
    if b == -3:
        return mulc(2, LOG(2)), mulc(F(27, 20), LOG(2)), mulc(F(2, 5), sub(const(7), LOG(16)))
    return mulc(F(2, 3), pi2), mulc(F(11, 20), pi2), mulc(F(26, 35), pi2)


EXP = {'a': {0: -2, -1: -2, -2: -1, -3: 0, -4: 1}, 'm': {0: -3, -1: -2, -2: -1, -3: 0, -4: 1}}


def kasdin_closed(ctx, b, what):
    I = ctx.I
    nr, qd, t0, tau = sym('nr', 'I'), sym('qd'), sym('tau0'), sym('tau')
    tp = mulc(2, PI)
    g = mul(mulc(2, qd), mul(powi(tp, b), powi(t0, b + 1)))
    h = mul(mulc(2, qd), mul(powi(tp, b + 2), powi(t0, b + 1)))
    ca, cm, cp = coeffs(b, tau, t0)
    lab = 'Noise(b=%d).%s' % (b, what)
    two = [Num(t0, 'f'), Num(tau, 'f')]
    spec = {
        'phase_psd_from_qd': ([Num(t0, 'f')], g, False), 'frequency_psd_from_qd': ([Num(t0, 'f')], h, False),
        'adev_from_qd': (two, mul(ca, h), True), 'mdev_from_qd': (two, mul(cm, h), True),
        'pdev_from_qd': (two, mul(cp, mul(g, sq(tp))), True),
        'adev': (two, mul(mul(ca, h), powi(tau, EXP['a'][b])), True), 'mdev': (two, mul(mul(cm, h), powi(tau, EXP['m'][b])), True),
        'c_avar': ([], const(EXP['a'][b]), False), 'c_mvar': ([], const(EXP['m'][b]), False)}
    args, want, root = spec[what]

    def go():
        # averaging time at least one sampling interval 
        I.assume(ge(nr, const(2)), ge(qd, ZERO), gt(t0, ZERO), ge(tau, t0))
        o = noise_obj(ctx, nr, qd, const(b), 'init')
        return I.call(I.getattr_(o, what), args, {})

    def capture(o, decs):
        ctx.paths += 1
        if o[0] == 'raise':
            I.oblige('%s.no-exception[%s]' % (lab, o[1].name), FALSE)
            return
        ctx.covers += 1
        v = number(I, lab, o[1])
        if v is None:
            return
        if root:
            I.oblige(lab + '>=0', ge(v, ZERO))
            I.oblige_eq(lab + '^2', mul(v, v), want)
        else:
            I.oblige_eq(lab, v, want)
    return I.explore(go, lambda o, d, s: capture(o, d))


# ------------------------------------------------------------------ C22
def simple_noise(ctx, which):
    I = ctx.I
    n, lvl, fs = sym('n', 'I'), sym('level'), sym('fs')
    R = I.rng.stream
    g = lambda l, i: mul(app('sqrt', div(mul(l, fs), const(2))), sel(R, i))
    tp2 = sq(mulc(2, PI))

    def want(i):
        if which == 'white':
            return g(lvl, i)
        if which == 'brown':
            return div(S(0, add(i, ONE), lambda j: g(mul(lvl, tp2), j)), fs)
        l = div(lvl, tp2)
        return mul(fs, sub(g(l, add(i, ONE)), g(l, i)))
    return scalar_unit(ctx, NZ, which, [Num(n, 'i'), Num(lvl, 'f'), Num(fs, 'f')], [ge(n, ONE), ge(lvl, ZERO), gt(fs, ZERO)], None, which,
                       check=lambda r: seq_eq(I, which, r, n, want))


def located(f, FN, K):
    """what `the segment of f` means: a J in 1..K-1, with f_nodes[J-1] <= f < f_nodes[J] when there is one (the nodes increase)"""
    J = appI('segment', f, K)
    return implies(and_(le(sel(FN, ZERO), f), lt(f, sel(FN, sub(K, ONE)))),
                   and_(ge(J, ONE), lt(J, K), le(sel(FN, sub(J, ONE)), f), lt(f, sel(FN, J))))


class Search(object):
    """contract of the loop that looks for the segment of a frequency: only the pass of that segment does anything"""

    def __init__(self, lab, K, freq, FN):
        self.lab, self.K, self.freq, self.FN, self.used = lab, K, freq, FN, 0

    def run(self, I, st, it, fr):
        import ast
        from .loops import Abort, iter_view
        if len(I.loopvars) != 1:
            return False
        try:
            L, elem = iter_view(I, it)
        except (Unsupported, PyExc):
            return False
        if L.op == 'const' or not I.ent(eq(L, sub(self.K, ONE))):
            return False
        f = self.freq(I.loopvars[-1])
        J = appI('segment', f, self.K)
        I.hyp(located(f, self.FN, self.K))      # instance of a precondition
        if not I.ent(and_(ge(J, ONE), lt(J, self.K))):
            return False
        self.used += 1
        names = {n.id for b in [st.target] + st.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        broke = False
        other = not I.quiet and I.decide(appB('another_pass', J))
        at = sub(J, ONE)
        if other:
            at = I.skolem('pass')
            I.assume(ge(at, ZERO), lt(at, L), ne(at, sub(J, ONE)))
        I.assign(st.target, elem(at), fr)
        before = [(o, s) for o, s in I.heap.snapshot() if o is not I.sk and o is not fr]
        old = dict(fr.vars)
        old.update({n.id: None for n in ast.walk(st.target) if isinstance(n, ast.Name)})
        try:
            I.exec_block(st.body, fr)
        except Exception as e:
            if type(e).__name__ == 'BreakEx':
                broke = True
            elif type(e).__name__ != 'ContinueEx':
                raise
        if other:
            I.oblige(self.lab + '.only the segment of the frequency counts', FALSE if broke or any(o.get_state() != s for o, s in before) else TRUE)
            raise Abort()
        for n in names:
            # after a break the variables of this pass keep their values; those of other passes are not known
            if not broke or fr.vars.get(n) is old.get(n):
                fr.vars.pop(n, None)
        if not broke:
            I.exec_block(st.orelse, fr)
        return True


def timmer_unit(ctx, K, output='phase', seed=None):
    """K break frequencies; the number of samples, the spacing and the levels are arbitrary"""
    I = ctx.I
    dur, dt = sym('duration'), sym('timestep')
    K = sym('K', 'I') if K == 'K' else lift(K)       # 'K': any number of nodes, two or more
    FN, H, AL = arrsym('f_nodes', 'R'), arrsym('h', 'R'), arrsym('alpha', 'R')
    n = floor(div(dur, dt))
    half = idiv(n, const(2))
    f1, fn = div(ONE, mul(sub(n, ONE), dt)), div(const(F(1, 2)), dt)
    freq = lambda i: add(f1, div(mul(i, sub(fn, f1)), half))
    kseg = sym('segment', 'I')
    R = I.rng.stream if seed is None else appA('RNDseed', 'R', const(seed))

    def seg(f):
        """level of the segment that contains f"""
        if K.op != 'const':     # the segment J(f) with f_nodes[J-1] <= f < f_nodes[J]
            J = appI('segment', f, K)
            r = mul(sel(H, J), power(f, sel(AL, J)))
            r = ite(lt(f, sel(FN, sub(K, ONE))), r, mul(sel(H, K), power(f, sel(AL, K))))
            return ite(lt(f, sel(FN, ZERO)), mul(sel(H, ZERO), power(f, sel(AL, ZERO))), r)
        k = int(K.val)
        r = mul(sel(H, const(k)), power(f, sel(AL, const(k))))
        for q in reversed(range(k)):
            r = ite(lt(f, sel(FN, const(q))), mul(sel(H, const(q)), power(f, sel(AL, const(q)))), r)
        return r

    def amp(i):
        f = freq(i)
        return mulc(F(1, 2), app('sqrt', div(seg(f), sq(mul(mulc(2, PI), f)))))
    v = fresh('j', 'I')
    z = lambda j, o: sel(R, add(mulc(2, sub(j, ONE)), const(o)))
    re = mk_afn([v], ite(eq(v, ZERO), ZERO, ite(le(v, half), mul(amp(v), z(v, 0)), mul(amp(sub(n, v)), z(sub(n, v), 0)))), [n])
    im = mk_afn([v], ite(eq(v, ZERO), ZERO, ite(le(v, half), mul(amp(v), z(v, 1)), mulc(-1, mul(amp(sub(n, v)), z(sub(n, v), 1))))), [n])
    I.ghosts = [(n, re), (n, im)]
    x = lambda k: mul(app('ifft_re', re, im, n, k), app('sqrt', div(sub(n, ONE), dt)))
    lab = 'timmer_koenig_from_psd(%s nodes,%s%s)' % (K.val if K.op == 'const' else 'K', output, '' if seed is None else ',seed')
    i = fresh('i', 'I')
    mono = forall(i, ZERO, sub(K, ONE), lt(sel(FN, i), sel(FN, add(i, ONE))))
    pos = forall(i, ZERO, add(K, ONE), ge(sel(H, i), ZERO))

    def args():
        a = [arr_from_data(I.heap, FN, [K], 'f'), arr_from_data(I.heap, H, [add(K, ONE)], 'f'), arr_from_data(I.heap, AL, [add(K, ONE)], 'f'),
             Num(dur, 'f'), Num(dt, 'f')]
        return a
    pre = [gt(dt, ZERO), gt(dur, ZERO), ge(n, const(4))]
    if K.op == 'const':
        k = int(K.val)
        pre += [lt(sel(FN, const(q)), sel(FN, const(q + 1))) for q in range(k - 1)] + [ge(sel(H, const(q)), ZERO) for q in range(k + 1)]
    else:
        b2 = fresh('j', 'I')
        pre += [ge(K, const(2)), forall(i, ZERO, K, forall(b2, i, K, le(sel(FN, i), sel(FN, b2)))), pos,
                forall(i, ZERO, add(half, ONE), located(freq(i), FN, K))]
    if K.op != 'const':
        I.loop_specs = [Search(lab, K, freq, FN)]
    # the frequencies are positive: a lemma, discharged here, then available to the execution
    q, a, b, hh = sym('lem_i', 'I'), sym('lem_f1'), sym('lem_fn'), sym('lem_half', 'I')
    LH = [gt(a, ZERO), gt(b, ZERO), le(ZERO, q), le(q, hh), ge(hh, ONE)]
    lin = div(add(mul(a, sub(hh, q)), mul(b, q)), hh)
    I.oblige(lab + '.lemma.interpolation-positive', gt(lin, ZERO), LH + [or_(lt(q, hh), eq(q, hh))], kind='lemma')
    I.oblige_eq(lab + '.lemma.interpolation', add(a, div(mul(q, sub(b, a)), hh)), lin, LH, kind='lemma')
    pre.append(forall(i, ZERO, add(half, ONE), gt(freq(i), ZERO)))
    kw = dict(output=output, seed=None if seed is None else Num(const(seed), 'i'))

    def check(r):
        # the spectrum handed to the inverse transform, element by element
        arrs = {}
        k0 = sym('some_k', 'I')
        h0 = len(I.hyps)
        I.hyps += [le(ZERO, k0), lt(k0, n)]
        el = arr_elem(I, r, k0) if col_len(I, r) is not None else None
        del I.hyps[h0:]
        if el is not None:
            for t in subterms(el.arith()):
                if t.op == 'app' and t.val == 'ifft_re':
                    arrs[t.args[:3]] = 1
        X = x
        if len(arrs) == 1:
            (cr, ci, cn), = arrs
            I.oblige_eq(lab + '.spectrum.length', cn, n)
            q = sym('bin', 'I')
            I.hyps += [le(ZERO, q), lt(q, n)]
            I.oblige_eq(lab + '.spectrum.real part', sel(cr, q, force=True), sel(re, q, force=True))
            I.oblige_eq(lab + '.spectrum.imaginary part', sel(ci, q, force=True), sel(im, q, force=True))
            I.oblige_eq(lab + '.spectrum.zero mean', sel(cr, ZERO, force=True), ZERO)
            del I.hyps[h0:]
            # proved equal for every bin: interchangeable in the value below
            X = lambda k: mul(app('ifft_re', cr, ci, cn, k), app('sqrt', div(sub(n, ONE), dt)))
        if output == 'phase':
            seq_eq(I, lab, r, n, X)
        else:
            seq_eq(I, lab, r, n, lambda k: ite(eq(k, ZERO), ZERO, div(sub(X(k), X(sub(k, ONE))), dt)))
    return scalar_unit(ctx, NZ, 'timmer_koenig_from_psd', args, pre, None, lab, kw=kw, check=check)
