"""Realtime statistics (C16, C17): class invariants over every history of add_phase / add_frequency."""
from fractions import Fraction as F
from .terms import *
from . import smt
from .values import *
from .contract import *
from .pubdev import S, sq, d2, d3, DEFS, seq_eq, subst_any, beta
from .pubrel import not_frame
from .prove import Prover, Budget

RT = 'allantools.realtime'
CLS = {'oadev': 'oadev_realtime', 'ohdev': 'ohdev_realtime', 'tdev': 'tdev_realtime'}
ATTRS = {'x', 'afs', 'auto_afs', 'af_taus', 'af_idx', 'af_decade', 'dev', 'tau0', 'S'}
LO = {'oadev': 2, 'ohdev': 3, 'tdev': 2}


def invariant(stat, n, x, af, t0):
    """internal sums and deviation of one averaging factor after n points"""
    if stat == 'oadev':
        c = sub(n, mulc(2, af))
        s = ite(le(c, ZERO), ZERO, S(0, c, lambda i: sq(d2(x, i, af))))
        d = ite(le(c, ZERO), ZERO, app('sqrt', div(s, mulc(2, mul(mul(sq(af), sq(t0)), c)))))
        return {'S': s}, d
    if stat == 'ohdev':
        c = sub(n, mulc(3, af))
        s = ite(le(c, ZERO), ZERO, S(0, c, lambda i: sq(d3(x, i, af))))
        d = ite(le(c, ZERO), ZERO, app('sqrt', div(s, mulc(6, mul(mul(sq(af), sq(t0)), c)))))
        return {'S': s}, d
    c2, c3 = sub(n, mulc(2, af)), sub(n, mulc(3, af))
    v = lambda p: S(p, add(p, af), lambda i: d2(x, i, af))
    s = ite(le(c2, ZERO), ZERO, ite(le(c3, ZERO), S(0, c2, lambda i: d2(x, i, af)), v(c3)))
    so = ite(lt(c3, ZERO), ZERO, S(0, add(c3, ONE), lambda p: sq(v(p))))
    d = ite(lt(c3, ZERO), ZERO, app('sqrt', div(so, mulc(6, mul(add(c3, ONE), sq(af))))))
    return {'S': s, 'So': so}, d


def obj_at(ctx, stat, K, afs, n, X, t0, auto=False):
    """an object in the state the invariant describes after n points"""
    I = ctx.I
    o = I.call(I.get_func(RT, CLS[stat]), [], dict(auto_afs=auto, tau0=Num(t0, 'f')))
    want = ATTRS | ({'So'} if stat == 'tdev' else set())
    if set(o.attrs) != want:
        raise Unsupported('attributes of the realtime object: %s' % sorted(set(o.attrs) ^ want))
    x = PyList(I.heap, None, n, lambda i: Num(sel(X, i), 'f'))
    o.attrs['x'] = x
    o.attrs['afs'] = afs
    get = (lambda k: arr_elem(I, afs, k).arith())
    inv = lambda k: invariant(stat, n, lambda i: sel(X, i), get(k), t0)
    v = fresh('k', 'I')
    for nm in list(inv(ZERO)[0]) + ['dev']:
        A0 = arrsym(nm + '_before', 'R')
        o.attrs[nm] = arr_from_data(I.heap, A0, [K], 'f')
        if nm == 'dev' or (nm == 'So') or (nm == 'S' and stat != 'tdev'):
            I.assume(forall(v, ZERO, K, ge(sel(A0, v), ZERO)))   # lemma nonneg_unit
    o.attrs['tau0'] = Num(t0, 'f')
    return o


def before(stat, n, X, af, t0, k):
    """meaning of the arrays before the call at factor index k"""
    s, d = invariant(stat, n, lambda i: sel(X, i), af, t0)
    return [(sel(arrsym(nm + '_before', 'R'), k), t) for nm, t in list(s.items()) + [('dev', d)]]


def check_state(ctx, lab, stat, o, K, af, n, x, t0, old=None):
    """the invariant holds for n points x and the K factors af(k)"""
    I = ctx.I
    xs, afs = o.attrs.get('x'), o.attrs.get('afs')
    seq_eq(I, lab + '.x', xs, n, x, kind='inv')
    seq_eq(I, lab + '.afs', afs, K, af)
    k = sym('row_k', 'I')
    h = len(I.hyps)
    I.hyps += [le(ZERO, k), lt(k, K), ge(af(k), ONE)]
    sums, d = invariant(stat, n, x, af(k), t0)
    def val(t):
        t = Prover(list(I.hyps), Budget(60)).simp(beta(t), True)
        for a, b in (old(k) if old else []):
            t = subst_any(t, a, b)
        return t
    kind = 'post'
    for nm, s in sums.items():
        a = o.attrs.get(nm)
        ok = isinstance(a, NDArray) and a.ndim == 1
        if ok:
            I.oblige_eq(lab + '.%s.length' % nm, a.shape[0], K)
            ok = I.oblige_eq(lab + '.%s.value' % nm, val(a.get(k).arith()), s, kind='inv')
        if not ok:
            kind = 'inv'
    a = o.attrs.get('dev')
    I.oblige_eq(lab + '.dev.length', col_len(I, a), K, kind=kind)
    g = arr_elem(I, a, k)
    I.oblige(lab + '.dev.finite', not_(g.nan), kind=kind)
    gv = val(g.arith())
    I.oblige(lab + '.dev>=0', ge(gv, ZERO), kind=kind)
    I.oblige_eq(lab + '.dev', gv, d, kind=kind)
    del I.hyps[h:]


def step_unit(ctx, stat, kind='array'):
    """add_phase preserves the invariant (fixed list of factors)"""
    I = ctx.I
    I.only = not_frame
    n, K, t0, xn = sym('n', 'I'), sym('K', 'I'), sym('tau0'), sym('xnew')
    X, AF = arrsym('x', 'R'), arrsym('af', 'I')
    v = fresh('k', 'I')
    lab = '%s.add_phase(%s)' % (CLS[stat], kind)
    hold = {}

    def go():
        I.assume(ge(n, ZERO), ge(K, ONE), gt(t0, ZERO), forall(v, ZERO, K, ge(sel(AF, v), ONE)))
        afs = ctx.series('af', K, kind, 'i')[0]
        o = hold['o'] = obj_at(ctx, stat, K, afs, n, X, t0)
        return I.call(I.getattr_(o, 'add_phase'), [Num(xn, 'f')], {})

    def capture(o, d):
        ctx.paths += 1
        if o[0] == 'raise':
            I.oblige(lab + '.no-exception[%s]' % o[1].name, FALSE)
            return o[1].name
        ctx.covers += 1
        check_state(ctx, lab, stat, hold['o'], K, lambda k: sel(AF, k), add(n, ONE), lambda i: ite(lt(i, n), sel(X, i), xn), t0,
                    lambda k: before(stat, n, X, sel(AF, k), t0, k))
        return 'return'
    return I.explore(go, lambda o, d, s: capture(o, d))


# ---------------------------------------------------------------- constructor, frequency input, accessors, meaning
def init_unit(ctx, stat, kind='array'):
    """a new object satisfies the invariant with no points"""
    I = ctx.I
    I.only = not_frame
    K, t0 = sym('K', 'I'), sym('tau0')
    AF = arrsym('af', 'I')
    v = fresh('k', 'I')
    lab = '%s(%s)' % (CLS[stat], kind)

    def go():
        I.assume(ge(K, ONE), gt(t0, ZERO), forall(v, ZERO, K, ge(sel(AF, v), ONE)))
        afs = ctx.series('af', K, kind, 'i')[0]
        o = I.call(I.get_func(RT, CLS[stat]), [], dict(afs=afs, tau0=Num(t0, 'f')))
        return (o, I.call(I.getattr_(o, 'taus'), [], {}), I.call(I.getattr_(o, 'devs'), [], {}))

    def capture(o, d):
        ctx.paths += 1
        if o[0] == 'raise':
            I.oblige(lab + '.no-exception[%s]' % o[1].name, FALSE)
            return o[1].name
        ctx.covers += 1
        ob, taus, devs = o[1]
        check_state(ctx, lab, stat, ob, K, lambda k: sel(AF, k), ZERO, lambda i: ZERO, t0)
        seq_eq(I, lab + '.taus', taus, K, lambda i: mul(t0, sel(AF, i)))
        seq_eq(I, lab + '.devs', devs, K, lambda i: ZERO)
        I.oblige(lab + '.fixed-list', TRUE if ob.attrs.get('auto_afs') is False else FALSE, kind='inv')
        return 'return'
    return I.explore(go, lambda o, d, s: capture(o, d))


def freq_unit(ctx, stat, first):
    """add_frequency(f): phase 0 first if there is none, then the previous phase plus f*tau0, each through add_phase
    (which is used by its contract here: it extends x by its argument)"""
    I = ctx.I
    I.only = not_frame
    n, K, t0, f = ZERO if first else sym('n', 'I'), sym('K', 'I'), sym('tau0'), sym('f')
    X, AF = arrsym('x', 'R'), arrsym('af', 'I')
    v = fresh('k', 'I')
    lab = '%s.add_frequency(%s point)' % (CLS[stat], 'first' if first else 'later')
    hold = {}

    def go():
        I.assume(ge(n, ZERO if first else ONE), ge(K, ONE), gt(t0, ZERO), forall(v, ZERO, K, ge(sel(AF, v), ONE)))
        o = hold['o'] = obj_at(ctx, stat, K, ctx.series('af', K, 'array', 'i')[0], n, X, t0)
        hold['fed'] = []

        def add_phase(I_, v_):
            o_ = v_['self']
            x = I.num(v_['xnew'])
            hold['fed'].append(x)
            I.call(I.getattr_(o_.attrs['x'], 'append'), [x], {})
            return None
        for c in set(CLS.values()):
            I.contracts['%s.%s.add_phase' % (RT, c)] = add_phase
        return I.call(I.getattr_(o, 'add_frequency'), [Num(f, 'f')], {})

    def capture(o, d):
        ctx.paths += 1
        if o[0] == 'raise':
            I.oblige(lab + '.no-exception[%s]' % o[1].name, FALSE)
            return o[1].name
        ctx.covers += 1
        fed = hold['fed']
        want = [ZERO, mul(f, t0)] if first else [add(sel(X, sub(n, ONE)), mul(f, t0))]
        I.oblige(lab + '.number of phase points fed', TRUE if len(fed) == len(want) else FALSE)
        for k, (a, b) in enumerate(zip(fed, want)):
            I.oblige_eq(lab + '.phase point %d' % k, a.arith(), b)
        return 'return'
    return I.explore(go, lambda o, d, s: capture(o, d))


def get_unit(ctx, stat):
    """devs(), taus() and mdev() read the state and change nothing"""
    I = ctx.I
    n, K, t0 = sym('n', 'I'), sym('K', 'I'), sym('tau0')
    X, AF = arrsym('x', 'R'), arrsym('af', 'I')
    v = fresh('k', 'I')
    lab = CLS[stat]
    hold = {}
    names = ['taus', 'devs'] + (['mdev'] if stat == 'tdev' else [])

    def go():
        I.assume(ge(n, ZERO), ge(K, ONE), gt(t0, ZERO), forall(v, ZERO, K, ge(sel(AF, v), ONE)))
        o = hold['o'] = obj_at(ctx, stat, K, ctx.series('af', K, 'array', 'i')[0], n, X, t0)
        return tuple(I.call(I.getattr_(o, nm), [], {}) for nm in names)

    def capture(o, d):
        ctx.paths += 1
        if o[0] == 'raise':
            I.oblige(lab + '.accessors.no-exception[%s]' % o[1].name, FALSE)
            return o[1].name
        ctx.covers += 1
        D = arrsym('dev_before', 'R')
        seq_eq(I, lab + '.taus()', o[1][0], K, lambda i: mul(t0, sel(AF, i)))
        seq_eq(I, lab + '.devs()', o[1][1], K, lambda i: sel(D, i))
        if stat == 'tdev':
            seq_eq(I, lab + '.mdev()', o[1][2], K, lambda i: div(mul(app('sqrt', const(3)), sel(D, i)), mul(sel(AF, i), t0)))
        ob = hold['o']
        seq_eq(I, lab + '.dev after reading', ob.attrs['dev'], K, lambda i: sel(D, i))
        seq_eq(I, lab + '.x after reading', ob.attrs['x'], n, lambda i: sel(X, i))
        seq_eq(I, lab + '.afs after reading', ob.attrs['afs'], K, lambda i: sel(AF, i))
        return 'return'
    return I.explore(go, lambda o, d, s: capture(o, d))


def meaning_unit(ctx, stat):
    """the invariant's deviation is the batch statistic's definition at (n points, factor af, rate 1/tau0); its sums are non-negative"""
    I = ctx.I
    n, af, t0 = sym('n', 'I'), sym('af_k', 'I'), sym('tau0')
    x = lambda i: sel(arrsym('x', 'R'), i)
    H = [ge(n, ZERO), ge(af, ONE), gt(t0, ZERO)]
    sums, d = invariant(stat, n, x, af, t0)
    D = DEFS[stat]
    cnt = D['n'](n, af)
    lab = '%s meaning' % CLS[stat]
    I.oblige_eq(lab + '.dev^2 is the %s definition' % stat, mul(d, d), D['d'](n, af, x, div(ONE, t0)), H + [ge(cnt, ONE)])
    I.oblige_eq(lab + '.zero before enough points', d, ZERO, H + [le(cnt, ZERO)])
    if stat == 'tdev':
        m = div(mul(app('sqrt', const(3)), d), mul(af, t0))
        I.oblige_eq(lab + '.mdev^2 is the mdev definition', mul(m, m), DEFS['mdev']['d'](n, af, x, div(ONE, t0)), H + [ge(cnt, ONE)])
    for nm, s in sums.items():
        if nm == 'So' or stat != 'tdev':
            I.oblige(lab + '.%s is non-negative' % nm, ge(s, ZERO), H)
    I.oblige(lab + '.dev is non-negative', ge(d, ZERO), H)
    ctx.paths, ctx.covers = 1, 1


# ---------------------------------------------------------------- automatic averaging factors (C17)
NEXT = RT + '.dev_realtime.next_af'


def factor(P, i, d):
    """nominal factor number i of decade d with P points per decade"""
    return app('rint', mul(power(const(10), d), power(const(10), div(i, P))))


def auto_init_unit(ctx, stat):
    """automatic mode starts with the single factor 1, first in the log-spaced order, and the invariant with no points"""
    I = ctx.I
    I.only = not_frame
    P, t0 = sym('P', 'I'), sym('tau0')
    lab = '%s(auto)' % CLS[stat]

    def go():
        I.assume(ge(P, ONE), gt(t0, ZERO))
        return I.call(I.get_func(RT, CLS[stat]), [], dict(auto_afs=True, tau0=Num(t0, 'f'), pts_per_decade=Num(P, 'i')))

    def capture(o, d):
        ctx.paths += 1
        if o[0] == 'raise':
            I.oblige(lab + '.no-exception[%s]' % o[1].name, FALSE)
            return o[1].name
        ctx.covers += 1
        ob = o[1]
        check_state(ctx, lab, stat, ob, ONE, lambda k: ONE, ZERO, lambda i: ZERO, t0)
        I.oblige_eq(lab + '.index', ob.attrs['af_idx'].arith(), ZERO, kind='inv')
        I.oblige_eq(lab + '.decade', ob.attrs['af_decade'].arith(), ZERO, kind='inv')
        I.oblige(lab + '.automatic', TRUE if ob.attrs['auto_afs'] is True else FALSE, kind='inv')
        T = ob.attrs['af_taus']
        seq_eq(I, lab + '.grid', T, P, lambda i: power(const(10), div(i, P)), kind='inv')
        return 'return'
    return I.explore(go, lambda o, d, s: capture(o, d))


class NextSpec(object):
    """one iteration goes to the successor of (idx, decade) and evaluates the nominal factor there"""

    def __init__(self, lab, P, idx, dec, last):
        self.lab, self.P, self.idx, self.dec, self.last = lab, P, idx, dec, last

    def start(self, I, vals):
        roles = {}
        for role, t in (('idx', self.idx), ('dec', self.dec), ('af', self.last)):
            for n, v in sorted(vals.items()):
                if n not in roles and v.term is t:
                    roles[n] = role
                    break
        if set(roles.values()) != {'idx', 'dec', 'af'}:
            raise Unsupported('state of the factor search')
        return roles

    def invariant(self, s):
        return [le(ZERO, s['idx'].term), lt(s['idx'].term, self.P), le(ZERO, s['dec'].term)]

    def guard(self, I, s, test):
        t = test.term if isinstance(test, Num) else lift(test)
        I.oblige(self.lab + '.search goes on exactly while the factor is not larger', iff(t, le(s['af'].term, self.last)))

    def step(self, I, s, s2):
        i, d = s['idx'].term, s['dec'].term
        wrap = eq(add(i, ONE), self.P)
        i2, d2_ = ite(wrap, ZERO, add(i, ONE)), ite(wrap, add(d, ONE), d)
        for r, w in (('idx', i2), ('dec', d2_), ('af', factor(self.P, i2, d2_))):
            I.oblige_eq(self.lab + '.next[%s]' % r, s2[r].arith(), w)
        for k, h in enumerate(self.invariant(s2)):
            I.oblige(self.lab + '.invariant preserved %d' % k, h, kind='inv')


def next_unit(ctx, stat='oadev'):
    """next_af: the nominal factors in order after (idx, decade), the first one larger than the last factor in use"""
    I = ctx.I
    I.only = not_frame
    P, K, n, t0 = sym('P', 'I'), sym('K', 'I'), sym('n', 'I'), sym('tau0')
    idx, dec = sym('idx', 'I'), sym('dec', 'I')
    AF, X = arrsym('af', 'I'), arrsym('x', 'R')
    lab = 'dev_realtime.next_af'
    last = sel(AF, sub(K, ONE))
    hold = {}

    def go():
        I.assume(ge(P, ONE), ge(K, ONE), ge(n, ZERO), gt(t0, ZERO), le(ZERO, idx), lt(idx, P), ge(dec, ZERO), ge(last, ONE))
        o = I.call(I.get_func(RT, CLS[stat]), [], dict(auto_afs=True, tau0=Num(t0, 'f'), pts_per_decade=Num(P, 'i')))
        hold['o'] = o
        o.attrs['x'] = PyList(I.heap, None, n, lambda i: Num(sel(X, i), 'f'))
        o.attrs['afs'] = arr_from_data(I.heap, AF, [K], 'i')
        o.attrs['af_idx'], o.attrs['af_decade'] = Num(idx, 'i'), Num(dec, 'i')
        for nm in ('dev', 'S'):
            o.attrs[nm] = arr_from_data(I.heap, arrsym(nm + '_before', 'R'), [K], 'f')
        if not I.get_func(RT, CLS[stat]).find('next_af'):
            raise Unsupported('no next_af')
        I.step_spec = NextSpec(lab, P, idx, dec, last)
        return I.call(I.getattr_(o, 'next_af'), [], {})

    def capture(o, d):
        ctx.paths += 1
        if o[0] == 'raise':
            I.oblige(lab + '.no-exception[%s]' % o[1].name, FALSE)
            return o[1].name
        v = o[1]
        if not isinstance(v, tuple) or len(v) != 3:
            raise Unsupported('result of next_af')
        ctx.covers += 1
        a, i, e = [q.arith() for q in v]
        I.oblige(lab + '.larger than the last factor', gt(a, last))
        I.oblige_eq(lab + '.is the nominal factor at the returned position', a, factor(P, i, e))
        I.oblige(lab + '.position in the grid', and_(le(ZERO, i), lt(i, P), le(ZERO, e)))
        dep = {x for t in (a, i, e) for x in t.fv if x.sort[0] == 'A' and x is not AF}
        I.oblige(lab + '.independent of the data', TRUE if not dep else FALSE)
        I.oblige(lab + '.integer', TRUE if v[0].kind == 'i' else FALSE)
        return 'return'
    try:
        return I.explore(go, lambda o, d, s: capture(o, d))
    finally:
        I.step_spec = None


def auto_unit(ctx, stat):
    """add_phase in automatic mode: the next factor (contract of next_af) is appended exactly when 2*factor+1 points are there,
    every array gets one entry, and the invariant holds for old and new factors alike"""
    I = ctx.I
    I.only = not_frame
    n, K, t0, xn, P = sym('n', 'I'), sym('K', 'I'), sym('tau0'), sym('xnew'), sym('P', 'I')
    X, AF = arrsym('x', 'R'), arrsym('af', 'I')
    NX, NI, ND, idx, dec = [sym(q, 'I') for q in ('next_factor', 'next_idx', 'next_dec', 'idx', 'dec')]
    v = fresh('k', 'I')
    lab = '%s.add_phase(auto)' % CLS[stat]
    hold = {}

    def next_af(I_, v_):
        o_ = v_['self']
        if o_ is not hold['o'] or not isinstance(o_.attrs['afs'], NDArray) or o_.attrs['afs'].buf is not hold['afs'].buf:
            return NotImplemented
        return (Num(NX, 'i'), Num(NI, 'i'), Num(ND, 'i'))

    def go():
        # n <= 2*next factor: the next factor has not been due before (preserved: see the last obligations)
        I.assume(ge(n, ZERO), ge(K, ONE), gt(t0, ZERO), forall(v, ZERO, K, ge(sel(AF, v), ONE)), forall(v, ZERO, K, lt(sel(AF, v), NX)), le(n, mulc(2, NX)), ge(NX, const(2)))
        afs = hold['afs'] = ctx.series('af', K, 'array', 'i')[0]
        I.contracts.pop(NEXT, None)
        o = hold['o'] = obj_at(ctx, stat, K, afs, n, X, t0, auto=True)
        if not I.get_func(RT, CLS[stat]).find('next_af'):
            raise Unsupported('no next_af')
        o.attrs['af_idx'], o.attrs['af_decade'] = Num(idx, 'i'), Num(dec, 'i')
        I.contracts[NEXT] = next_af
        return I.call(I.getattr_(o, 'add_phase'), [Num(xn, 'f')], {})

    def capture(o, d):
        ctx.paths += 1
        if o[0] == 'raise':
            I.oblige(lab + '.no-exception[%s]' % o[1].name, FALSE)
            return o[1].name
        ctx.covers += 1
        ob = hold['o']
        due = ge(add(n, ONE), add(mulc(2, NX), ONE))
        L = col_len(I, ob.attrs['afs'])
        I.oblige_eq(lab + '.factor added exactly when due', L, ite(due, add(K, ONE), K))
        more = I.np and Prover(list(I.hyps), Budget(20)).prove(due)
        K2 = add(K, ONE) if more else K
        check_state(ctx, lab + ('[factor added]' if more else ''), stat, ob, K2, lambda k: ite(lt(k, K), sel(AF, k), NX), add(n, ONE),
                    lambda i: ite(lt(i, n), sel(X, i), xn), t0, lambda k: before(stat, n, X, sel(AF, k), t0, k))
        I.oblige_eq(lab + '.index kept in step', ob.attrs['af_idx'].arith(), NI if more else idx, kind='inv')
        I.oblige_eq(lab + '.decade kept in step', ob.attrs['af_decade'].arith(), ND if more else dec, kind='inv')
        N2 = sym('later_factor', 'I')
        I.oblige(lab + '.next factor not due yet', le(add(n, ONE), mulc(2, N2)),
                 I.hyps + ([gt(N2, NX)] if more else [eq(N2, NX), lt(add(n, ONE), add(mulc(2, NX), ONE))]), kind='inv')
        return 'return'
    return I.explore(go, lambda o, d, s: capture(o, d))
