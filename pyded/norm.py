"""Sum calculus: polynomial normal form with prefix-sum atoms.

  sum_{k=lo}^{hi-1} c*g(k+s)  ->  c*(P_g(hi+s) - P_g(lo+s))      when lo <= hi
with a translation- and reversal-invariant choice of g.  Decides linearity,
re-indexing, splitting, reversal and telescoping of symbolic sums.
"""
from fractions import Fraction as F
from .terms import *
from . import terms as tm
from .smt import entails


class TooBig(Exception):
    pass


LIMIT = 4000
# closed forms: sum_{k<n} k^p as polynomial in n (coefficients of n^0..)
FAUL = {0: [0, 1], 1: [0, F(-1, 2), F(1, 2)], 2: [0, F(1, 6), F(-1, 2), F(1, 3)],
        3: [0, 0, F(1, 4), F(-1, 2), F(1, 4)], 4: [0, F(-1, 30), 0, F(1, 3), F(-1, 2), F(1, 5)]}


def pmono(atom, e=1):
    return {((atom, e),): F(1)}


def padd(p, q, k=F(1)):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def to_term(p):
    out = []
    for m, c in p.items():
        out.append(mk_mul(c, dict(m)))
    return add(*out) if out else ZERO


class Norm(object):
    flat = False         # leave powers of sums unexpanded

    def __init__(self, hyps, entails_fn=None, flat=False):
        self.hyps = list(hyps)
        self.memo = {}
        self.flat = flat
        self.ent = entails_fn or (lambda g: entails(self.hyps, g))

    def pmul(self, p, q):
        if len(p) * len(q) > LIMIT:
            raise TooBig()
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                d = dict(m1)
                bad = False
                for a, e in m2:
                    d[a] = d.get(a, 0) + e
                for a, e in d.items():
                    if a.op == 'app' and a.val == 'sqrt' and e not in (0, 1):
                        bad = True
                    if a.op == 'app' and a.val == 'abs' and e % 2 == 0 and e:
                        bad = True
                if bad:
                    t = mk_mul(c1 * c2, d)
                    r = padd(r, self.expand(t))
                    continue
                m = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return r

    def ppow(self, p, n):
        if n < 0:
            return self.pinv(self.ppow(p, -n)) if len(p) == 1 else self._pinv_pow(p, -n)
        r = {(): F(1)}
        for _ in range(n):
            r = self.pmul(r, p)
        return r

    def _pinv_pow(self, p, n):
        i = self.pinv(p)
        r = {(): F(1)}
        for _ in range(n):
            r = self.pmul(r, i)
        return r

    def pinv(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            return {tuple((a, -e) for a, e in m): 1 / c}
        # factor out the common monomial
        t = to_term(p)
        k, d = fac_parts(t)
        r = {(): 1 / k}
        for b, e in d.items():
            if b.op == 'lin':
                # common monomial factor of the terms of b
                com = None
                c0, dd = lin_parts(b)
                if c0 == 0:
                    for a in dd:
                        _, fa = fac_parts(a)
                        if com is None:
                            com = dict(fa)
                        else:
                            com = {x: min(com[x], fa[x]) for x in com if x in fa and com[x] * fa[x] > 0}
                    com = {x: v for x, v in (com or {}).items() if v}
                if com:
                    g = mk_mul(F(1), dict(com))
                    rest = add(*[mulc(kk, mul(a, powi(g, -1))) for a, kk in dd.items()])
                    kk, rd = fac_parts(rest)
                    f = {}
                    for x, v in com.items():
                        f[x] = f.get(x, 0) - v * e
                    for x, v in rd.items():
                        f[x] = f.get(x, 0) - v * e
                    r = self.pmul(r, {tuple(sorted(((x, v) for x, v in f.items() if v), key=lambda z: z[0].id)): kk ** (-e)})
                    continue
            r = self.pmul(r, {((b, -e),): F(1)})
        return r

    def expand(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._expand(t)
            if len(r) > LIMIT:
                raise TooBig()
            self.memo[t] = r
        return r

    def _expand(self, t):
        o = t.op
        if o == 'const':
            return {(): t.val} if t.val else {}
        if o == 'lin':
            r = {(): t.val[0]} if t.val[0] else {}
            for a, k in zip(t.args, t.val[1]):
                r = padd(r, self.expand(a), k)
            return r
        if o == 'mul':
            r = {(): F(1)}
            for b, e in zip(t.args, t.val):
                if self.flat and e not in (1, -1) and b.op == 'lin':
                    r = self.pmul(r, pmono(tidy(b, self.hyps), e))
                    continue
                r = self.pmul(r, self.ppow(self.expand(b), e))
            return r
        if o == 'sum':
            return self._sum(t)
        if o == 'sel':
            arr = t.args[0]
            idx = [self.canon(i) for i in t.args[1:]]
            u = sel(arr, *idx)
            if u is t or u.op == 'sel':
                return pmono(u)
            return self.expand(u)
        if o == 'app' and t.args:
            u = rebuild(t, [self.canon(a) for a in t.args])
            if u.op == 'app':
                return pmono(u)
            return self.expand(u) if u is not t else pmono(u)
        if o == 'ite':
            a, b = self.canon(t.args[1]), self.canon(t.args[2])
            u = ite(t.args[0], a, b)
            if u.op == 'ite':
                return pmono(u)
            return self.expand(u)
        if o in ('maxf', 'minf'):
            v, lo, hi, body = open_binder(t)
            n = Norm(self.hyps + [le(lo, v), lt(v, hi)], flat=self.flat)
            u = mk_ext(o, v, self.canon(lo), self.canon(hi), n.canon(body))
            return pmono(u) if u.op == o else self.expand(u)
        if o == 'idiv':
            u = idiv(self.canon(t.args[0]), self.canon(t.args[1]))
            return pmono(u) if u.op == 'idiv' else self.expand(u)
        return pmono(t)

    def canon(self, t):
        if t.op in ('const', 'sym', 'bv'):
            return t
        return to_term(self.expand(t))

    # ---------------------------------------------------------------- sums
    def _sum(self, t):
        v, lo, hi, body = open_binder(t)
        lo, hi = self.canon(lo), self.canon(hi)
        if self.ent(le(lo, hi)):
            ordered = True
        elif self.ent(le(hi, lo)):
            return {}
        else:
            ordered = False
        inner = Norm(self.hyps + [le(lo, v), lt(v, hi)], flat=self.flat)
        # piecewise bodies split at their threshold
        sp = self._split_point(v, lo, hi, body) if ordered else None
        if sp is not None:
            c, b1, b2 = sp
            return padd(self.expand(mk_sum(v, lo, c, b1)), self.expand(mk_sum(v, c, hi, b2)))
        P = inner.expand(body)
        out = {}
        for m, c in P.items():
            ind = tuple((a, e) for a, e in m if v not in a.fv)
            dep = tuple((a, e) for a, e in m if v in a.fv)
            s = self._sum_mono(v, lo, hi, dep, ordered)
            out = padd(out, self.pmul({ind: c}, s))
        return out

    def _split_point(self, v, lo, hi, body):
        for x in subterms(body):
            if x.op == 'ite' and v in x.args[0].fv and not any(w.op == 'bv' for w in x.fv):
                c = x.args[0]
                if c.op not in ('le0', 'lt0'):
                    continue
                if c.op == 'lt0':
                    continue
                k0, d = lin_parts(c.args[0])
                kv = d.get(v)
                if kv not in (1, -1) or any(v in a.fv for a in d if a is not v):
                    continue
                rest = sub(c.args[0], mulc(kv, v))
                if rest.sort != 'I':
                    continue
                # v + rest <= 0  -> v < 1-rest ; -v+rest <= 0 -> v >= rest
                cut = sub(ONE, rest) if kv == 1 else rest
                if not (self.ent(le(lo, cut)) and self.ent(le(cut, hi))):
                    if self.ent(le(hi, cut)) or self.ent(le(cut, lo)):
                        low = self.ent(le(hi, cut))
                        first = kv == 1
                        b = _pick(body, c, first if low else not first)
                        return (hi, b, b) if low else (lo, b, b)
                    continue
                first, second = _pick(body, c, kv == 1), _pick(body, c, kv != 1)
                return cut, first, second
        return None

    def _sum_mono(self, v, lo, hi, dep, ordered):
        if not dep:
            if ordered:
                return self.expand(sub(hi, lo))
            return pmono(mk_sum_raw(v, lo, hi, ONE))
        if len(dep) == 1 and dep[0][0] is v and dep[0][1] in FAUL and ordered:
            return self._faul(dep[0][1], lo, hi)
        term = mk_mul(F(1), dict(dep))
        cands = []
        for a, e in dep:
            if a.op in ('sel', 'psum'):
                for ix in a.args[1:]:
                    if v in ix.fv:
                        af = affine(ix, v)
                        if af is not None:
                            cands.append(af)
                        break
        best = None
        if not cands:
            # reference point: a non-array affine atom, e.g. 1/(c - v)
            for a, e in dep:
                if a.op in ('lin',) and a.sort == 'I':
                    af = affine(a, v)
                    if af is not None:
                        cands.append(af)
        for a, c in cands:
            if a.op == 'const':
                s = 1 if a.val > 0 else -1
                q, r = polydiv(c, const(abs(a.val)))
            else:
                s = 1
                q, r = polydiv(c, a)
            # s=+1: v = w - q ; s=-1: v = q - w
            new = sub(v, q) if s > 0 else sub(q, v)
            nt = subst(term, {v: new})
            key = mk_afn([v], nt)
            if best is None or key.id < best[0].id:
                best = (key, nt, s, q)
        if best is None:
            nt, lo2, hi2 = term, lo, hi
        else:
            _, nt, s, q = best
            if s > 0:
                lo2, hi2 = add(lo, q), add(hi, q)
            else:
                lo2, hi2 = add(sub(q, hi), ONE), add(sub(q, lo), ONE)
        inner = Norm(self.hyps, flat=self.flat)
        P = inner.expand(nt)
        out = {}
        for m, c in P.items():
            ind = tuple((a, e) for a, e in m if v not in a.fv)
            d2 = tuple((a, e) for a, e in m if v in a.fv)
            if not d2:
                s_ = self.expand(sub(hi2, lo2)) if ordered else pmono(mk_sum_raw(v, lo2, hi2, ONE))
            elif len(d2) == 1 and d2[0][0] is v and d2[0][1] in FAUL and ordered:
                s_ = self._faul(d2[0][1], lo2, hi2)
            elif ordered:
                g = mk_afn([v], mk_mul(F(1), dict(d2)))
                s_ = padd(pmono(mk_psum(g, self.canon(hi2))), pmono(mk_psum(g, self.canon(lo2))), F(-1))
            else:
                s_ = pmono(mk_sum_raw(v, lo2, hi2, mk_mul(F(1), dict(d2))))
            out = padd(out, self.pmul({ind: c}, s_))
        return out

    def _faul(self, p, lo, hi):
        cs = FAUL[p]
        out = {}
        for sgn, x in ((1, hi), (-1, lo)):
            for i, c in enumerate(cs):
                if c:
                    out = padd(out, self.expand(powi(x, i)), F(c) * sgn)
        return out

    # ---------------------------------------------------------------- zero test
    def collapse(self, p):
        groups = {}
        for m in p:
            for a, e in m:
                for x in ([a] if a.op == 'psum' else []):
                    c, d = lin_parts(x.args[1])
                    groups.setdefault((x.args[0], mk_lin(F(0), d)), set()).add(c)
        sub_ = {}
        for (g, base), cs in groups.items():
            if len(cs) < 2:
                continue
            c0 = min(cs)
            for c in cs:
                if c > c0 and c - c0 <= 8 and (c - c0).denominator == 1:
                    extra = [sel(g, add(base, const(c0 + i))) for i in range(int(c - c0))]
                    sub_[mk_psum(g, add(base, const(c)))] = add(mk_psum(g, add(base, const(c0))), *extra)
        if not sub_:
            return p
        out = {}
        for m, c in p.items():
            r = {(): c}
            for a, e in m:
                if a in sub_:
                    r = self.pmul(r, self.ppow(self.expand(sub_[a]), e))
                else:
                    r = self.pmul(r, {((a, e),): F(1)})
            out = padd(out, r)
        return out

    def clear_denoms(self, p):
        for _ in range(6):
            mins = {}
            for m in p:
                for a, e in m:
                    if e < 0 and a.op == 'lin':
                        mins[a] = min(mins.get(a, 0), e)
            if not mins:
                return p
            out = {}
            for m, c in p.items():
                d = dict(m)
                r = {(): c}
                for a, e in mins.items():
                    d[a] = d.get(a, 0) - e
                for a, e in d.items():
                    if e == 0:
                        continue
                    if a in mins and e > 0:
                        r = self.pmul(r, self.ppow(self.expand(a), e))
                    else:
                        r = self.pmul(r, {((a, e),): F(1)})
                out = padd(out, r)
            p = out
        return p

    def is_zero(self, t):
        p = self.expand(t)
        if not p:
            return True
        p = self.collapse(p)
        if p:
            p = self.clear_denoms(p)
        if p:
            p = self.collapse(p)
        self.residue = p
        return not p


def tidy(t, hyps):
    """equal term with telescoped sums (used to find readable closed forms)"""
    if t.op == 'ite':
        return ite(t.args[0], tidy(t.args[1], hyps + [t.args[0]]), tidy(t.args[2], hyps + [not_(t.args[0])]))
    if t.op not in ('lin', 'mul') or t.sort == 'I':
        return t
    try:
        n = Norm(hyps, flat=True)
        p = n.collapse(n.expand(t))
        q = unpsum(absorb(p, n), n)
    except TooBig:
        return t
    if q is None:
        return t
    return to_term(q)


def absorb(p, n):
    """c*P_g(e) + c*g(e) -> c*P_g(e+1);  c*P_g(e) - c*g(e-1) -> c*P_g(e-1)"""
    for _ in range(12):
        hit = None
        for m, c in p.items():
            for a, e in m:
                if a.op != 'psum' or e != 1:
                    continue
                rest = {x: k for x, k in m if x is not a}
                for d, sg in ((0, 1), (-1, -1)):
                    g = sel(a.args[0], add(a.args[1], const(d)))
                    q = n.expand(mul(g, mk_mul(F(1), rest)))
                    if q and all(p.get(k) == sg * c * v for k, v in q.items()):
                        hit = (m, c, a, rest, q, sg, d)
                        break
                if hit:
                    break
            if hit:
                break
        if not hit:
            return p
        m, c, a, rest, q, sg, d = hit
        p = padd(p, {m: c}, F(-1))
        p = padd(p, q, -sg * c)
        new = mk_psum(a.args[0], n.canon(add(a.args[1], const(1 if sg > 0 else -1))))
        p = padd(p, n.pmul({tuple(rest.items()): c}, pmono(new)))
    return p


def unpsum(p, n):
    out = {}
    groups = {}
    for m, c in p.items():
        ps = [(a, e) for a, e in m if a.op == 'psum']
        if not ps:
            out = padd(out, {m: c})
            continue
        if len(ps) != 1 or ps[0][1] != 1:
            return None
        a = ps[0][0]
        rest = tuple(x for x in m if x[0] is not a)
        groups.setdefault((a.args[0], rest), []).append((c, a.args[1]))
    for (g, rest), l in groups.items():
        l = sorted(l, key=lambda x: x[1].id)
        while l:
            c, e = l.pop()
            for i, (c2, e2) in enumerate(l):
                if c2 != -c:
                    continue
                if n.ent(le(e2, e)):
                    lo, hi, k = e2, e, c
                elif n.ent(le(e, e2)):
                    lo, hi, k = e, e2, c2
                else:
                    continue
                v = fresh('q', 'I')
                s = mk_sum(v, ZERO, sub(hi, lo), sel(g, add(v, lo)))
                out = padd(out, n.pmul({rest: k}, pmono(s) if s.op == 'sum' else n.expand(s)))
                l.pop(i)
                break
            else:
                return None
    return out


def _pick(body, c, val):
    """replace every occurrence of condition c in body's ites by a truth value"""
    memo = {}

    def go(t):
        if t in memo:
            return memo[t]
        if t.op == 'ite' and (t.args[0] is c or not_(t.args[0]) is c):
            pos = t.args[0] is c
            r = go(t.args[1] if (pos == val) else t.args[2])
        elif t.op in BINDERS or not t.args:
            r = t
            if t.op in ('sum', 'maxf', 'minf') and any(x is c for x in subterms(t)):
                w, lo, hi, b = open_binder(t)
                r = MKB[t.op](w, go(lo), go(hi), go(b))
        else:
            r = rebuild(t, [go(a) for a in t.args])
        memo[t] = r
        return r
    return go(body)


def mk_sum_raw(v, lo, hi, body):
    h, b = tm._bind(v, body)
    return tm._mk('sum', (lo, hi, b), (h,), body.sort)


def mk_psum(g, idx):
    return tm._mk('psum', (g, idx), None, 'R')


def affine(ix, v):
    """ix = a*v + c with a, c free of v (integer terms); None otherwise"""
    c0, d = lin_parts(ix)
    a = ZERO
    rest = {}
    for t, k in d.items():
        if v not in t.fv:
            rest[t] = k
            continue
        kk, fd = fac_parts(t)
        if fd.get(v) != 1 or any(v in b.fv for b in fd if b is not v):
            return None
        f2 = {b: e for b, e in fd.items() if b is not v}
        a = add(a, mk_mul(k * kk, f2))
    if a is ZERO:
        return None
    c = mk_lin(c0, rest)
    if a.sort != 'I' or c.sort != 'I':
        return None
    return a, c
