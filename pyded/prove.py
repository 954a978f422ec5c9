"""Equality and truth of terms under hypotheses."""
import time
from fractions import Fraction as F
from .terms import *
from . import terms as tm
from . import smt
from .smt import entails, check_sat
from .norm import Norm, TooBig

STAT = {'norm': 0, 'ext': 0, 'z3': 0, 'syntactic': 0, 'split': 0}


class Timeout(Exception):
    pass


class Budget(object):
    def __init__(self, secs):
        self.end = time.process_time() + secs     # CPU seconds: the verdict does not depend on the load

    def check(self):
        if time.process_time() > self.end:
            raise Timeout()


def const_eqs(hyps):
    """symbols the hypotheses equate with a constant"""
    m = {}
    lo, hi = {}, {}
    for h in hyps:
        if h.op == 'le0':
            c, d = lin_parts(h.args[0])
            if len(d) == 1:
                (x, k), = d.items()
                if x.op == 'sym' and x.sort == 'I':
                    b = -c / k
                    if k > 0:
                        b = b.__floor__()
                        hi[x] = min(hi.get(x, b), b)
                    else:
                        b = b.__ceil__()
                        lo[x] = max(lo.get(x, b), b)
    for x in hi:
        if lo.get(x) == hi[x]:
            m[x] = const(hi[x])
    for h in hyps:
        if h.op == 'eq0':
            c, d = lin_parts(h.args[0])
            if len(d) == 1:
                (x, k), = d.items()
                if x.op == 'sym' and x.sort in ('I', 'R'):
                    m[x] = const(-c / k)
    return m


class Prover(object):
    def __init__(self, hyps, budget=None, depth=0):
        self.hyps = [h for h in hyps if h is not TRUE]
        self.budget = budget or Budget(60)
        self.depth = depth
        self._simp = {}
        self._ent = {}

    def child(self, *extra):
        return Prover(self.hyps + list(extra), self.budget, self.depth + 1)

    def ent(self, g):
        if g is TRUE:
            return True
        if g is FALSE:
            return False
        r = self._ent.get(g)
        if r is None:
            self.budget.check()
            r = entails(self.hyps, g)
            self._ent[g] = r
        return r

    def inconsistent(self):
        return self.ent(FALSE) or check_sat(self.hyps) == 'unsat'

    # ------------------------------------------------------------ simplify
    def simp(self, t, expand=False):
        key = (t, expand)
        r = self._simp.get(key)
        if r is None:
            r = self._simp_(t, expand)
            self._simp[key] = r
        return r

    def simpb(self, c, expand=False):
        if c.op in ('and', 'or', 'not'):
            c2 = rebuild(c, [self.simpb(a, expand) for a in c.args])
        else:
            c2 = c
        if c2.op in ('true', 'false'):
            return c2
        if self.ent(c2):
            return TRUE
        if self.ent(not_(c2)):
            return FALSE
        return c2

    def _simp_(self, t, expand):
        self.budget.check()
        o = t.op
        if o in ('const', 'sym', 'bv', 'afn', 'true', 'false'):
            return t
        if o in ('le0', 'lt0', 'eq0'):
            u = rebuild(t, [self.simp(t.args[0], expand)])
            return self.simpb(u) if u.op not in ('true', 'false') else u
        if o in ('and', 'or', 'not'):
            return self.simpb(rebuild(t, [self.simp(a, expand) for a in t.args]))
        if o == 'ite':
            c = self.simp(t.args[0], expand)
            if c is TRUE:
                return self.simp(t.args[1], expand)
            if c is FALSE:
                return self.simp(t.args[2], expand)
            return ite(c, self.child(c).simp(t.args[1], expand), self.child(not_(c)).simp(t.args[2], expand))
        if o == 'sel':
            idx = [self.simp(i, expand) for i in t.args[1:]]
            u = sel(t.args[0], *idx)
            if u.op == 'sel' and u.args[0].op == 'afn':
                if expand or all(i.op == 'const' for i in idx):
                    w = self.simp(sel(u.args[0], *idx, force=True), expand)
                    if expand or not has_ite(w):
                        return w
                return u
            if u.op != 'sel':
                return self.simp(u, expand)
            return u
        if o in ('sum', 'maxf', 'minf', 'forall', 'exists'):
            v, lo, hi, body = open_binder(t)
            lo, hi = self.simp(lo, expand), self.simp(hi, expand)
            if o == 'sum' and self.ent(le(hi, lo)):
                return ZERO
            ch = self.child(le(lo, v), lt(v, hi))
            if has_ite(body) or (expand and _has_afn(body)):
                body = ch.simp(body, expand)
            return MKB[o](v, lo, hi, body)
        if o in ('lin', 'mul', 'idiv', 'app', 'psum'):
            if not has_ite(t) and not expand and not _has_const_afn(t):
                return t
            return rebuild(t, [self.simp(a, expand) for a in t.args])
        return t

    # ------------------------------------------------------------ equality
    def prove_eq(self, a, b):
        a, b = lift(a), lift(b)
        m = const_eqs(self.hyps)
        if m:
            try:
                a, b = subst(a, m), subst(b, m)
            except ZeroDivisionError:
                pass
        try:
            return self._prove_eq(a, b)
        except (TooBig, RecursionError):
            return False
        except ZeroDivisionError:
            # a case in which a denominator vanishes: only provable when its hypotheses are contradictory
            return self.ent(FALSE)

    def _norm_zero(self, d):
        self.budget.check()
        try:
            n = Norm(self.hyps, lambda g: self.ent(g))
            # norm's side conditions are evaluated under self.hyps only
            return n.is_zero(d)
        except TooBig:
            return False

    def _prove_eq(self, a, b, level=0):
        self.budget.check()
        if a is b:
            STAT['syntactic'] += 1
            return True
        if a.sort == 'B' or b.sort == 'B':
            return self.prove(iff(a, b))
        a, b = self.simp(a), self.simp(b)
        if a is b:
            STAT['syntactic'] += 1
            return True
        d = sub(a, b)
        if self._norm_zero(d):
            STAT['norm'] += 1
            return True
        r = self._congr(a, b, level)
        if r:
            STAT['congr'] = STAT.get('congr', 0) + 1
            return True
        em = [x for x in _max_binders(d) if x.op == 'sum' and self.ent(le(x.args[1], x.args[0]))]
        if em:
            for x in em:
                a, b = _replace(a, x, ZERO), _replace(b, x, ZERO)
            return self._prove_eq(a, b, level)
        # sums of one term
        em = [x for x in _max_binders(d) if x.op == 'sum' and self.ent(eq(sub(x.args[1], x.args[0]), ONE))]
        if em:
            for x in em:
                y = open_any(x, x.args[0])[3]
                a, b = _replace(a, x, y), _replace(b, x, y)
            return self._prove_eq(a, b, level)
        # case split on an undecided condition outside binders
        c = _split_cond(d)
        if c is not None and self.depth < 14:
            STAT['split'] += 1
            p = self.child(c) if c.op != 'le0' or not self.ent(ge(c.args[0], ZERO)) else self.child(c, eq(c.args[0], ZERO))
            ok = p.inconsistent() or p._prove_eq(a, b, level)
            if ok:
                p = self.child(not_(c))
                ok = p.inconsistent() or p._prove_eq(a, b, level)
            if ok:
                return True
            return False
        if level > 3:
            return self._z3eq(a, b)
        if level == 0 and _has_afn(d):
            a1, b1 = self._expand_top(a), self._expand_top(b)
            if (a1 is not a or b1 is not b) and self._norm_zero(sub(a1, b1)):
                STAT['norm'] += 1
                return True
        # unify index-equal selections, extensionally equal arrays and binders
        d2 = self._unify(d)
        if d2 is not None and d2 is not d:
            if self._norm_zero(d2):
                STAT['ext'] += 1
                return True
        # expand piecewise arrays: outside binders first
        if _has_afn(d):
            a1, b1 = self._expand_top(a), self._expand_top(b)
            if a1 is not a or b1 is not b:
                return self._prove_eq(a1, b1, level)
            a2, b2 = self.simp(a, True), self.simp(b, True)
            if a2 is not a or b2 is not b:
                if self._prove_eq(a2, b2, level + 1):
                    return True
        # an index determined by the others: eliminate it
        r = self._eliminate(a, b)
        return r if r is not None else self._z3eq(a, b)

    def _eliminate(self, a, b):
        if self.depth > 14:
            return None
        for h in self.hyps:
            if h.op != 'eq0':
                continue
            c, d = lin_parts(h.args[0])
            for x, k in d.items():
                if x.op == 'sym' and x.sort == 'I' and abs(k) == 1 and not any(x in y.fv for y in d if y is not x) and x in a.fv | b.fv:
                    v = mulc(-1 / k, sub(h.args[0], mulc(k, x)))
                    if v.sort != 'I':
                        continue
                    try:
                        p = Prover([subst(y, {x: v}) for y in self.hyps], self.budget, self.depth + 1)
                        return p._prove_eq(subst(a, {x: v}), subst(b, {x: v}))
                    except ZeroDivisionError:
                        return None
        return None

    def _expand_top(self, t):
        for _ in range(6):
            todo = {}
            seen = set()
            st = [t]
            while st:
                x = st.pop()
                if x in seen or x.op in BINDERS:
                    continue
                seen.add(x)
                if x.op == 'sel' and x.args[0].op == 'afn':
                    todo[x] = self.simp(sel(*x.args, force=True))
                    continue
                st.extend(x.args)
            if not todo:
                break
            for x, y in todo.items():
                if y is not x:
                    t = _replace(t, x, y)
            t = self.simp(t)
        return t

    def _congr(self, a, b, level):
        """products whose non-common factors agree pairwise; square roots of equal terms"""
        ka, fa = fac_parts(a)
        kb, fb = fac_parts(b)
        if ka != kb or not fa or not fb:
            return False
        fa, fb = dict(fa), dict(fb)
        for x in list(fa):
            if x in fb:
                e = fa.pop(x) - fb.pop(x)
                if e:
                    return False
        if len(fa) != len(fb) or not fa or len(fa) > 2 or level > 3:
            return False
        for x, e in fa.items():
            for y, f in list(fb.items()):
                if e != f:
                    continue
                if x.op == 'app' and y.op == 'app' and x.val == y.val and len(x.args) == len(y.args) and x.args:
                    ok = all(p is q or (p.sort[0] != 'A' and self._prove_eq(p, q, level)) for p, q in zip(x.args, y.args))
                elif x.op in ('lin', 'sum', 'ite', 'sel') and y.op in ('lin', 'sum', 'ite', 'sel') and (len(fa) > 1 or e != 1):
                    ok = self._prove_eq(x, y, level) or (e % 2 == 0 and self._prove_eq(x, mulc(-1, y), level))
                else:
                    ok = False
                if ok:
                    del fb[y]
                    break
            else:
                return False
        return True

    def _z3eq(self, a, b):
        if self.ent(eq(a, b)):
            STAT['z3'] += 1
            return True
        return False

    def _unify(self, d):
        """replace equal selections / arrays / binders by one representative"""
        changed = True
        rounds = 0
        while changed and rounds < 4:
            changed = False
            rounds += 1
            # 1. arrays
            afns = {}
            for x in subterms(d):
                if x.op in ('sel', 'psum') and x.args[0].op in ('afn', 'sym'):
                    afns[x.args[0]] = 1
            afns = list(afns)
            for i in range(len(afns)):
                for j in range(i):
                    f, g = afns[i], afns[j]
                    if f.op == 'sym' and g.op == 'sym' or f.sort != g.sort:
                        continue
                    if f.op == 'sym':
                        f, g = g, f
                    if f.fv and any(v.op == 'bv' for v in f.fv) or any(v.op == 'bv' for v in g.fv):
                        continue
                    if self._afn_eq(f, g):
                        d = _replace(d, f, g)
                        changed = True
                        break
                if changed:
                    break
            if changed:
                continue
            # 2. sums / extrema outside binders
            bs = _max_binders(d)
            for i in range(len(bs)):
                for j in range(i):
                    if bs[i].op != bs[j].op:
                        continue
                    if self._ext_eq(bs[i], bs[j]):
                        d = _replace(d, bs[i], bs[j])
                        changed = True
                        break
                    x = self._peel(bs[i], bs[j]) or self._peel(bs[j], bs[i])
                    if x:
                        d = _replace(d, *x)
                        changed = True
                        break
                    r = _ratio(d, bs[i], bs[j]) if bs[i].op == 'sum' else None
                    if r is not None and self._ext_eq(bs[i], bs[j], r):
                        d = _replace(d, bs[i], mul(r, bs[j]))
                        changed = True
                        break
                if changed:
                    break
            if changed:
                continue
            # 3. selections and integer subterms with provably equal indices
            ss = [x for x in subterms(d) if x.op == 'sel' and not any(v.op == 'bv' for v in x.fv)]
            ss.sort(key=lambda t: t.id)
            for i in range(len(ss)):
                for j in range(i):
                    if ss[i].args[0] is ss[j].args[0] and len(ss[i].args) == len(ss[j].args):
                        if all(self.ent(eq(p, q)) for p, q in zip(ss[i].args[1:], ss[j].args[1:])):
                            d = _replace(d, ss[i], ss[j])
                            changed = True
                            break
                if changed:
                    break
        return d

    def _afn_eq(self, f, g):
        lens = f.args[1:] or g.args[1:] if f.op == 'afn' else g.args[1:]
        if not lens:
            return False
        vs = [fresh('p', 'I') for _ in lens]
        n = f.val[1] if f.op == 'afn' else g.val[1]
        if n != len(vs):
            return False
        ch = self.child(*[h for v, l in zip(vs, lens) for h in (le(ZERO, v), lt(v, l))])
        if ch.depth > 12:
            return False
        a = sel(f, *vs, force=True) if f.op == 'afn' else sel(f, *vs)
        b = sel(g, *vs, force=True) if g.op == 'afn' else sel(g, *vs)
        # structural pre-check: same free array symbols
        fa = {x for x in a.fv if x.sort[0] == 'A'}
        fb = {x for x in b.fv if x.sort[0] == 'A'}
        if fa != fb:
            return False
        return ch._prove_eq(a, b, 1)

    def _peel(self, s, t):
        """s is t and one more term: (s, t + last term)"""
        if s.op != 'sum' or sub(sub(s.args[1], s.args[0]), sub(t.args[1], t.args[0])) is not ONE or not self.ent(ge(t.args[1], t.args[0])):
            return None
        v, lo, hi, b = open_binder(s)
        if self._ext_eq(MKB['sum'](v, lo, sub(hi, ONE), b), t):
            return s, add(t, subst(b, {v: sub(hi, ONE)}))
        return None

    def _ext_eq(self, s, t, ratio=ONE):
        if s is t:
            return ratio is ONE
        fa = {x for x in s.fv if x.sort[0] == 'A'}
        fb = {x for x in t.fv if x.sort[0] == 'A'}
        if fa != fb and not (_has_afn(s) or _has_afn(t)):
            return False
        lo1, hi1, lo2, hi2 = s.args[0], s.args[1], t.args[0], t.args[1]
        if self.depth > 10:
            return False
        n1, n2 = sub(hi1, lo1), sub(hi2, lo2)
        if n1 is not n2 and not self.ent(eq(n1, n2)):
            if not self._norm_zero(sub(n1, n2)):
                return False
        v = fresh('k', 'I')
        _, _, _, b1 = open_binder(s, v)
        _, _, _, b2 = open_binder(t, v)
        shift = sub(lo2, lo1)
        ch = self.child(le(lo1, v), lt(v, hi1))
        if ch._prove_eq(b1, mul(ratio, subst(b2, {v: add(v, shift)})), 1):
            return True
        if s.op == 'sum' or s.op in ('maxf', 'minf'):
            rev = sub(sub(hi2, ONE), sub(v, lo1))
            b2r = mul(ratio, subst(b2, {v: rev}))
            if _index_shape(b1, v) == _index_shape(b2r, v) and ch._prove_eq(b1, b2r, 2):
                return True
        return False

    def _instantiate(self, g):
        """use quantified hypotheses at the indices of g, array contents expanded"""
        idx = []
        for x in smt.atoms_of([g]):
            if x.op == 'sel' and len(x.args) == 2 and not any(v.op == 'bv' for v in x.fv):
                idx.append(x.args[1])
        fs = [x for x in smt.atoms_of(self.hyps) if x.op == 'forall' and not any(v.op == 'bv' for v in x.fv)]
        new = []
        for f in dict.fromkeys(fs):
            for i in dict.fromkeys(idx):
                if not (self.ent(le(f.args[0], i)) and self.ent(lt(i, f.args[1]))):
                    continue
                _, _, _, body = open_binder(f, i) if i.op == 'sym' else open_any(f, i)
                b = self.simp(body, True)
                new.append(or_(tm._mk('not', (f,), None, 'B'), b))
        if not new:
            return False
        return entails(self.hyps + new, g)

    def nonneg(self, t):
        """t >= 0 from the shape of t, its atoms by the hypotheses"""
        self.budget.check()
        if smt.nonneg(t):
            return True
        o = t.op
        if o == 'lin':
            return t.val[0] >= 0 and all(k > 0 and self.nonneg(a) for a, k in zip(t.args, t.val[1]))
        if o == 'mul':
            return all(e % 2 == 0 or self.nonneg(b) for b, e in zip(t.args, t.val))
        if o == 'ite':
            return self.child(t.args[0]).nonneg(t.args[1]) and self.child(not_(t.args[0])).nonneg(t.args[2])
        if o == 'sum':
            v, lo, hi, b = open_binder(t)
            return self.child(le(lo, v), lt(v, hi)).nonneg(b)
        if o == 'app' and t.val == 'pow' and self.nonneg(t.args[0]):
            return True
        if o in ('sel', 'sym', 'app') and self.depth < 12:
            g = ge(t, ZERO)
            return self.ent(g) or self._instantiate(g)
        return False

    def _refute(self):
        """the hypotheses with array contents expanded, and quantified ones used at their indices"""
        for h in self.hyps:
            for x in (h.args if h.op == 'and' else [h]):
                if x.op == 'lt0' and self.nonneg(x.args[0]):
                    return True
        def ex(h):
            if h.op in ('and', 'or', 'not', 'le0', 'lt0', 'eq0') and _has_afn(h):
                return rebuild(h, [ex(x) if x.sort == 'B' else self.simp(x, True) for x in h.args])
            return h
        new = [u for h in self.hyps for u in [ex(h)] if u is not h]
        if not new:
            return False
        p = self.child(*new)
        return p.ent(FALSE) or any(p._instantiate(not_(u)) for u in new)

    # ------------------------------------------------------------ truth
    def prove(self, g):
        try:
            return self._prove(g)
        except (TooBig, RecursionError):
            return False

    def _prove(self, g):
        self.budget.check()
        if g is TRUE:
            return True
        if g.op == 'and':
            return all(self._prove(x) for x in g.args)
        if g.op == 'forall':
            v, lo, hi, body = open_binder(g)
            return self.child(le(lo, v), lt(v, hi))._prove(body)
        if self.ent(g):
            STAT['z3'] += 1
            return True
        if g is FALSE:
            return self._refute()
        if g.op == 'or':
            # a or b or c : assume the negation of all but one
            xs = sorted(g.args, key=lambda x: 0 if x.op == 'eq0' else 1 if x.op in ('le0', 'lt0') else 2)
            for x in xs[:3]:
                ch = self.child(*[not_(y) for y in xs if y is not x])
                if ch.inconsistent():
                    return True
                if ch._prove(x):
                    return True
            return False
        if g.op == 'eq0':
            return self._prove_eq(g.args[0], ZERO)
        if g.op in ('le0', 'lt0'):
            u = self.simp(g.args[0])
            if (le0 if g.op == 'le0' else lt0)(u) is TRUE:
                return True
            n = Norm(self.hyps, lambda q: self.ent(q))
            try:
                w = n.canon(u)
            except TooBig:
                w = u
            if w is not u and self.ent((le0 if g.op == 'le0' else lt0)(w)):
                return True
            if g.op == 'le0' and (smt.nonneg(mulc(-1, w)) or self.nonneg(mulc(-1, u))):
                return True
            u2 = self.simp(g.args[0], True)
            if u2 is not u and self.ent((le0 if g.op == 'le0' else lt0)(u2)):
                return True
            if self._instantiate((le0 if g.op == 'le0' else lt0)(u2)):
                return True
        if g.op == 'sel':
            u = self.simp(g, True)
            if u is not g:
                return self._prove(u)
        return False


def open_any(f, i):
    v, lo, hi, b = open_binder(f)
    return v, lo, hi, subst(b, {v: i})


def _ratio(d, s, t):
    """r such that the terms of d linear in s and t cancel when s = r*t"""
    cs = ct = None
    c, dd = lin_parts(d)
    for a, k in dd.items():
        kk, f = fac_parts(a)
        if f.get(s) == 1:
            if cs is not None:
                return None
            cs = mk_mul(k * kk, {x: e for x, e in f.items() if x is not s})
        elif f.get(t) == 1:
            if ct is not None:
                return None
            ct = mk_mul(k * kk, {x: e for x, e in f.items() if x is not t})
    if cs is None or ct is None:
        return None
    r = mulc(-1, div(ct, cs))
    return None if r is ONE else r


def _has_afn(t):
    return any(x.op == 'afn' for x in subterms(t))


def _has_const_afn(t):
    return any(x.op == 'sel' and x.args[0].op == 'afn' and all(i.op == 'const' for i in x.args[1:]) for x in subterms(t))


def _split_cond(t):
    """an ite condition occurring outside binders"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in BINDERS:
            st.extend(x.args[:2] if x.op != 'afn' else ())
            continue
        if x.op == 'ite':
            c = x.args[0]
            if not any(v.op == 'bv' for v in c.fv):
                while c.op in ('and', 'or', 'not'):
                    c = c.args[0]
                return c
        st.extend(x.args)
    return None


def _max_binders(t):
    out = {}
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ('sum', 'maxf', 'minf'):
            if not any(v.op == 'bv' for v in x.fv):
                out[x] = 1
                continue
        if x.op == 'afn':
            continue
        st.extend(x.args)
    return sorted(out, key=lambda x: x.id)


def _index_shape(t, v):
    """multiset of coefficients of v in array indices: cheap filter for reversal"""
    out = []
    for x in subterms(t):
        if x.op == 'sel':
            for i in x.args[1:]:
                if v in i.fv:
                    c, d = lin_parts(i)
                    out.append((x.args[0].id, sum(1 if k > 0 else -1 for a, k in d.items() if v in a.fv)))
    return sorted(set(out))


def _replace(t, old, new):
    memo = {}

    def go(x):
        if x is old:
            return new
        if x in memo:
            return memo[x]
        if not x.args:
            r = x
        elif x.op in BINDERS:
            if any(s is old for s in subterms(x)):
                if x.op == 'afn':
                    vs, b = open_afn(x)
                    r = mk_afn(vs, go(b), [go(l) for l in x.args[1:]])
                else:
                    v, lo, hi, b = open_binder(x)
                    r = MKB[x.op](v, go(lo), go(hi), go(b))
            else:
                r = x
        else:
            args = [go(a) for a in x.args]
            r = rebuild(x, args) if any(p is not q for p, q in zip(args, x.args)) else x
        memo[x] = r
        return r
    return go(t)
