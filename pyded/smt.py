"""Arithmetic side conditions: translation to z3 with instantiated axioms."""
import os
import time
from fractions import Fraction as F
import z3
from . import terms as tm
from .terms import *

STATS = {'queries': 0, 'time': 0.0, 'nl': 0, 'unknown': 0}
# array symbol -> function(index terms) -> list of boolean facts true of every in-bounds element
ARRAY_FACTS = {}
# application name -> function(term) -> list of facts
APP_FACTS = {}
NONNEG_APPS = set()     # uninterpreted functions a unit assumes to be non-negative
# array application name -> function(array term, *index) -> list of facts about that element
APPA_FACTS = {}
TIMEOUT = 6000
if os.environ.get('PYDED_SEED'):
    z3.set_param('smt.random_seed', int(os.environ['PYDED_SEED']))

_z = {}
_keep = []


def zconst(t):
    n = 't%d' % t.id
    if t.sort == 'I':
        return z3.Int(n)
    if t.sort == 'B':
        return z3.Bool(n)
    return z3.Real(n)


def conv(t, nl):
    key = (t.id, nl)
    r = _z.get(key)
    if r is None:
        r = _conv(t, nl)
        _z[key] = r
    return r


def _toreal(z):
    return z3.ToReal(z) if z.is_int() else z


def _conv(t, nl):
    o = t.op
    if o == 'const':
        if t.val.denominator == 1:
            return z3.IntVal(t.val.numerator)
        return z3.RealVal(str(t.val))
    if o == 'true':
        return z3.BoolVal(True)
    if o == 'false':
        return z3.BoolVal(False)
    if o == 'lin':
        zs = [conv(a, nl) for a in t.args]
        allint = all(z.is_int() for z in zs) and all(k.denominator == 1 for k in t.val[1]) and t.val[0].denominator == 1
        if allint:
            r = z3.IntVal(t.val[0].numerator)
            for k, z in zip(t.val[1], zs):
                r = r + k.numerator * z
            return r
        r = z3.RealVal(str(t.val[0]))
        for k, z in zip(t.val[1], zs):
            r = r + z3.RealVal(str(k)) * _toreal(z)
        return r
    if o == 'mul' and nl:
        zs = [conv(a, nl) for a in t.args]
        if t.sort == 'I':
            r = None
            for z, e in zip(zs, t.val):
                for _ in range(e):
                    r = z if r is None else r * z
            return r
        num = z3.RealVal(1)
        for z, e in zip(zs, t.val):
            for _ in range(abs(e)):
                num = num * _toreal(z) if e > 0 else num / _toreal(z)
        return num
    if o == 'ite':
        a, b = conv(t.args[1], nl), conv(t.args[2], nl)
        if a.sort() != b.sort():
            a, b = _toreal(a), _toreal(b)
        return z3.If(conv(t.args[0], nl), a, b)
    if o == 'idiv' and t.args[1].op == 'const' and nl != 'x':
        return zconst(t)
    if o in ('le0', 'lt0', 'eq0'):
        a = conv(t.args[0], nl)
        return a <= 0 if o == 'le0' else a < 0 if o == 'lt0' else a == 0
    if o == 'and':
        return z3.And([conv(a, nl) for a in t.args])
    if o == 'or':
        return z3.Or([conv(a, nl) for a in t.args])
    if o == 'not':
        return z3.Not(conv(t.args[0], nl))
    if o == 'exists':
        return z3.Not(conv(not_(t), nl))
    return zconst(t)


# ------------------------------------------------------------ sign analysis
_nn = {}


def nonneg(t):
    r = _nn.get(t.id)
    if r is None:
        r = _nonneg(t)
        _nn[t.id] = r
    return r


def _nonneg(t):
    o = t.op
    if o == 'const':
        return t.val >= 0
    if o == 'app':
        return t.val in ('sqrt', 'abs', 'exp', 'pi', 'chi2ppf', 'quadpos', 'quadgt') or t.val in NONNEG_APPS or t in POSITIVE or (t.val == 'pow' and (t.args[1].sort == 'R' or nonneg(t.args[0])))
    if o == 'lin':
        return t.val[0] >= 0 and all(k > 0 and nonneg(a) for a, k in zip(t.args, t.val[1]))
    if o == 'mul':
        return all(e % 2 == 0 or nonneg(b) for b, e in zip(t.args, t.val))
    if o == 'ite':
        return nonneg(t.args[1]) and nonneg(t.args[2])
    if o in ('sum', 'maxf', 'minf'):
        return nonneg(t.args[2])
    return t in POSITIVE


POSITIVE = set()   # symbols declared positive by a contract


# ------------------------------------------------------------ axioms
def atoms_of(ts):
    seen = {}
    st = list(ts)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen[x] = 1
        if x.op in BINDERS or x.op == 'psum':
            if x.op in ('sum', 'maxf', 'minf', 'psum'):
                st.extend(x.args[:2] if x.op != 'psum' else x.args[1:])
            continue
        st.extend(x.args)
    return seen


def _mono_axioms(t):
    out = []
    bs = list(zip(t.args, t.val))
    if len(bs) == 1:
        b, e = bs[0]
        if e < 0 and e % 2:
            out.append(implies(gt(b, ZERO), gt(t, ZERO)))
            out.append(implies(ge(b, ONE), le(t, ONE)))
            out.append(implies(lt(b, ZERO), lt(t, ZERO)))
        elif e % 2 == 0:
            if e > 0:
                out.append(ge(t, ZERO))
                out.append(implies(ne(b, ZERO), gt(t, ZERO)))
                out.append(implies(ge(b, ONE), ge(t, b)))
            else:
                out.append(implies(ne(b, ZERO), gt(t, ZERO)))
        return out
    b, e = bs[0]
    for i in range(len(bs)):
        b, e = bs[i]
        a = powi(b, e)
        r = mk_mul(F(1), {x: k for x, k in bs if x is not b})
        out.append(implies(and_(ge(a, ZERO), ge(r, ZERO)), ge(t, ZERO)))
        out.append(implies(and_(gt(a, ZERO), gt(r, ZERO)), gt(t, ZERO)))
        out.append(implies(and_(le(a, ZERO), ge(r, ZERO)), le(t, ZERO)))
        out.append(implies(and_(ge(a, ZERO), le(r, ZERO)), le(t, ZERO)))
        out.append(implies(and_(ge(a, ONE), ge(r, ZERO)), ge(t, r)))
        out.append(implies(and_(ge(r, ONE), ge(a, ZERO)), ge(t, a)))
        out.append(implies(and_(ge(a, const(2)), ge(r, ZERO)), ge(t, mulc(2, r))))
        out.append(implies(and_(ge(r, const(2)), ge(a, ZERO)), ge(t, mulc(2, a))))
        out.append(implies(and_(ge(a, ZERO), le(r, const(-1))), le(t, mulc(-1, a))))
        out.append(implies(and_(ge(r, ZERO), le(a, const(-1))), le(t, mulc(-1, r))))
        out.append(implies(or_(eq(a, ZERO), eq(r, ZERO)), eq(t, ZERO)))
        if len(bs) == 2:
            break
    return out


def log_bounds(q):
    """rational enclosure of the natural logarithm of a positive rational, 12 digits"""
    from decimal import Decimal, localcontext
    if q == 1:
        return F(-1, 10 ** 12), F(1, 10 ** 12)
    with localcontext() as c:
        c.prec = 40
        v = F((Decimal(q.numerator) / Decimal(q.denominator)).ln())
    return v - F(1, 10 ** 12), v + F(1, 10 ** 12)


_small = {}


def small_term(t):
    r = _small.get(t.id)
    if r is None:
        ss = tm.subterms(t)
        r = _small[t.id] = len(ss) <= 30 and not any(x.op in BINDERS for x in ss)
    return r


def int_pow(t):
    """exponents of an integer combination of powers c^k of integers; an integer when they are non-negative"""
    if t.op == 'app' and t.val == 'pow' and t.args[0].op == 'const' and t.args[0].val.denominator == 1 and t.args[1].sort == 'I':
        return [t.args[1]]
    if t.op == 'lin' and all(F(c).denominator == 1 for c in (t.val[0],) + tuple(t.val[1])):
        out = []
        for a in t.args:
            if a.sort == 'I':
                continue
            r = int_pow(a)
            if r is None:
                return None
            out += r
        return out
    return None


def axioms(ts, rounds=2, hyps=()):
    done = set()
    out = []
    cur = list(ts)
    fdone = set()
    for rnd in range(rounds):
        ats = atoms_of(cur + out)
        new = []
        monos = []
        idxs = []
        for x in list(ats):
            if x.op == 'sel' and len(x.args) == 2 and not any(v.op == 'bv' for v in x.fv):
                idxs.append(x.args[1])
            elif x.op == 'app' and x.val == 'selidx' and not any(v.op == 'bv' for v in x.fv):
                idxs.append(x.args[2])
                idxs.append(x)
            if x.op == 'mul' and x.sort == 'I':
                monos.append(x)
            if x in done or any(v.op == 'bv' for v in x.fv):
                continue
            done.add(x)
            if x.op == 'mul':
                new += _mono_axioms(x)
            elif x.op == 'idiv':
                a, b = x.args
                q = x
                if b.op == 'const':
                    new += [le(mul(b, q), a), lt(a, mul(b, add(q, ONE)))]
                else:
                    pos = gt(b, ZERO)
                    for c in (-2, -1, 0, 1, 2, 3, 4):
                        new.append(implies(pos, iff(ge(q, const(c)), ge(a, mulc(c, b)))))
                    new.append(implies(pos, and_(le(mul(b, q), a), lt(a, add(mul(b, q), b)))))
            elif x.op == 'app':
                if x.val == 'segment':      # see pubnoise.located
                    new += [ge(x, ONE), implies(ge(x.args[1], const(2)), lt(x, x.args[1]))]
                elif x.val == 'rint':
                    d = sub(x, x.args[0])
                    new += [le(d, const(F(1, 2))), ge(d, const(F(-1, 2)))]
                    ex = int_pow(x.args[0])
                    if ex is not None:
                        new.append(implies(and_(*[ge(k, ZERO) for k in ex]), eq(x, x.args[0])))
                elif x.val == 'floor':
                    new += [le(x, x.args[0]), lt(x.args[0], add(x, ONE))]
                elif x.val == 'abs':
                    a = x.args[0]
                    new += [ge(x, a), ge(x, mulc(-1, a)), or_(eq(x, a), eq(x, mulc(-1, a)))]
                elif x.val == 'sqrt':
                    new += [ge(x, ZERO), implies(gt(x.args[0], ZERO), gt(x, ZERO)),
                            implies(ge(x.args[0], ONE), ge(x, ONE))]
                elif x.val == 'pi':
                    new += [gt(x, const(F(314159, 100000))), lt(x, const(F(314160, 100000)))]
                elif x.val in ('exp', 'quadgt'):
                    new.append(gt(x, ZERO))
                elif x.val == 'pow' and nonneg(x.args[0]) and x.sort == 'R' and pos_h([], x.args[0]):
                    new.append(gt(x, ZERO))
                elif x.val == 'pow' and x.sort == 'R':
                    new.append(implies(and_(ge(x.args[0], ONE), ge(x.args[1], ZERO)), ge(x, ONE)))
                elif x.val == 'log':
                    a = x.args[0]
                    new += [implies(gt(a, ONE), gt(x, ZERO)), implies(eq(a, ONE), eq(x, ZERO)),
                            implies(and_(gt(a, ZERO), lt(a, ONE)), lt(x, ZERO)),
                            implies(ge(a, const(2)), gt(x, const(F(693, 1000)))), implies(ge(a, const(3)), gt(x, const(F(1098, 1000))))]
                    if a.op == 'const' and a.val > 0:
                        lo, hi = log_bounds(a.val)
                        new += [gt(x, const(lo)), lt(x, const(hi))]
                f = APP_FACTS.get(x.val)
                if f:
                    new += f(x)
            elif x.op == 'sel':
                if x.args[0].op == 'afn' and x.sort in 'IR':
                    d = sel(*x.args, force=True)
                    if d is not x and small_term(d):
                        new.append(eq(x, d))
                f = ARRAY_FACTS.get(x.args[0])
                if f:
                    new += f(*x.args[1:])
                if x.args[0].op == 'app':
                    f = APPA_FACTS.get(x.args[0].val)
                    if f:
                        new += f(*x.args)
            elif x.op == 'sum':
                if x.args[2] is ONE:
                    lo, hi = x.args[:2]
                    new += [implies(le(lo, hi), eq(x, sub(hi, lo))), implies(le(hi, lo), eq(x, ZERO))]
                if nonneg(x.args[2]):
                    new.append(ge(x, ZERO))
                if x.args[2].op == 'ite' and {x.args[2].args[1], x.args[2].args[2]} == {ZERO, ONE}:
                    new.append(implies(le(x.args[0], x.args[1]), le(x, sub(x.args[1], x.args[0]))))
            if x in POSITIVE:
                new.append(gt(x, ZERO))
            if x.sort == 'R' and x.op in ('app', 'sum', 'maxf') and nonneg(x):
                new.append(ge(x, ZERO))
        # logarithms are increasing
        logs = [x for x in list(ats) if x.op == 'app' and x.val == 'log' and x.args[0].op != 'const' and not any(v.op == 'bv' for v in x.fv)][:8]
        for i in range(len(logs)):
            for j in range(i):
                a, b = logs[i], logs[j]
                if (a, b) not in done:
                    done.add((a, b))
                    p, q = a.args[0], b.args[0]
                    new += [implies(and_(gt(q, ZERO), gt(p, q)), gt(a, b)), implies(and_(gt(p, ZERO), gt(q, p)), gt(b, a))]
        # products sharing a factor
        monos = monos[:14]
        for i in range(len(monos)):
            for j in range(i):
                a, b = monos[i], monos[j]
                if (a, b) in done:
                    continue
                done.add((a, b))
                fa, fb = dict(zip(a.args, a.val)), dict(zip(b.args, b.val))
                for f in set(fa) & set(fb):
                    ra = mk_mul(F(1), {x: e - (x is f) for x, e in fa.items()})
                    rb = mk_mul(F(1), {x: e - (x is f) for x, e in fb.items()})
                    if ra is rb:
                        continue
                    new.append(implies(and_(ge(f, ZERO), le(ra, rb)), le(a, b)))
                    new.append(implies(and_(ge(f, ZERO), le(rb, ra)), le(b, a)))
                    new.append(implies(and_(ge(f, ZERO), le(add(ra, ONE), rb)), le(add(a, f), b)))
                    new.append(implies(and_(ge(f, ZERO), le(add(rb, ONE), ra)), le(add(b, f), a)))
        # instantiate universally quantified formulas at index terms
        foralls = [x for x in ats if x.op in ('forall', 'exists') and not any(v.op == 'bv' for v in x.fv)]
        for h in foralls:
            n = 0
            for i in dict.fromkeys(idxs):
                if (h, i) in fdone or n > 24:
                    continue
                fdone.add((h, i))
                n += 1
                b = tm._mk('bv', (), (h.val[0], 0), 'I')
                body = subst(h.args[2], {b: i})
                rng = and_(le(h.args[0], i), lt(i, h.args[1]))
                if h.op == 'forall':
                    new.append(or_(not_(h) if False else tm._mk('not', (h,), None, 'B'), not_(rng), body))
                else:
                    new.append(or_(h, not_(and_(rng, body))))
        new = [n for n in new if n is not TRUE]
        if not new:
            break
        out += new
        cur = new
    return out


_cache = {}


def check_sat(fs, timeout=None, want_model=False):
    """returns 'unsat' | 'sat' | 'unknown' for the conjunction of fs"""
    key = frozenset(f.id for f in fs)
    r = _cache.get(key)
    if r is not None and not want_model:
        return r
    r = _check_sat(fs, timeout, want_model)
    if not want_model:
        _cache[key] = r
    return r


def _run(s, ms):
    t0 = time.time()
    s.set('rlimit', 4000000)
    r = str(s.check())
    if time.time() - t0 > 5 and os.environ.get('PYDED_SLOW'):
        print('slow z3', round(time.time() - t0, 1), r, len(s.assertions()), s.statistics())
        open('/tmp/w/slow.smt2', 'w').write(s.to_smt2())
    return r


def _check_sat(fs, timeout, want_model):
    t0 = time.time()
    STATS['queries'] += 1
    if any(f is FALSE for f in fs):
        return 'unsat'
    fs = list(fs)
    ax = axioms(fs, hyps=fs)
    s = z3.Solver()
    s.set('timeout', timeout or TIMEOUT)
    for f in fs + ax:
        s.add(conv(f, False))
    r = _run(s, timeout or TIMEOUT)
    nonlin = any(x.op == 'mul' for x in atoms_of(fs))
    if r != 'unsat' and nonlin:
        STATS['nl'] += 1
        s = z3.Solver()
        s.set('timeout', timeout or TIMEOUT)
        for f in fs + ax:
            s.add(conv(f, True))
        r = _run(s, timeout or TIMEOUT)
    STATS['time'] += time.time() - t0
    if r == 'unknown':
        STATS['unknown'] += 1
    if want_model:
        return r, (s.model() if r == 'sat' else None)
    return r


def entails(hyps, goal, timeout=None):
    if goal is TRUE:
        return True
    if goal is FALSE:
        return check_sat(list(hyps), timeout) == 'unsat'
    hs = set(hyps)
    if goal in hs:
        return True
    if goal.op == 'and':
        return all(entails(hyps, g, timeout) for g in goal.args)
    if goal.op == 'forall':
        v, lo, hi, body = open_binder(goal)
        return entails(list(hyps) + [le(lo, v), lt(v, hi)], body, timeout)
    if goal.op in ('le0', 'lt0') and goal.args[0].op in ('mul', 'sum', 'ite', 'maxf', 'minf', 'lin'):
        u = goal.args[0]
        if u.op != 'lin' or any(a.op in ('mul', 'sum', 'app', 'ite', 'maxf', 'minf') or a.op == 'sel' and a.args[0].op == 'afn' for a in u.args):
            w = mulc(-1, u)
            if (nn_h if goal.op == 'le0' else pos_h)(hyps, w, timeout, True):
                return True
    if goal.op == 'not' and goal.args[0].op == 'eq0' and goal.args[0].args[0].op == 'mul':
        if all(nonzero_h(hyps, b, timeout) for b in goal.args[0].args[0].args):
            return True
    return check_sat(list(hyps) + [not_(goal)], timeout) == 'unsat'


def nonzero_h(hyps, t, timeout=None):
    return pos_h(hyps, t, timeout, t.op == 'lin') or _leaf(hyps, ne(t, ZERO), timeout, False)


def _leaf(hyps, g, timeout, top):
    return not top and check_sat(list(hyps) + [not_(g)], timeout) == 'unsat'


def np_h(hyps, t, timeout=None):
    """t <= 0 by the signs of its parts"""
    o = t.op
    if o == 'const':
        return t.val <= 0
    if o == 'sel' and t.args[0].op == 'afn':
        return np_h(hyps, sel(*t.args, force=True), timeout)
    if o == 'mul':
        odd = [b for b, e in zip(t.args, t.val) if e % 2]
        for b in odd:
            if b.op in ('lin', 'sum', 'ite') and all(c is b or nn_h(hyps, c, timeout) for c in odd) and np_h(hyps, b, timeout):
                return True
        return False
    if o == 'ite':
        return np_h(list(hyps) + [t.args[0]], t.args[1], timeout) and np_h(list(hyps) + [not_(t.args[0])], t.args[2], timeout)
    if o == 'sum':
        v, lo, hi, b = open_binder(t)
        return np_h(list(hyps) + [le(lo, v), lt(v, hi)], b, timeout)
    if o == 'lin':
        return nn_h(hyps, mulc(-1, t), timeout)
    return False


def nn_h(hyps, t, timeout=None, top=False):
    """t >= 0 by the signs of its parts"""
    if nonneg(t):
        return True
    o = t.op
    if o == 'const':
        return False
    if o == 'sel' and t.args[0].op == 'afn':
        return nn_h(hyps, sel(*t.args, force=True), timeout)
    if o == 'mul':
        if all(e % 2 == 0 or nn_h(hyps, b, timeout) for b, e in zip(t.args, t.val)):
            return True
        return False
    if o == 'ite':
        return nn_h(list(hyps) + [t.args[0]], t.args[1], timeout) and nn_h(list(hyps) + [not_(t.args[0])], t.args[2], timeout)
    if o in ('sum', 'maxf', 'minf'):
        v, lo, hi, b = open_binder(t)
        return nn_h(list(hyps) + [le(lo, v), lt(v, hi)], b, timeout)
    if o == 'lin':
        if t.val[0] >= 0 and all(k > 0 for k in t.val[1]) and all(nn_h(hyps, a, timeout) for a in t.args):
            return True
        if t.val[0] == 0 and len(t.args) == 1 and t.args[0].op in ('mul', 'sum', 'ite'):     # -(a*b) with a <= 0 <= b
            if t.val[1][0] > 0:
                return nn_h(hyps, t.args[0], timeout)
            if np_h(hyps, t.args[0], timeout):
                return True
        w = at_first(hyps, t, timeout)
        if w is not None and (w is ZERO or nn_h(hyps, w, timeout)):
            return True
        return _leaf(hyps, ge(t, ZERO), timeout, top)
    if t.sort == 'B':
        return False
    return _leaf(hyps, ge(t, ZERO), timeout, top)


def at_first(hyps, t, timeout):
    """lower bound of a linear term: its maxima (coefficient > 0) and minima (< 0) at their first element"""
    out = const(t.val[0])
    hit = False
    for k, a in zip(t.val[1], t.args):
        if (a.op == 'maxf' and k > 0 or a.op == 'minf' and k < 0) and entails(hyps, lt(a.args[0], a.args[1]), timeout):
            v, lo, hi, b = open_binder(a)
            out = add(out, mulc(k, subst(b, {v: lo})))
            hit = True
        else:
            out = add(out, mulc(k, a))
    return out if hit else None


def pos_h(hyps, t, timeout=None, top=False):
    o = t.op
    if t in POSITIVE:
        return True
    if o == 'const':
        return t.val > 0
    if o == 'sel' and t.args[0].op == 'afn':
        return pos_h(hyps, sel(*t.args, force=True), timeout)
    if o == 'app' and t.val in ('exp', 'pi', 'chi2ppf', 'quadgt'):
        return True
    if o == 'app' and t.val in ('sqrt', 'pow'):
        return pos_h(hyps, t.args[0], timeout)
    if o == 'mul':
        return all(pos_h(hyps, b, timeout) or (e % 2 == 0 and _leaf(hyps, ne(b, ZERO), timeout, False)) for b, e in zip(t.args, t.val))
    if o == 'ite':
        return pos_h(list(hyps) + [t.args[0]], t.args[1], timeout) and pos_h(list(hyps) + [not_(t.args[0])], t.args[2], timeout)
    if o == 'maxf' or o == 'minf':
        v, lo, hi, b = open_binder(t)
        return pos_h(list(hyps) + [le(lo, v), lt(v, hi)], b, timeout)
    if o == 'lin':
        if t.val[0] >= 0 and all(k > 0 for k in t.val[1]) and all(nn_h(hyps, a, timeout) for a in t.args):
            if t.val[0] > 0 or any(pos_h(hyps, a, timeout) for a in t.args):
                return True
        return _leaf(hyps, gt(t, ZERO), timeout, top)
    if t.sort == 'B' or o == 'sum':
        return False
    return _leaf(hyps, gt(t, ZERO), timeout, top)
