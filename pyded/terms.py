"""Hash-consed terms over mathematical integers, reals, booleans and arrays.

Canonical forms: linear combinations ('lin'), Laurent products ('mul'),
binders (sum/max/min/forall/exists/afn) labelled by height so that
alpha-equivalent terms are the same object.
"""
from fractions import Fraction as F
import itertools
from math import gcd, isqrt

_table = {}
_ids = itertools.count(1)
EMPTY = frozenset()
BINDERS = ('sum', 'maxf', 'minf', 'forall', 'exists', 'afn')


class T(object):
    __slots__ = ('op', 'args', 'val', 'sort', 'id', 'fv', 'lev')

    def __repr__(self):
        return pp(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    # arithmetic sugar used by the specifications
    def __add__(self, o): return add(self, lift(o))
    def __radd__(self, o): return add(lift(o), self)
    def __sub__(self, o): return sub(self, lift(o))
    def __rsub__(self, o): return sub(lift(o), self)
    def __mul__(self, o): return mul(self, lift(o))
    def __rmul__(self, o): return mul(lift(o), self)
    def __truediv__(self, o): return div(self, lift(o))
    def __rtruediv__(self, o): return div(lift(o), self)
    def __floordiv__(self, o): return idiv(self, lift(o))
    def __rfloordiv__(self, o): return idiv(lift(o), self)
    def __mod__(self, o): return imod(self, lift(o))
    def __neg__(self): return mulc(F(-1), self)
    def __pow__(self, n): return power(self, lift(n))
    def __rpow__(self, n): return power(lift(n), self)
    def __bool__(self):
        raise TypeError("symbolic term used as a Python boolean: %s" % pp(self))


def _mk(op, args=(), val=None, sort='R', lev=None):
    key = (op, val, sort) + tuple([a.id for a in args])
    t = _table.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.val, t.sort = op, tuple(args), val, sort
    t.id = next(_ids)
    if op in ('sym', 'bv'):
        t.fv = frozenset((t,))
        t.lev = 0
    else:
        fv = EMPTY
        l = 0
        for a in args:
            if a.fv:
                fv = fv | a.fv if fv else a.fv
            if a.lev > l:
                l = a.lev
        if op in BINDERS:
            h = val[0]
            fv = frozenset([v for v in fv if not (v.op == 'bv' and v.val[0] == h)])
            l = max(l, h)
        t.fv, t.lev = fv, l
    _table[key] = t
    return t


# ---------------------------------------------------------------- leaves
def const(c):
    if isinstance(c, bool):
        return TRUE if c else FALSE
    if isinstance(c, float):
        c = F(repr(c))
    c = F(c)
    return _mk('const', (), c, 'I' if c.denominator == 1 else 'R')


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, (bool, int, float, F)):
        return const(x)
    try:
        import numpy as np
        if isinstance(x, np.generic):
            return const(x.item())
    except ImportError:
        pass
    if hasattr(x, 'term'):
        return x.term
    raise TypeError("cannot lift %r" % (x,))


TRUE = _mk('true', (), None, 'B')
FALSE = _mk('false', (), None, 'B')
ZERO = const(0)
ONE = const(1)
NONCANON = set()

_fresh = itertools.count(1)


def sym(name, sort='R'):
    return _mk('sym', (), name, sort)


def fresh(name, sort='R'):
    return _mk('sym', (), '%s!%d' % (name, next(_fresh)), sort)


def is_const(t):
    return t.op == 'const'


def isint(t):
    return t.sort == 'I'


# ---------------------------------------------------------------- linear
def lin_parts(t):
    """(const, {atom: coef})"""
    if t.op == 'const':
        return t.val, {}
    if t.op == 'lin':
        return t.val[0], dict(zip(t.args, t.val[1]))
    return F(0), {t: F(1)}


def mk_lin(c, d):
    items = sorted(((a, k) for a, k in d.items() if k != 0), key=lambda p: p[0].id)
    if not items:
        return const(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    s = 'I' if (F(c).denominator == 1 and all(a.sort == 'I' and k.denominator == 1 for a, k in items)) else 'R'
    return _mk('lin', [a for a, _ in items], (F(c), tuple(k for _, k in items)), s)


def add(*ts):
    c = F(0)
    d = {}
    for t in ts:
        if t.op == 'const':
            c += t.val
        elif t.op == 'lin':
            c += t.val[0]
            for a, k in zip(t.args, t.val[1]):
                d[a] = d.get(a, 0) + k
        else:
            d[t] = d.get(t, 0) + F(1)
    return mk_lin(c, d)


def mulc(k, t):
    k = F(k)
    if k == 1:
        return t
    if k == 0:
        return ZERO
    c, d = lin_parts(t)
    return mk_lin(c * k, {a: v * k for a, v in d.items()})


def sub(a, b):
    return add(a, mulc(F(-1), b))


# ---------------------------------------------------------------- products
def fac_parts(t):
    """(coef, {base: exp})"""
    if t.op == 'const':
        return t.val, {}
    if t.op == 'mul':
        return F(1), dict(zip(t.args, t.val))
    if t.op == 'lin':
        if len(t.args) == 1 and t.val[0] == 0:
            k, d = fac_parts(t.args[0])
            return t.val[1][0] * k, d
        # rational content (gcd), sign of the leading coefficient
        n, dd = t.val[0].numerator, t.val[0].denominator
        for q in t.val[1]:
            n = gcd(n, q.numerator)
            dd = dd * q.denominator // gcd(dd, q.denominator)
        k = F(abs(n), dd)
        if t.val[1][0] < 0:
            k = -k
        return k, {mulc(1 / k, t): 1}
    return F(1), {t: 1}


def mk_mul(k, d):
    """k * prod base^exp, with sqrt powers reduced."""
    if k == 0:
        return ZERO
    again = True
    while again:
        again = False
        for b in list(d):
            e = d[b]
            if e == 0:
                del d[b]
                continue
            if b.op == 'app' and b.val == 'sqrt' and e not in (0, 1):
                q, r = divmod(e, 2)
                if r:
                    d[b] = r
                else:
                    del d[b]
                kk, dd = fac_parts(b.args[0])
                k = k * kk ** q
                for bb, ee in dd.items():
                    d[bb] = d.get(bb, 0) + ee * q
                again = True
                break
            if b.op == 'app' and b.val == 'abs' and e % 2 == 0:
                del d[b]
                kk, dd = fac_parts(b.args[0])
                k = k * kk ** e
                for bb, ee in dd.items():
                    d[bb] = d.get(bb, 0) + ee * e
                again = True
                break
    items = sorted(((b, e) for b, e in d.items() if e != 0), key=lambda p: p[0].id)
    if not items:
        return const(k)
    if len(items) == 1 and items[0][1] == 1:
        return mulc(k, items[0][0])
    if all(b.sort == 'I' and e > 0 for b, e in items) and any(b.op == 'lin' for b, e in items):
        size = 1
        for b, e in items:
            size *= (len(b.args) + 1) ** e if b.op == 'lin' else 1
        if size <= 64:
            r = const(k)
            for b, e in items:
                for _ in range(e):
                    r = _distr(r, b)
            return r
    s = 'I' if all(b.sort == 'I' and e > 0 for b, e in items) else 'R'
    m = _mk('mul', [b for b, _ in items], tuple(e for _, e in items), s)
    return mulc(k, m)


def _distr(p, q):
    c1, d1 = lin_parts(p)
    c2, d2 = lin_parts(q)
    out = {}
    cc = c1 * c2

    def acc(t, k):
        nonlocal cc
        c, d = lin_parts(t)
        cc += c * k
        for a, v in d.items():
            out[a] = out.get(a, 0) + v * k
    for a, k in d1.items():
        if c2:
            acc(a, k * c2)
        for b, l in d2.items():
            ka, fa = fac_parts(a)
            kb, fb = fac_parts(b)
            for bb, e in fb.items():
                fa[bb] = fa.get(bb, 0) + e
            acc(mk_mul(ka * kb, fa), k * l)
    if c1:
        for b, l in d2.items():
            acc(b, l * c1)
    return mk_lin(cc, out)


def mul(a, b):
    if a.op == 'const':
        return mulc(a.val, b)
    if b.op == 'const':
        return mulc(b.val, a)
    if a.op == 'ite' and b.op == 'ite' and a.args[0] is b.args[0]:
        return ite(a.args[0], mul(a.args[1], b.args[1]), mul(a.args[2], b.args[2]))
    ka, fa = fac_parts(a)
    kb, fb = fac_parts(b)
    d = dict(fa)
    for bb, e in fb.items():
        d[bb] = d.get(bb, 0) + e
    return mk_mul(ka * kb, d)


def powi(a, n):
    if n == 0:
        return ONE
    if a.op == 'const':
        return const(a.val ** n)
    k, d = fac_parts(a)
    return mk_mul(k ** n, {b: e * n for b, e in d.items()})


def div(a, b):
    return mul(a, powi(b, -1))


def power(a, b):
    a, b = lift(a), lift(b)
    if b.op == 'const' and b.val.denominator == 1:
        if a.op == 'const' and a.val == 0 and b.val < 0:
            return app('pow', a, b)
        return powi(a, int(b.val))
    if b.op == 'const' and b.val.denominator == 2 and b.val > 0:
        n = int(b.val * 2)
        return powi(sqrt(a), n)
    if a is ONE:
        return ONE
    return app('pow', a, b)


def sqrt(t):
    t = lift(t)
    if t.op == 'const':
        v = t.val
        if v >= 0:
            n, d = isqrt(v.numerator), isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return const(F(n, d))
            # canonical: sqrt(a/b) = sqrt(a*b)/b
            if v.denominator != 1:
                return mulc(F(1, v.denominator), sqrt(const(v.numerator * v.denominator)))
            return _mk('app', (t,), 'sqrt', 'R')
        return _mk('app', (t,), 'sqrt', 'R')
    k, d = fac_parts(t)
    if k > 0 and k != 1:
        return mul(sqrt(const(k)), sqrt(mk_mul(F(1), d)))
    return _mk('app', (t,), 'sqrt', 'R')


def absv(t):
    t = lift(t)
    if t.op == 'const':
        return const(abs(t.val))
    if t.op == 'app' and t.val in ('sqrt', 'abs'):
        return t
    k, d = fac_parts(t)
    if len(d) == 1 and list(d.values())[0] == 1:
        b = list(d)[0]
        if k != 1:
            return mulc(abs(k), absv(b))
        if b.op == 'lin':  # sign-canonical
            return _mk('app', (b,), 'abs', b.sort)
        return _mk('app', (b,), 'abs', b.sort)
    r = const(abs(k))
    for b, e in d.items():
        if e % 2 == 0:
            r = mul(r, powi(b, e))
        else:
            r = mul(r, powi(absv(b), e))
    return r


APP_INT = {'rint', 'floor'}


def app(name, *args):
    args = [lift(a) for a in args]
    if name == 'sqrt':
        return sqrt(args[0])
    if name == 'abs':
        return absv(args[0])
    if name == 'rint':
        if args[0].sort == 'I':
            return args[0]
        if args[0].op == 'const':
            v = args[0].val
            return const(round(v))
        return _mk('app', args, 'rint', 'I')
    if name == 'log' and args[0] is ONE:
        return ZERO
    if name == 'exp' and args[0] is ZERO:
        return ONE
    if name == 'sin' and args[0] is ZERO:
        return ZERO
    if name == 'pow' and args[1] is ZERO:
        return ONE
    if name == 'pow' and args[1].op == 'const' and args[1].val.denominator == 1 and args[1].val > 0:
        return powi(args[0], int(args[1].val))
    return _mk('app', args, name, 'R')


def appB(name, *args):
    return _mk('app', [lift(a) for a in args], name, 'B')


def appI(name, *args):
    return _mk('app', [lift(a) for a in args], name, 'I')


def appA(name, elem, *args):
    return _mk('app', [lift(a) for a in args], name, 'A' + elem)


PI = _mk('app', (), 'pi', 'R')


def floor(t):
    t = lift(t)
    if t.sort == 'I':
        return t
    if t.op == 'const':
        return const(t.val.numerator // t.val.denominator)
    c, d = lin_parts(t)
    if all(a.sort == 'I' for a in d):
        den = c.denominator
        for k in d.values():
            den = den * k.denominator // gcd(den, k.denominator)
        return idiv(mulc(den, t), const(den))
    # a / b with integer parts
    k, fd = fac_parts(t)
    if len([1 for e in fd.values() if e < 0]) and all(b.sort == 'I' for b in fd):
        num = mk_mul(F(k.numerator), {b: e for b, e in fd.items() if e > 0})
        dn = mk_mul(F(k.denominator), {b: -e for b, e in fd.items() if e < 0})
        return idiv(num, dn)
    # linear combination with one common integer denominator
    q = _common_den(c, d)
    if q is not None:
        return idiv(*q)
    ci = c.numerator // c.denominator
    if ci != 0:
        return add(const(ci), _mk('app', (sub(t, const(ci)),), 'floor', 'I'))
    return _mk('app', (t,), 'floor', 'I')


def _common_den(c, d):
    den = ONE
    for a in d:
        k, fd = fac_parts(a)
        if any(b.sort != 'I' for b in fd):
            return None
        for b, e in fd.items():
            if e < 0:
                kd, fdd = fac_parts(den)
                have = fdd.get(b, 0)
                if have < -e:
                    den = mul(den, powi(b, -e - have))
    if den is ONE:
        return None
    num = mul(const(c), den)
    for a, k in d.items():
        num = add(num, mulc(k, mul(a, den)))
    dd = 1
    cc, nd = lin_parts(num)
    for k in [cc] + list(nd.values()):
        dd = dd * k.denominator // gcd(dd, k.denominator)
    num = mulc(dd, num)
    den = mulc(dd, den)
    if num.sort == 'I' and den.sort == 'I':
        return num, den
    return None


def ceil(t):
    t = lift(t)
    if t.sort == 'I':
        return t
    return mulc(-1, floor(mulc(-1, t)))


def polydiv(a, b):
    """a = q*b + r for integer terms, monomial-wise; returns (q, r)."""
    kb, fb = fac_parts(b)
    if b.op == 'const':
        c, d = lin_parts(a)
        q = F(c.numerator // c.denominator // b.val) if False else F((c / b.val).numerator // (c / b.val).denominator)
        qd, rd = {}, {}
        rc = c - q * b.val
        for t, k in d.items():
            qq = k / b.val
            qi = F(qq.numerator // qq.denominator)
            if qi:
                qd[t] = qi
            if k - qi * b.val:
                rd[t] = k - qi * b.val
        return mk_lin(q, qd), mk_lin(rc, rd)
    # non-constant divisor: monomials that are divisible by its leading monomial
    cb, db = lin_parts(b)
    lead = max(db, key=lambda t: (sum(fac_parts(t)[1].values()), -t.id)) if db else None
    kl = db[lead]
    _, fl = fac_parts(lead)
    q = ZERO
    r = a
    for _ in range(8):
        c, d = lin_parts(r)
        done = True
        for t, k in sorted(d.items(), key=lambda p: p[0].id):
            _, ft = fac_parts(t)
            if all(ft.get(x, 0) >= e for x, e in fl.items()) and (k / kl).denominator == 1:
                f2 = dict(ft)
                for x, e in fl.items():
                    f2[x] = f2.get(x, 0) - e
                step = mk_mul(k / kl, f2)
                q = add(q, step)
                r = sub(r, mul(step, b))
                done = False
                break
        if done:
            break
    return q, r


def idiv(a, b):
    a, b = lift(a), lift(b)
    if b.op == 'const' and b.val < 0:
        return idiv(mulc(-1, a), mulc(-1, b))
    if b is ONE:
        return a if a.sort == 'I' else floor(a)
    if a.op == 'const' and b.op == 'const' and b.val != 0:
        v = a.val / b.val
        return const(v.numerator // v.denominator)
    if a.sort != 'I' or b.sort != 'I':
        return floor(div(a, b))
    if a.op == 'lin' and b.op == 'const':
        g = 0
        for k in a.val[1] + (b.val,):
            g = gcd(g, k.numerator)
        if g > 1:  # floor((g x + c)/(g y)) = floor((x + floor(c/g))/y)
            c = a.val[0]
            a = mk_lin(F(c.numerator // g), {t: k / g for t, k in zip(a.args, a.val[1])})
            return idiv(a, const(b.val / g))
    q, r = polydiv(a, b)
    if r is ZERO:
        return q
    if r.op == 'const' and b.op == 'const' and 0 <= r.val < b.val:
        return q
    if b.op == 'const' and b.val == 2 and r.op == 'lin' and r.val[0] == 1:    # ceil(x/2) = x - floor(x/2)
        x = sub(r, ONE)
        return add(q, sub(x, idiv(x, b)))
    return add(q, _mk('idiv', (r, b), None, 'I'))


def imod(a, b):
    a, b = lift(a), lift(b)
    return sub(a, mul(b, idiv(a, b)))


# ---------------------------------------------------------------- booleans
def le0(t):
    if t.op == 'const':
        return TRUE if t.val <= 0 else FALSE
    if t.op == 'ite' and (t.args[1].op == 'const' or t.args[2].op == 'const'):
        return bite(t.args[0], le0(t.args[1]), le0(t.args[2]))
    c, d = lin_parts(t)
    if t.sort == 'I' or all(a.sort == 'I' for a in d):
        den = 1
        for k in d.values():
            den = den * k.denominator // gcd(den, k.denominator)
        g = 0
        for k in d.values():
            g = gcd(g, (k * den).numerator)
        c2 = c * den / g
        c2 = -(((-c2).numerator) // ((-c2).denominator))  # ceil: sum + c2 <= 0 tightened
        t = mk_lin(F(c2), {a: k * den / g for a, k in d.items()})
    else:
        k0 = abs(next(iter(sorted(d.items(), key=lambda p: p[0].id)))[1])
        t = mulc(1 / k0, t)
    return _mk('le0', (t,), None, 'B')


def lt0(t):
    if t.op == 'const':
        return TRUE if t.val < 0 else FALSE
    c, d = lin_parts(t)
    if all(a.sort == 'I' for a in d):
        den = c.denominator
        for k in d.values():
            den = den * k.denominator // gcd(den, k.denominator)
        return le0(add(mulc(den, t), ONE))
    if t.op == 'ite' and (t.args[1].op == 'const' or t.args[2].op == 'const'):
        return bite(t.args[0], lt0(t.args[1]), lt0(t.args[2]))
    k0 = abs(next(iter(sorted(d.items(), key=lambda p: p[0].id)))[1])
    return _mk('lt0', (mulc(1 / k0, t),), None, 'B')


def eq0(t):
    if t.op == 'const':
        return TRUE if t.val == 0 else FALSE
    if t.op == 'ite' and (t.args[1].op == 'const' or t.args[2].op == 'const'):
        return bite(t.args[0], eq0(t.args[1]), eq0(t.args[2]))
    c, d = lin_parts(t)
    k0 = next(iter(sorted(d.items(), key=lambda p: p[0].id)))[1]
    if all(a.sort == 'I' for a in d):
        den = c.denominator
        for k in d.values():
            den = den * k.denominator // gcd(den, k.denominator)
        g = 0
        for k in d.values():
            g = gcd(g, (k * den).numerator)
        if (c * den).numerator % g:
            return FALSE
        s = 1 if k0 > 0 else -1
        t = mulc(F(den) / g * s, t)
    else:
        t = mulc(1 / k0, t)
    return _mk('eq0', (t,), None, 'B')


def le(a, b): return le0(sub(lift(a), lift(b)))
def lt(a, b): return lt0(sub(lift(a), lift(b)))
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)


def eq(a, b):
    a, b = lift(a), lift(b)
    if a.sort == 'B' or b.sort == 'B':
        return iff(a, b)
    return eq0(sub(a, b))


def ne(a, b): return not_(eq(a, b))


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'le0':
        return lt0(mulc(-1, a.args[0]))
    if a.op == 'lt0':
        return le0(mulc(-1, a.args[0]))
    if a.op == 'and':
        return or_(*[not_(x) for x in a.args])
    if a.op == 'or':
        return and_(*[not_(x) for x in a.args])
    if a.op == 'ite':
        return bite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    if a.op == 'forall':
        v, lo, hi, body = open_binder(a)
        return exists(v, lo, hi, not_(body))
    if a.op == 'exists':
        v, lo, hi, body = open_binder(a)
        return forall(v, lo, hi, not_(body))
    return _mk('not', (a,), None, 'B')


def and_(*xs):
    out = {}
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == 'and':
            for y in x.args:
                out[y] = 1
        else:
            out[x] = 1
    for x in out:
        if x.op == 'not' and x.args[0] in out:
            return FALSE
        if x.op in ('le0', 'lt0') and not_(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    return _mk('and', sorted(out, key=lambda t: t.id), None, 'B')


def or_(*xs):
    out = {}
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == 'or':
            for y in x.args:
                out[y] = 1
        else:
            out[x] = 1
    for x in out:
        if x.op == 'not' and x.args[0] in out:
            return TRUE
        if x.op in ('le0', 'lt0') and not_(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out))
    return _mk('or', sorted(out, key=lambda t: t.id), None, 'B')


def implies(a, b): return or_(not_(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    return and_(implies(a, b), implies(b, a))


def bite(c, a, b):
    return or_(and_(c, a), and_(not_(c), b))


def ite(c, a, b):
    a, b = lift(a), lift(b)
    if isinstance(c, bool):
        return a if c else b
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.sort == 'B':
        return bite(c, a, b)
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'or':
        n = not_(c)
        if n.op == 'and':
            c, a, b = n, b, a
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if c.op in ('le0', 'lt0') :
        n = not_(c)
        if n.id < c.id:
            c, a, b = n, b, a
    s = a.sort if a.sort == b.sort else ('R' if a.sort in 'IR' else a.sort)
    return _mk('ite', (c, a, b), None, s)


def tmin(a, b):
    a, b = lift(a), lift(b)
    if a.id > b.id:
        a, b = b, a
    return ite(le(a, b), a, b)


def tmax(a, b):
    a, b = lift(a), lift(b)
    if a.id > b.id:
        a, b = b, a
    return ite(le(b, a), a, b)


# ---------------------------------------------------------------- binders
_depth = [0]


def _open_sym(j=0):
    return _mk('sym', (), '$%d.%d' % (_depth[0], j), 'I')


def _bind(v, body, extra_lev=0):
    h = max(body.lev, extra_lev) + 1
    b = _mk('bv', (), (h, 0), 'I')
    return h, subst(body, {v: b}, raw=True)


def mk_sum(v, lo, hi, body):
    """sum over integers v in [lo, hi)"""
    lo, hi, body = lift(lo), lift(hi), lift(body)
    if lo is hi or body is ZERO:
        return ZERO
    d = sub(hi, lo)
    if d.op == 'const':
        if d.val <= 0:
            return ZERO
        if d.val <= 4:
            return add(*[subst(body, {v: add(lo, const(i))}) for i in range(int(d.val))])
    # pull out constants
    k, fd = fac_parts(body)
    out = {b: e for b, e in fd.items() if v not in b.fv}
    if out and len(out) < len(fd):
        inn = mk_mul(F(1), {b: e for b, e in fd.items() if v in b.fv})
        return mul(mk_mul(k, out), mk_sum(v, lo, hi, inn))
    if k != 1:
        return mulc(k, mk_sum(v, lo, hi, mk_mul(F(1), fd)))
    h, b = _bind(v, body)
    return _mk('sum', (lo, hi, b), (h,), body.sort)


def mk_ext(op, v, lo, hi, body):
    lo, hi = lift(lo), lift(hi)
    h, b = _bind(v, lift(body))
    d = sub(hi, lo)
    if d is ONE:
        return subst(body, {v: lo})
    return _mk(op, (lo, hi, b), (h,), body.sort)


def mk_max(v, lo, hi, body): return mk_ext('maxf', v, lo, hi, body)
def mk_min(v, lo, hi, body): return mk_ext('minf', v, lo, hi, body)


def forall(v, lo, hi, body):
    if body is TRUE:
        return TRUE
    lo, hi = lift(lo), lift(hi)
    d = sub(hi, lo)
    if d.op == 'const' and d.val <= 0:
        return TRUE
    if d is ONE:
        return subst(body, {v: lo})
    h, b = _bind(v, body)
    return _mk('forall', (lo, hi, b), (h,), 'B')


def exists(v, lo, hi, body):
    if body is FALSE:
        return FALSE
    lo, hi = lift(lo), lift(hi)
    d = sub(hi, lo)
    if d.op == 'const' and d.val <= 0:
        return FALSE
    if d is ONE:
        return subst(body, {v: lo})
    h, b = _bind(v, body)
    return _mk('exists', (lo, hi, b), (h,), 'B')


def open_binder(t, v=None):
    """(v, lo, hi, body) with a fresh (or given) integer symbol."""
    if v is None:
        v = fresh('k', 'I')
    b = _mk('bv', (), (t.val[0], 0), 'I')
    return v, t.args[0], t.args[1], subst(t.args[2], {b: v})


def mk_afn(vs, body, lens=()):
    body = lift(body)
    # eta
    if body.op == 'sel' and tuple(body.args[1:]) == tuple(vs) and not any(v in body.args[0].fv for v in vs):
        return body.args[0]
    h = body.lev + 1
    m = {v: _mk('bv', (), (h, j), 'I') for j, v in enumerate(vs)}
    b = subst(body, m, raw=True)
    return _mk('afn', (b,) + tuple(lens), (h, len(vs)), 'A' + body.sort)


def open_afn(t, vs=None):
    n = t.val[1]
    if vs is None:
        vs = [fresh('p', 'I') for _ in range(n)]
    m = {_mk('bv', (), (t.val[0], j), 'I'): v for j, v in enumerate(vs)}
    return vs, subst(t.args[0], m)


def has_ite(t, memo=None):
    return _has_ite(t)


_hi = {}


def _has_ite(t):
    r = _hi.get(t.id)
    if r is None:
        r = t.op == 'ite' or (t.op not in ('const', 'sym', 'bv', 'afn') and any(_has_ite(a) for a in t.args))
        _hi[t.id] = r
    return r


def sel(arr, *idx, force=False):
    idx = [lift(i) for i in idx]
    if arr.op == 'afn':
        b = arr.args[0]
        if force or not _has_ite(b):
            m = {_mk('bv', (), (arr.val[0], j), 'I'): v for j, v in enumerate(idx)}
            return subst(b, m)
        # constant indices: try to resolve
        if all(i.op == 'const' for i in idx):
            m = {_mk('bv', (), (arr.val[0], j), 'I'): v for j, v in enumerate(idx)}
            r = subst(b, m)
            if not _has_ite(r):
                return r
    if arr.op == 'ite':
        return ite(arr.args[0], sel(arr.args[1], *idx), sel(arr.args[2], *idx))
    s = arr.sort[1:]
    return _mk('sel', (arr,) + tuple(idx), None, s)


def arrsym(name, elem='R'):
    return _mk('sym', (), name, 'A' + elem)


# ---------------------------------------------------------------- rebuild / subst
def rebuild(t, args):
    op = t.op
    if op == 'lin':
        c = t.val[0]
        return add(const(c), *[mulc(k, a) for k, a in zip(t.val[1], args)])
    if op == 'mul':
        r = ONE
        for a, e in zip(args, t.val):
            r = mul(r, powi(a, e))
        return r
    if op == 'ite':
        return ite(*args)
    if op == 'idiv':
        return idiv(*args)
    if op == 'sel':
        return sel(*args)
    if op == 'app':
        if t.sort == 'B':
            return appB(t.val, *args)
        if t.sort[0] == 'A':
            return appA(t.val, t.sort[1:], *args)
        if t.val == 'floor':
            return floor(args[0])
        if t.val == 'pow':
            return power(*args)
        if t.sort == 'I' and t.val not in ('rint', 'abs'):
            return appI(t.val, *args)
        return app(t.val, *args)
    if op == 'le0':
        return le0(args[0])
    if op == 'lt0':
        return lt0(args[0])
    if op == 'eq0':
        return eq0(args[0])
    if op == 'and':
        return and_(*args)
    if op == 'or':
        return or_(*args)
    if op == 'not':
        return not_(args[0])
    if op == 'psum':
        return _mk('psum', args, t.val, t.sort)
    raise ValueError(op)


MKB = {'sum': mk_sum, 'maxf': mk_max, 'minf': mk_min, 'forall': forall, 'exists': exists}


def subst(t, m, raw=False, memo=None):
    """Capture-avoiding substitution of symbols (or bound variables)."""
    if memo is None:
        memo = {}
    keys = frozenset(m)
    return _subst(t, m, keys, raw, memo)


def _subst(t, m, keys, raw, memo):
    if not (t.fv & keys):
        return t
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in BINDERS:
        if raw:
            # replacing a symbol by a bv of a strictly larger level: no capture, levels unchanged
            r = _mk(t.op, [_subst(a, m, keys, raw, memo) for a in t.args], t.val, t.sort)
        else:
            _depth[0] += 1
            try:
                if t.op == 'afn':
                    vs = [_open_sym(j) for j in range(t.val[1])]
                    mm = {_mk('bv', (), (t.val[0], j), 'I'): v for j, v in enumerate(vs)}
                    b = _subst(t.args[0], mm, frozenset(mm), False, {})
                    b = _subst(b, m, keys, False, {})
                    r = mk_afn(vs, b, [_subst(l, m, keys, False, memo) for l in t.args[1:]])
                else:
                    v = _open_sym()
                    mm = {_mk('bv', (), (t.val[0], 0), 'I'): v}
                    b = _subst(t.args[2], mm, frozenset(mm), False, {})
                    b = _subst(b, m, keys, False, {})
                    r = MKB[t.op](v, _subst(t.args[0], m, keys, False, memo), _subst(t.args[1], m, keys, False, memo), b)
            finally:
                _depth[0] -= 1
    else:
        r = rebuild(t, [_subst(a, m, keys, raw, memo) for a in t.args])
    memo[t] = r
    return r


def subterms(t, seen=None):
    """all subterms (including under binders)"""
    if seen is None:
        seen = {}
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen[x] = 1
        st.extend(x.args)
    return seen


def closed_subterms(t, pred):
    """subterms satisfying pred that do not contain free bound variables"""
    return [x for x in subterms(t) if pred(x) and not any(v.op == 'bv' for v in x.fv)]


# ---------------------------------------------------------------- printing
def pp(t, d=0):
    if d > 40:
        return '...'
    o = t.op
    if o == 'const':
        return str(t.val)
    if o in ('true', 'false'):
        return o
    if o == 'sym':
        return t.val
    if o == 'bv':
        return '?%d%s' % (t.val[0], '' if t.val[1] == 0 else '_%d' % t.val[1])
    if o == 'lin':
        s = []
        for a, k in zip(t.args, t.val[1]):
            p = pp(a, d + 1)
            s.append(('+' if k > 0 else '-') + ('' if abs(k) == 1 else '%s*' % abs(k)) + p)
        if t.val[0] != 0:
            s.append('%+d' % t.val[0] if t.val[0].denominator == 1 else '+%s' % t.val[0])
        r = ' '.join(s)
        return '(' + (r[1:] if r[0] == '+' else r) + ')'
    if o == 'mul':
        return '*'.join(pp(a, d + 1) + ('' if e == 1 else '^%d' % e) for a, e in zip(t.args, t.val))
    if o == 'sel':
        return '%s[%s]' % (pp(t.args[0], d + 1), ','.join(pp(a, d + 1) for a in t.args[1:]))
    if o == 'app':
        return '%s(%s)' % (t.val, ', '.join(pp(a, d + 1) for a in t.args))
    if o in ('sum', 'maxf', 'minf', 'forall', 'exists'):
        return '%s{?%d in %s..%s}(%s)' % (o, t.val[0], pp(t.args[0], d + 1), pp(t.args[1], d + 1), pp(t.args[2], d + 1))
    if o == 'afn':
        return '(\\?%d. %s)' % (t.val[0], pp(t.args[0], d + 1))
    if o == 'le0':
        return '%s<=0' % pp(t.args[0], d + 1)
    if o == 'lt0':
        return '%s<0' % pp(t.args[0], d + 1)
    if o == 'eq0':
        return '%s=0' % pp(t.args[0], d + 1)
    return '%s(%s)' % (o, ', '.join(pp(a, d + 1) for a in t.args))


# ------------------------------------------------------------ powers of positive bases
def powcanon(t, positive):
    """equal term with every power split into powers of single positive factors (positive(x): x > 0 is known)"""
    memo = {}

    def pw(b, e):
        """b^e for one factor b > 0"""
        if b.op == 'app' and b.val == 'pow' and positive(b.args[0]):
            return pw(b.args[0], mul(b.args[1], e))
        if b.op == 'mul':
            return prod(b, e)
        c, d = lin_parts(e)
        out = powi(b, int(c)) if c.denominator == 1 else power(b, const(c))
        for a, k in d.items():
            out = mul(out, powi(power(b, mulc(F(1, k.denominator), a)), k.numerator))
        return out

    def prod(b, e):
        k, d = fac_parts(b)
        if k > 0 and all(positive(x) for x in d):
            out = ONE if k == 1 else pw(const(k), e)
            for x, n in d.items():
                out = mul(out, pw(x, mulc(n, e)))
            return out
        return power(b, e)

    def go(x):
        r = memo.get(x)
        if r is None:
            if not x.args or x.op in BINDERS:
                r = x
            else:
                a = [go(y) for y in x.args]
                r = prod(a[0], a[1]) if x.op == 'app' and x.val == 'pow' else rebuild(x, a) if any(p is not q for p, q in zip(a, x.args)) else x
            memo[x] = r
        return r
    return go(t)
