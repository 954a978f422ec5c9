"""Loops: an invariant is inferred as a closed form of every changed location and
then checked (initialisation holds by construction, preservation is an obligation)."""
import ast
from .terms import *
from . import terms as tm
from .values import *
from .prove import Prover, Budget, Timeout
from .smt import entails, check_sat

MISSING = object()


class Abort(Exception):
    """the current path is void (its conditions contradict how it was entered)"""


class IterView(object):
    def __init__(self, n, elem):
        self.n, self.elem = n, elem


def nonneg_len(I, d):
    d = lift(d)
    if d.op == 'const':
        return d if d.val > 0 else ZERO
    if I.decide(ge(d, ZERO)):
        return d
    return ZERO


def iter_view(I, it):
    if isinstance(it, IterView):
        return it.n, it.elem
    if isinstance(it, Range):
        if it.step.op != 'const':
            raise Unsupported('range with a symbolic step')
        s = int(it.step.val)
        d = sub(it.stop, it.start)
        if s < 0:
            d = mulc(-1, d)
        if abs(s) != 1:
            if not I.decide(gt(d, ZERO)):
                return ZERO, None
            n = idiv(add(d, const(abs(s) - 1)), const(abs(s)))
        else:
            n = nonneg_len(I, d)
        return n, lambda i: Num(add(it.start, mul(it.step, i)), 'i')
    if isinstance(it, NDArray):
        if it.ndim == 0:
            raise PyExc('TypeError', 'iteration over a 0-d array')
        return it.shape[0], lambda i: I.np.subarray(it, i)
    if isinstance(it, PyList):
        return it.len(), lambda i: I.list_getter(it)(i)
    if isinstance(it, (tuple, str, PyDict)):
        items = list(it.d) if isinstance(it, PyDict) else list(it)
        return const(len(items)), lambda i: items[int(i.val)]
    if it is None or isinstance(it, (Num, bool)):
        raise PyExc('TypeError', 'not iterable')
    raise Unsupported('iteration over %r' % (it,))


def for_loop(I, st, it, fr):
    from .interp import MAXUNROLL
    n, elem = iter_view(I, it)
    if n.op == 'const':
        if n.val > MAXUNROLL:
            raise Unsupported('unrolling %s iterations' % n.val)
        broke = False
        items = None
        if isinstance(it, PyList) and it.items is not None:
            items = list(it.items)
        for k in range(int(n.val)):
            I.budget.check()
            I.assign(st.target, items[k] if items is not None else elem(const(k)), fr)
            try:
                I.exec_block(st.body, fr)
            except BreakX():
                broke = True
                break
            except ContX():
                pass
        if not broke:
            I.exec_block(st.orelse, fr)
        return
    Loop(I, n, lambda j: I.assign(st.target, elem(j), fr), st.body, fr, st.orelse, st.lineno).run()


def BreakX():
    from .interp import BreakEx
    return BreakEx


def ContX():
    from .interp import ContinueEx
    return ContinueEx


def comprehension(I, e, fr):
    from .interp import MAXUNROLL
    f2 = Frame(I.heap, parent=fr, glob=fr.glob)
    f2.module = I.cur_module(fr)
    out = PyList(I.heap, [])
    name = '.lc%d' % e.lineno
    f2.vars[name] = out

    def build(gens):
        if not gens:
            c = ast.Expr(ast.Call(ast.Attribute(ast.Name(name, ast.Load()), 'append', ast.Load()), [e.elt], []))
            return [ast.fix_missing_locations(ast.copy_location(c, e))]
        g = gens[0]
        inner = build(gens[1:])
        for c in reversed(g.ifs):
            inner = [ast.copy_location(ast.If(c, inner, []), e)]
        return [ast.copy_location(ast.For(g.target, g.iter, inner, [], None), e)]
    st = build(e.generators)[0]
    it = I.eval(e.generators[0].iter, fr)
    for_loop(I, st, it, f2)
    return f2.vars[name]


# ---------------------------------------------------------------- locations
def obj_state(o):
    if isinstance(o, Frame):
        return dict(o.vars)
    if isinstance(o, PyObj):
        return dict(o.attrs)
    if isinstance(o, PyDict):
        return dict(o.d)
    if isinstance(o, Buf):
        return {'buf': (o.data, o.nan, o.im)}
    if isinstance(o, PyList):
        return {'list': (None if o.items is None else tuple(o.items), o.length, o.get_)}
    return {'pos': o.pos}


def same(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Num) and isinstance(b, Num):
        return a.term is b.term and a.kind == b.kind and a.nan is b.nan
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str) or isinstance(b, str):
        return type(a) == type(b) and a == b
    if isinstance(a, Func) and isinstance(b, Func):
        return a.node is b.node and a.closure is b.closure
    return False


def put(o, k, v):
    if isinstance(o, Frame):
        d = o.vars
    elif isinstance(o, PyObj):
        d = o.attrs
    elif isinstance(o, PyDict):
        d = o.d
    elif isinstance(o, Buf):
        o.data, o.nan, o.im = v
        return
    elif isinstance(o, PyList):
        o.items = None if v[0] is None else list(v[0])
        o.length, o.get_ = v[1], v[2]
        return
    else:
        o.pos = v
        return
    if v is MISSING:
        d.pop(k, None)
    else:
        d[k] = v


class HavocUndef(Num):
    """value of a variable that is unbound before the first iteration"""
    __slots__ = ('jvar',)


class PathRec(object):
    pass


class Loop(object):
    def __init__(self, I, n, bind, body, fr, orelse, line, wtest=None):
        self.I, self.n, self.bind, self.body, self.fr = I, n, bind, body, fr
        self.orelse, self.line, self.wtest = orelse, line, wtest

    # ------------------------------------------------------------ one symbolic iteration
    def paths(self, j, setup, quiet=True):
        I = self.I
        base = I.heap.snapshot()
        objs = [o for o, _ in base if o is not I.sk]
        start = {}
        h0 = len(I.hyps)
        I.hyps += [le(ZERO, j), lt(j, self.n)]
        lv = I.loopvars
        I.loopvars = lv + [j]
        if quiet:
            I.quiet += 1
        sk0 = dict(I.sk.d)
        skmax = dict(sk0)

        def fn():
            setup()
            start.clear()
            for o in objs:
                start[o] = obj_state(o)
                if isinstance(o, Buf):
                    o.writes = []
                if isinstance(o, PyList):
                    o.appends = []
            self.bind(j)
            I.exec_block(self.body, self.fr)

        def cap(o, decs, assumed):
            p = PathRec()
            p.kind, p.val = o
            p.decs, p.assumed = list(decs), list(assumed)
            p.end = {x: obj_state(x) for x in objs}
            p.start = dict(start)
            p.writes = {x: list(x.writes) for x in objs if isinstance(x, Buf)}
            p.appends = {x: list(x.appends) for x in objs if isinstance(x, PyList)}
            p.hyps = list(I.hyps)
            for k, v in I.sk.d.items():
                skmax[k] = max(skmax.get(k, 0), v)
            return p
        try:
            ps = I.explore(fn, cap)
        finally:
            if quiet:
                I.quiet -= 1
            I.loopvars = lv
            del I.hyps[h0:]
        I.heap.restore(base)
        self.skmax = skmax
        return ps

    def changed(self, ps, known):
        out = dict(known)
        for p in ps:
            for o, st in p.end.items():
                s0 = p.start[o]
                for k in sorted(set(st) | set(s0), key=str):
                    if (o, k) in out:
                        continue
                    if not same(st.get(k, MISSING), s0.get(k, MISSING)):
                        out[(o, k)] = True
        return out

    # ------------------------------------------------------------ main
    def run(self):
        I = self.I
        if not self.wtest and not I.decide(ge(self.n, ONE)):
            I.exec_block(self.orelse, self.fr)
            return
        j = fresh('j', 'I')
        self.j = j
        init = {}
        base = I.heap.snapshot()
        for o, _ in base:
            if o is not I.sk:
                init[o] = obj_state(o)
        self.init = init
        # discovery
        stores = {x.id for st in self.body for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

        def forget():
            # names whose value is unknown on entry: found changed here, their reads are judged in the rounds below
            for k, v in list(self.fr.vars.items()):
                if k in stores and isinstance(v, Undef):
                    del self.fr.vars[k]
        ps = self.paths(j, forget)
        locs = self.changed(ps, {})
        sample = {}
        for rnd in range(8):
            self.note_samples(ps, locs, sample)
            hav = self.havoc(locs, sample)
            ps = self.paths(j, lambda: [put(o, k, v) for (o, k), v in hav.items()])
            new = self.changed(ps, locs)
            grew = len(new) != len(locs)
            s2 = dict(sample)
            self.note_samples(ps, new, s2)
            if not grew and s2 == sample:
                break
            locs, sample = new, s2
        else:
            raise Unsupported('loop state does not stabilise (line %d)' % self.line)
        self.locs, self.hav = list(locs), hav
        normal = [p for p in ps if p.kind == 'return']
        exits = [p for p in ps if p.kind != 'return']
        if not normal:
            # every iteration leaves the loop: one iteration only
            self.single_iteration()
            return
        self.solve(normal)
        if exits or not I.quiet:
            self.check_and_exit()
        self.finish(self.n)
        for k, v in self.skmax.items():
            I.sk.d[k] = max(I.sk.d.get(k, 0), v)
        if not self.wtest:
            I.exec_block(self.orelse, self.fr)

    def single_iteration(self):
        I = self.I
        self.bind(ZERO)
        try:
            I.exec_block(self.body, self.fr)
        except BreakX():
            return
        raise Abort()

    def note_samples(self, ps, locs, sample):
        for p in ps:
            if p.kind != 'return':
                continue
            for (o, k) in locs:
                v = p.end[o].get(k, MISSING)
                if isinstance(v, bool):
                    v = self.I.num(v)
                if isinstance(v, Num):
                    old = sample.get((o, k))
                    kd = v.kind
                    so = v.term.sort
                    if old is not None:
                        if old == 'other':
                            continue
                        kd = kd if old[0] == kd else ('f' if 'f' in (kd, old[0]) else 'i')
                        so = so if so == old[1] else 'R'
                    sample[(o, k)] = (kd, so)
                elif isinstance(o, (Frame, PyObj, PyDict)):
                    sample[(o, k)] = 'other'

    def havoc(self, locs, sample):
        hav = {}
        self.hsym = {}
        for (o, k) in locs:
            v = self.init[o].get(k, MISSING)
            if isinstance(o, Buf):
                data, nan, im = v
                d = arrsym('D%d_%d' % (o.uid, self.line), data.sort[1:])
                nn = None if nan is None else arrsym('DN%d_%d' % (o.uid, self.line), 'B')
                mm = None if im is None else arrsym('DI%d_%d' % (o.uid, self.line), 'R')
                hav[(o, k)] = (d, nn, mm)
                self.hsym[(o, k)] = d
                self._extra = None
                if mm is not None:
                    self.hsym[(o, k, 'im')] = mm
                if nn is not None:
                    self.hsym[(o, k, 'nan')] = nn
            elif isinstance(o, PyList):
                L = fresh('len', 'I')

                def g(i):
                    raise Unsupported('reading a list under construction')
                hav[(o, k)] = (None, L, g)
                self.hsym[(o, k)] = L
            elif k == 'pos' and not isinstance(o, (Frame, PyObj, PyDict)):
                h = fresh('pos', 'I')
                hav[(o, k)] = h
                self.hsym[(o, k)] = h
            else:
                if isinstance(v, bool):
                    v = self.I.num(v)
                s = sample.get((o, k))
                if s == 'other' or s is None or not (v is MISSING or isinstance(v, (Num, Undef))):
                    hav[(o, k)] = Undef('carried around the loop at line %d' % self.line)
                    continue
                kd, so = s
                if isinstance(v, Num):
                    if v.kind != kd:
                        kd = 'f' if 'f' in (v.kind, kd) else 'i'
                    if v.term.sort != so:
                        so = 'R'
                h = fresh('h_%s' % k, so)
                self.hsym[(o, k)] = h
                if isinstance(v, Num):
                    hav[(o, k)] = Num(h, kd)
                else:
                    u = HavocUndef(h, kd)
                    u.jvar = self.j
                    hav[(o, k)] = u
        return hav

    # ------------------------------------------------------------ merging
    def merge(self, ps, get, depth=0):
        """merge values get(p) of paths along their decision tree"""
        if len(ps) == 1:
            return get(ps[0])
        while True:
            c = ps[0].decs[depth] if depth < len(ps[0].decs) else None
            if c is None:
                raise Unsupported('path merge')
            A = [p for p in ps if p.decs[depth] is c]
            B = [p for p in ps if p.decs[depth] is not c]
            if B:
                break
            depth += 1
        a = self.merge(A, get, depth + 1)
        b = self.merge(B, get, depth + 1)
        if a is b:
            return a
        if isinstance(a, T):
            return ite(c, a, b)
        return self.I.merge_values(c, a, b)

    # ------------------------------------------------------------ closed forms
    def solve(self, ps):
        I, j, n = self.I, self.j, self.n
        hs = set(self.hsym.values())
        self.closed = {}         # loc -> dict(entry=fn(j), kind)
        M = {}
        todo = []
        dead = self.dead_names(ps)
        for loc in self.locs:
            o, k = loc
            if o is self.fr and k in dead:
                self.closed[loc] = ('undef',)
                continue
            if isinstance(self.hav[loc], Undef):
                # value set afresh in every iteration?
                try:
                    vs = [p.end[o].get(k, MISSING) for p in ps]
                    v = vs[0]
                    if all(same(v, x) for x in vs) and not isinstance(v, Undef) and v is not MISSING:
                        self.closed[loc] = ('fresh', v)
                        continue
                except Unsupported:
                    pass
                self.closed[loc] = ('undef',)
                continue
            todo.append(loc)
        progress = True
        while todo and progress:
            progress = False
            for loc in list(todo):
                others = {h for l, h in self.hsym.items() if l[:2] in todo and l[:2] != loc}
                try:
                    c = self.solve_loc(loc, ps, M, others)
                except (Unsupported, Timeout):
                    c = None
                if c is not None:
                    self.closed[loc] = c
                    todo.remove(loc)
                    progress = True
                    self.add_subst(loc, c, M)
        for loc in todo:
            self.closed[loc] = ('undef',)
        self.M = M
        # condition merges may mention solved symbols only
        for loc, c in list(self.closed.items()):
            pass

    def dead_names(self, ps):
        """local names set in every iteration before use and never read outside the loop"""
        node = getattr(self.fr, 'node', None)
        if node is None or self.wtest:
            return set()
        inside = {id(x) for st in self.body for x in ast.walk(st)}
        outside = {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in inside}
        # augmented assignment reads its target
        outside |= {x.target.id for x in ast.walk(node) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and id(x) not in inside}
        cand = {}
        for loc in self.locs:
            o, k = loc
            if o is self.fr and isinstance(k, str) and k not in outside and loc in self.hsym and all(k in p.end[o] for p in ps):
                cand[self.hsym[loc]] = k
        if not cand:
            return set()
        used = set()
        for p in ps:
            for d in p.decs + p.assumed:
                used |= d.fv
            for ws in p.writes.values():
                for w in ws:
                    for q in w[1:]:
                        for u in (q if isinstance(q, (list, tuple)) else [q]):
                            used |= u.fv if isinstance(u, T) else value_fv(u)
            for aps in p.appends.values():
                for a in aps:
                    used |= value_fv(a)
            for loc in self.locs:
                v = p.end[loc[0]].get(loc[1])
                if isinstance(v, Num):
                    used |= v.term.fv | v.nan.fv
                elif isinstance(loc[0], Buf):
                    for u in v:
                        if isinstance(u, T):
                            used |= u.fv
        return {k for h, k in cand.items() if h not in used}

    def add_subst(self, loc, c, M):
        j = self.j
        if c[0] == 'num':
            M[self.hsym[loc]] = c[1](j)[0] if not isinstance(c[1](j), T) else c[1](j)
        elif c[0] == 'pos':
            M[self.hsym[loc]] = c[1](j)
        elif c[0] == 'buf':
            M[self.hsym[loc]] = c[1](j)[0]
            if loc + ('im',) in self.hsym:
                M[self.hsym[loc + ('im',)]] = c[1](j)[2]
            if loc + ('nan',) in self.hsym:
                M[self.hsym[loc + ('nan',)]] = c[1](j)[1]
        elif c[0] == 'list':
            M[self.hsym[loc]] = c[1](j)

    def solve_loc(self, loc, ps, M, others):
        I, j, n = self.I, self.j, self.n
        o, k = loc
        h = self.hsym[loc]
        init = self.init[o].get(k, MISSING)
        if isinstance(o, PyList):
            return self.solve_list(loc, ps, M, others)
        if isinstance(o, Buf):
            return self.solve_buf(loc, ps, M, others)
        if k == 'pos' and not isinstance(o, (Frame, PyObj, PyDict)):
            N = subst(self.merge(ps, lambda p: p.end[o][k]), M)
            if N.fv & others:
                return None
            r = self.recurrence(N, h, init)
            return None if r is None else ('pos', r[0], r[1])
        # scalar
        def g(p):
            v = p.end[o].get(k, MISSING)
            if isinstance(v, bool):
                v = I.num(v)
            if not isinstance(v, Num):
                raise Unsupported('not a number')
            return v
        v = self.merge(ps, g)
        if isinstance(v, HavocUndef):
            return None
        N = subst(v.term, M)
        nan = subst(v.nan, M)
        if N.fv & others or nan.fv & others or h in nan.fv:
            return None
        i0 = None
        if isinstance(init, bool):
            init = I.num(init)
        if isinstance(init, Num):
            i0 = init.term
        r = self.recurrence(N, h, i0)
        if r is None:
            return None
        kind = self.hav[loc].kind
        lastonly = h not in N.fv
        return ('num', r[0], r[1], kind, nan if lastonly else FALSE,
                init.nan if isinstance(init, Num) else FALSE, r[2] if len(r) > 2 else None)

    def recurrence(self, N, h, i0):
        """(entry(j), end(j)) for x' = N(x=h, j), x(0) = i0 (None: unbound)"""
        j = self.j
        sj = lambda t, x: subst(t, {j: lift(x)})
        N = self.tidy(N, h)
        if h not in N.fv:
            def entry(x):
                x = lift(x)
                if x is ZERO:
                    return i0 if i0 is not None else sj(N, sub(x, ONE))
                if i0 is None:
                    return sj(N, sub(x, ONE))
                if x.op == 'const' or self.I.ent(ge(x, ONE)):
                    return sj(N, sub(x, ONE))
                return ite(le(x, ZERO), i0, sj(N, sub(x, ONE)))
            return entry, lambda x: sj(N, x)
        d = minus_h(N, h)
        if d is not None and i0 is not None:
            if N.sort == 'B':
                return None
            def entry(x, d=d):
                v = fresh('t', 'I')
                if j not in d.fv:
                    return add(i0, mul(d, lift(x)))
                return add(i0, mk_sum(v, ZERO, lift(x), sj(d, v)))
            return entry, lambda x: entry(add(lift(x), ONE)), d
        r = self.fold(N, h)
        if r is not None and i0 is not None:
            mk, tt, e = r
            if e.fv & {j}:
                def entry(x):
                    x = lift(x)
                    if x is ZERO:
                        return i0
                    v = fresh('t', 'I')
                    w = tt(i0, mk(v, ZERO, x, sj(e, v)))
                    if x.op == 'const' or self.I.ent(ge(x, ONE)):
                        return w
                    return ite(le(x, ZERO), i0, w)
                return entry, lambda x: tt(i0, mk(v0(), ZERO, add(lift(x), ONE), e_at(e, j)))
            return None
        # split at the first iteration
        p0 = Prover(self.I.hyps + [eq(j, ZERO)], Budget(20))
        p1 = Prover(self.I.hyps + [ge(j, ONE), lt(j, self.n)], Budget(20))
        N0, N1 = sj(p0.simp(N), ZERO), p1.simp(N)
        N0 = Prover(self.I.hyps, Budget(20)).simp(N0)
        if h in N0.fv and i0 is not None:
            N0 = subst(N0, {h: i0})
        if h not in N0.fv:
            if h not in N1.fv:
                def entry(x):
                    x = lift(x)
                    if x is ZERO and i0 is not None:
                        return i0
                    if x is ONE:
                        return N0
                    return ite(le(x, ONE), N0 if i0 is None else ite(le(x, ZERO), i0, N0), sj(N1, sub(x, ONE)))
                return entry, lambda x: ite(le(lift(x), ZERO), N0, sj(N1, x))
            d = minus_h(N1, h)
            if d is not None:
                v = fresh('t', 'I')
                E = self.tidy1(add(N0, mk_sum(v, ONE, add(j, ONE), sj(d, v))))
                end = lambda x: sj(E, x)

                def entry(x):
                    x = lift(x)
                    if x is ZERO and i0 is not None:
                        return i0
                    if i0 is None or x.op == 'const' or self.I.ent(ge(x, ONE)):
                        return end(sub(x, ONE))
                    return ite(le(x, ZERO), i0, end(sub(x, ONE)))
                return entry, end
            r = self.fold(N1, h)
            if r is not None:
                mk, tt, e = r

                def end(x):
                    x = lift(x)
                    if x is ZERO:
                        return N0
                    w = tt(N0, mk(v0(), ONE, add(x, ONE), e_at(e, j)))
                    if x.op == 'const' or self.I.ent(ge(x, ONE)):
                        return w
                    return ite(le(x, ZERO), N0, w)
                return (lambda x: end(sub(lift(x), ONE)) if lift(x) is not ZERO or i0 is None else i0), end
        # geometric
        if i0 is not None:
            q = div(N, h)
            if h not in q.fv and j not in q.fv:
                ent_ = lambda x: mul(i0, power(q, lift(x)))
                return ent_, lambda x: ent_(add(lift(x), ONE))
        return None

    def tidy1(self, t):
        from .norm import tidy
        H = self.I.hyps + [le(ZERO, self.j), lt(self.j, self.n)]
        return tidy(t, H)

    def tidy(self, N, h):
        """simplify the next-state term; unify branches on the first iteration"""
        if N.sort == 'B':
            return N
        j = self.j
        H = self.I.hyps + [le(ZERO, j), lt(j, self.n)]
        if h in N.fv:
            d = minus_h(N, h)
            if d is None:
                return N
        else:
            d = N
        if d.op == 'const':
            return N
        d = Prover(H, Budget(30)).simp(d)
        d = self._unify_first(self.tidy1(d))
        return add(h, d) if h in N.fv else d

    def _unify_first(self, d):
        if d.op != 'ite':
            return d
        c, a, b = d.args[0], self._unify_first(d.args[1]), self._unify_first(d.args[2])
        j = self.j
        first = eq(j, ZERO)
        pos = entails(self.I.hyps + [le(ZERO, j), lt(j, self.n)], iff(c, first))
        neg = not pos and entails(self.I.hyps + [le(ZERO, j), lt(j, self.n)], iff(c, not_(first)))
        if neg:
            a, b = b, a
            c = not_(c)
        if pos or neg:
            b0 = subst(b, {j: ZERO})
            a0 = subst(a, {j: ZERO})
            if b0 is a0 or Prover(self.I.hyps, Budget(10)).prove_eq(a0, b0):
                return b
        return ite(c, a, b)

    def fold(self, N, h):
        if N.op != 'ite':
            return None
        a, b = N.args[1], N.args[2]
        if a is h:
            e = b
        elif b is h:
            e = a
        else:
            return None
        if h in e.fv:
            return None
        H = self.I.hyps + [le(ZERO, self.j), lt(self.j, self.n)]
        if entails(H, and_(ge(N, h), ge(N, e))):
            return mk_max, tmax, e
        if entails(H, and_(le(N, h), le(N, e))):
            return mk_min, tmin, e
        return None

    def solve_list(self, loc, ps, M, others):
        I, j, n = self.I, self.j, self.n
        o, k = loc
        items, L0, g0 = self.init[o][k]
        if items is not None:
            L0 = const(len(items))
        qs = {len(p.appends[o]) for p in ps}
        for p in ps:
            # only appends may have changed the list
            e = p.end[o][k]
            if e[0] is not None or e[1] is None:
                return None
            if sub(e[1], self.hsym[loc]) is not const(len(p.appends[o])):
                return None
        fin_ = {}
        if len(qs) == 1:
            q = qs.pop()
            vals = []
            for r in range(q):
                v = self.merge(ps, lambda p: p.appends[o][r])
                v = subst_value(v, M, I.heap)
                if isinstance(v, (PyList, PyDict, PyObj)):
                    return None
                vals.append(v)
            for v in vals:
                if value_fv(v) & (others | {self.hsym[loc]}):
                    return None
            length = lambda x: add(L0, mulc(q, lift(x)))

            def get(i):
                i = lift(i)
                old = None
                t = sub(i, L0)
                def at(i):
                    if q == 1:
                        return subst_value(vals[0], {j: t}, I.heap)
                    rr = imod(t, const(q))
                    qq = idiv(t, const(q))
                    v = subst_value(vals[q - 1], {j: qq}, I.heap)
                    for r in range(q - 2, -1, -1):
                        v = I.value_ite(eq(rr, const(r)), subst_value(vals[r], {j: qq}, I.heap), lambda v=v: v)
                    return v
                if L0 is ZERO:
                    return at(i)
                getter = I.list_getter(PyList(I.heap, list(items))) if items is not None else g0
                if I.ent(ge(i, L0)):
                    return at(i)
                if I.ent(lt(i, L0)):
                    return getter(i)
                return I.merge_values(lt(i, L0), getter(i), at(i))
            return ('list', length, get, [vals], q)
        if qs <= {0, 1}:
            mask = subst(self.merge(ps, lambda p: TRUE if p.appends[o] else FALSE), M)
            yes = [p for p in ps if p.appends[o]]
            v = yes[0].appends[o][0] if len(yes) == 1 else None
            if v is None:
                v = self.merge_partial(yes, lambda p: p.appends[o][0])
            v = subst_value(v, M, I.heap)
            if (mask.fv | value_fv(v)) & (others | {self.hsym[loc]}):
                return None
            vv = fresh('t', 'I')
            ma = mk_afn([vv], subst(mask, {j: vv}), [n])
            if ma.sort != 'AB':
                return None

            def length(x):
                w = fresh('t', 'I')
                return add(L0, mk_sum(w, ZERO, lift(x), ite(subst(mask, {j: w}), ONE, ZERO)))

            def get(i):
                if items is not None and not items:
                    return subst_value(v, {j: appI('selidx', ma, n, lift(i))}, I.heap)
                raise Unsupported('filtered append to a non-empty list')
            return ('list', length, get, [[v]], ('mask', mask))
        return None

    def merge_partial(self, ps, get):
        v = get(ps[-1])
        for p in reversed(ps[:-1]):
            v = self.I.merge_values(and_(*p.decs), get(p), v)
        return v

    def solve_buf(self, loc, ps, M, others):
        I, j, n = self.I, self.j, self.n
        o, k = loc
        D = self.hsym[loc]
        data0, nan0, im0 = self.init[o][k]
        w = None
        for p in ps:
            for kind, idx, val in p.writes[o]:
                if kind != 'pt':
                    return None
                idx = [subst(i, M) for i in idx]
                if any(i.fv & (others | {D}) for i in idx):
                    return None
                if w is None:
                    w = idx
                elif any(a is not b and not I_ent_eq(I, a, b, j, n) for a, b in zip(w, idx)):
                    return None
        if w is None:
            return None
        ax = None
        s = c = None
        for a, i in enumerate(w):
            if j in i.fv:
                if ax is not None:
                    return None
                ax = a
                cc, dd = lin_parts(i)
                kk = dd.get(j)
                if kk is None or kk not in (1, -1):
                    return None
                s = int(kk)
                c = sub(i, mulc(kk, j))
                if j in c.fv:
                    return None
        if ax is None:
            # the same cell is overwritten in every iteration
            vs = [fresh('e', 'I') for _ in w]
            return None

        def comp(init_arr, pick, havarr):
            """closed array for one component"""
            V = self.merge(ps, lambda p: sel(pick(p.end[o][k]), *w, force=True))
            V = Prover(I.hyps + [le(ZERO, j), lt(j, n)], Budget(30)).simp(V)
            V = subst(V, {x: y for x, y in M.items()})
            if V.fv & others:
                return None
            prev = None
            for x in [x for x in subterms(V) if x.op == 'sel' and x.args[0] is havarr]:
                idx = x.args[1:]
                same_other = all(a == ax or idx[a] is w[a] for a in range(len(w)))
                d = sub(idx[ax], w[ax])
                H = I.hyps + [le(ZERO, j), lt(j, n)]
                if any(v.op == 'bv' for v in x.fv):
                    # under a binder: only if it can never touch a written cell
                    return None
                if all(a is b for a, b in zip(idx, w)):
                    V = subst_term(V, x, sel(init_arr, *w))
                elif same_other and d is const(-s):
                    prev = x
                else:
                    t = mulc(s, sub(idx[ax], c))
                    out = or_(lt(t, ZERO), ge(t, j))
                    for a in range(len(w)):
                        if a != ax:
                            out = or_(out, ne(idx[a], w[a]))
                    if entails(H, out):
                        V = subst_term(V, x, sel(init_arr, *idx))
                    else:
                        return None
            if prev is not None:
                h = fresh('prev', 'R' if V.sort != 'I' else 'I')
                V2 = subst_term(V, prev, h)
                if havarr in V2.fv:
                    return None
                i0 = sel(init_arr, *[subst(i, {j: const(-1)}) for i in w])
                r = self.recurrence(V2, h, i0)
                if r is None:
                    return None
                return r[1](j)
            if havarr in V.fv:
                return None
            return V
        V = comp(data0, lambda e: e[0], D)
        if V is None:
            return None
        Vim = Vn = None
        if im0 is not None:
            Vim = comp(im0, lambda e: e[2], self.hsym[loc + ('im',)])
            if Vim is None:
                return None
        endnan = [p.end[o][k][1] for p in ps]
        if any(x is not None for x in endnan):
            if nan0 is None:
                Vn = self.merge(ps, lambda p: FALSE if p.end[o][k][1] is None else sel(p.end[o][k][1], *w, force=True))
                Vn = subst(Vn, M)
                if Vn.fv & (others | {D}):
                    return None
            else:
                Vn = comp(nan0, lambda e: e[1], self.hsym[loc + ('nan',)])
                if Vn is None:
                    return None

        shape = o.shape

        def at(x, V_, init_arr, dflt=None):
            x = lift(x)
            vs = [fresh('e', 'I') for _ in shape]
            t = mulc(s, sub(vs[ax], c))
            val = subst(V_, {j: t})
            cond = and_(le(ZERO, t), lt(t, x))
            for a in range(len(w)):
                if a != ax:
                    cond = and_(cond, eq(vs[a], w[a]))
            H = [h for v, l in zip(vs, shape) for h in (le(ZERO, v), lt(v, l))]
            if entails(I.hyps + H, cond):
                return mk_afn(vs, val, shape)
            old = sel(init_arr, *vs) if init_arr is not None else dflt
            old = old if init_arr is None else sel(init_arr, *vs, force=True)
            return mk_afn(vs, ite(cond, val, old), shape)

        def arr(x):
            return (at(x, V, data0),
                    None if Vn is None else at(x, Vn, nan0, FALSE),
                    None if Vim is None else at(x, Vim, im0))
        return ('buf', arr, w, V, Vim, Vn)

    # ------------------------------------------------------------ state at iteration x
    def set_state(self, x):
        I = self.I
        for loc, c in self.closed.items():
            o, k = loc
            if c[0] == 'num':
                init = self.init[o].get(k, MISSING)
                if not isinstance(init, (Num, bool)):
                    if x is ZERO:
                        put(o, k, MISSING)
                        continue
                    u = HavocUndef(c[1](x), c[3], subst(c[4], {self.j: sub(x, ONE)}))
                    u.jvar = x
                    put(o, k, u)
                    continue
                nan = FALSE
                if c[4] is not FALSE or c[5] is not FALSE:
                    nan = bite(le(x, ZERO), c[5], subst(c[4], {self.j: sub(x, ONE)}))
                put(o, k, Num(c[1](x), c[3], nan))
            elif c[0] == 'pos':
                put(o, k, c[1](x))
            elif c[0] == 'buf':
                put(o, k, c[1](x))
            elif c[0] == 'list':
                put(o, k, (None, c[1](x), self._noread if c[4] != 1 else c[2]))
            elif c[0] == 'fresh':
                put(o, k, Undef('carried around the loop at line %d' % self.line))
            else:
                put(o, k, Undef('changed by the loop at line %d' % self.line))

    def _noread(self, i):
        raise Unsupported('reading a list under construction')

    def finish(self, n):
        I = self.I
        for loc, c in self.closed.items():
            o, k = loc
            if c[0] == 'num':
                nan = subst(c[4], {self.j: sub(n, ONE)})
                put(o, k, Num(c[2](sub(n, ONE)), c[3], nan))
            elif c[0] == 'pos':
                put(o, k, c[1](n))
            elif c[0] == 'buf':
                put(o, k, c[1](n))
                o.writes.append(('blk', None, None))
            elif c[0] == 'list':
                if c[4] == 0:
                    continue
                L = c[1](n)
                put(o, k, (None, L, c[2]))
                o.appends.append(None)
                if not isinstance(c[4], int):
                    self.mask_facts(c[4][1], n, L, self.init[o][k])
            elif c[0] == 'fresh':
                try:
                    put(o, k, subst_value(self.clean(c[1]), {self.j: sub(n, ONE)}, I.heap))
                except Unsupported as e:
                    put(o, k, Undef(str(e)))
            else:
                put(o, k, Undef('changed by the loop at line %d' % self.line))

    def clean(self, v):
        fv = value_fv(v)
        hs = set(self.hsym.values())
        if fv & hs:
            v = subst_value(v, self.M, self.I.heap)
            if value_fv(v) & hs:
                raise Unsupported('loop-carried value')
        if isinstance(v, (PyList, PyObj, PyDict)):
            raise Unsupported('object created in a loop')
        return v

    def mask_facts(self, mask, n, cnt, init):
        pass

    # ------------------------------------------------------------ preservation and exits
    def check_and_exit(self):
        I, j, n = self.I, self.j, self.n
        ps = self.paths(j, lambda: self.set_state(j), quiet=False)
        exits = [p for p in ps if p.kind != 'return']
        normal = [p for p in ps if p.kind == 'return']
        if not I.quiet:
            for p in normal:
                self.check_path(p)
        # facts learnt in the body
        for p in normal:
            for f in p.assumed:
                if j in f.fv:
                    try:
                        I.assume(forall(j, ZERO, n, implies(and_(*p.decs), f)))
                    except Exception:
                        pass
                else:
                    I.assume(implies(forall(j, ZERO, n, not_(and_(*p.decs))), FALSE) if False else TRUE)
        if exits:
            conds = [and_(*p.decs) for p in exits]
            bad = or_(*conds)
            # can an iteration leave the loop?
            if bad is TRUE:
                self.set_state(ZERO)
                self.single_iteration()
                raise LoopLeft()
            if I.choose('leave'):
                js = I.skolem('left')
                I.assume(le(ZERO, js), lt(js, n))
                I.assume(subst(bad, {j: js}))
                t = fresh('t', 'I')
                I.assume(forall(t, ZERO, js, not_(subst(bad, {j: t}))))
                if self.wtest and normal:
                    # every earlier iteration ended normally
                    went = or_(*[and_(*p.decs) for p in normal])
                    I.assume(forall(t, ZERO, js, subst(went, {j: t})))
                self.set_state(js)
                self.bind(js)
                try:
                    I.exec_block(self.body, self.fr)
                except ContX():
                    raise Abort()
                except BreakX():
                    raise LoopLeft()
                if check_sat(I.hyps) == 'sat':
                    raise Unsupported('loop at line %d: the exit of an iteration is not reproduced' % self.line)
                raise Abort()
            I.assume(forall(j, ZERO, n, not_(bad)))

    def check_path(self, p):
        I, j, n = self.I, self.j, self.n
        H = p.hyps
        for loc, c in self.closed.items():
            o, k = loc
            e = p.end[o].get(k, MISSING)
            nm = 'loop at line %d: invariant for %s preserved' % (self.line, k if isinstance(k, str) else k)
            if c[0] == 'num':
                if isinstance(e, bool):
                    e = I.num(e)
                if not isinstance(e, Num) or isinstance(e, HavocUndef):
                    raise Unsupported('loop at line %d: %s not always assigned' % (self.line, k))
                want = c[2](j)
                if c[6] is not None:
                    # by definition of the sum: end(j) = entry(j) + increment(j)
                    ent_, inc = c[1](j), c[6]
                    I.oblige_eq(nm, sub(e.term, ent_), inc, H, kind='invariant')
                elif e.term is not want:
                    if want.sort == 'B' or e.term.sort == 'B':
                        I.oblige(nm, iff(e.term, want), H, kind='invariant')
                    else:
                        I.oblige_eq(nm, e.term, want, H, kind='invariant')
                if e.nan is not c[4]:
                    I.oblige(nm + ' (nan)', iff(e.nan, c[4]), H, kind='invariant')
            elif c[0] == 'pos':
                I.oblige_eq(nm, e, c[2](j), H, kind='invariant')
            elif c[0] == 'buf':
                w = c[2]
                for kind, idx, val in p.writes[o]:
                    if kind != 'pt':
                        raise Unsupported('loop at line %d: block write' % self.line)
                    for a, b in zip(idx, w):
                        if a is not b:
                            I.oblige_eq(nm + ' (index)', a, b, H, kind='invariant')
                nm = 'loop at line %d: array contents invariant preserved' % self.line
                I.oblige_eq(nm, sel(e[0], *w, force=True), c[3], H, kind='invariant')
                if c[4] is not None:
                    I.oblige_eq(nm, sel(e[2], *w, force=True), c[4], H, kind='invariant')
            elif c[0] == 'list':
                nm = 'loop at line %d: list contents invariant preserved' % self.line
                ap = p.appends[o]
                if isinstance(c[4], int):
                    if len(ap) != c[4]:
                        I.oblige(nm, FALSE, H, kind='invariant')
                        continue
                    for a, b in zip(ap, c[3][0]):
                        self.eq_values(nm, a, b, H)
                else:
                    I.oblige(nm, iff(TRUE if ap else FALSE, c[4][1]), H, kind='invariant')
                    if ap:
                        self.eq_values(nm, ap[0], c[3][0][0], H)

    def eq_values(self, nm, a, b, H):
        I = self.I
        if a is b:
            return
        if isinstance(a, bool):
            a = I.num(a)
        if isinstance(b, bool):
            b = I.num(b)
        if isinstance(a, Num) and isinstance(b, Num):
            if a.term is b.term:
                return
            if a.term.sort == 'B' or b.term.sort == 'B':
                I.oblige(nm, iff(a.term, b.term), H, kind='invariant')
            else:
                I.oblige_eq(nm, a.term, b.term, H, kind='invariant')
        elif isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            for x, y in zip(a, b):
                self.eq_values(nm, x, y, H)
        elif isinstance(a, NDArray) and isinstance(b, NDArray) and a.ndim == b.ndim:
            vs = [fresh('q', 'I') for _ in a.shape]
            for x, y in zip(a.shape, b.shape):
                if x is not y:
                    I.oblige_eq(nm + ' (shape)', x, y, H, kind='invariant')
            H2 = H + [h for v, s in zip(vs, a.shape) for h in (le(ZERO, v), lt(v, s))]
            self.eq_values(nm, a.get(*vs), b.get(*vs), H2)
        elif isinstance(a, Cx) and isinstance(b, Cx):
            I.oblige_eq(nm, a.re, b.re, H, kind='invariant')
            I.oblige_eq(nm, a.im, b.im, H, kind='invariant')
        else:
            raise Unsupported('comparison of loop values')


class LoopLeft(Exception):
    pass


def v0():
    return _V0


_V0 = sym('$fold', 'I')


def e_at(e, j):
    return subst(e, {j: _V0})


def I_ent_eq(I, a, b, j, n):
    return entails(I.hyps + [le(ZERO, j), lt(j, n)], eq(a, b))


def subst_term(t, old, new):
    from .prove import _replace
    return _replace(t, old, new)


def minus_h(N, h):
    if N.op == 'ite' and h not in N.args[0].fv:
        a, b = minus_h(N.args[1], h), minus_h(N.args[2], h)
        if a is None or b is None:
            return None
        return ite(N.args[0], a, b)
    d = sub(N, h)
    if h in d.fv:
        return None
    return d


def value_fv(v):
    if isinstance(v, Num):
        return v.term.fv | v.nan.fv
    if isinstance(v, Cx):
        return v.re.fv | v.im.fv
    if isinstance(v, tuple):
        r = frozenset()
        for x in v:
            r = r | value_fv(x)
        return r
    if isinstance(v, NDArray):
        r = v.buf.data.fv
        for s in v.shape:
            r = r | s.fv
        for x in (v.buf.nan, v.buf.im):
            if x is not None:
                r = r | x.fv
        return r
    return frozenset()


# ---------------------------------------------------------------- while
def step_loop(I, st, fr, spec):
    """a loop under a transition contract: from any state satisfying the invariant one iteration is a step of the contract;
    the state after the loop is reached by a last step from such a state (partial correctness)"""
    names = sorted({n.id for b in st.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
    vals = {n: fr.vars.get(n) for n in names}
    if not I.truth(I.eval(st.test, fr)):
        I.exec_block(st.orelse, fr)
        return
    roles = spec.start(I, {n: v for n, v in vals.items() if isinstance(v, Num)})
    for n in names:
        if n in roles:
            fr.vars[n] = Num(I.skolem(n), vals[n].kind)
        else:
            fr.vars.pop(n, None)        # assigned before use in each iteration
    I.assume(*spec.invariant({roles[n]: fr.vars[n] for n in roles}))
    spec.guard(I, {roles[n]: fr.vars[n] for n in roles}, I.eval(st.test, fr))
    if not I.truth(I.eval(st.test, fr)):
        raise Abort()
    before = {roles[n]: fr.vars[n] for n in roles}
    snap = [(o, s) for o, s in I.heap.snapshot() if not isinstance(o, Frame)]
    I.exec_block(st.body, fr)
    after = {roles[n]: fr.vars.get(n) for n in roles}
    spec.step(I, before, after)
    if any(o.get_state() != s for o, s in snap):
        raise Unsupported('heap write in a loop under a transition contract')
    if I.truth(I.eval(st.test, fr)):
        raise Abort()
    I.exec_block(st.orelse, fr)


def while_loop(I, st, fr):
    if I.step_spec is not None:
        return step_loop(I, st, fr, I.step_spec)
    k = 0
    while True:
        I.budget.check()
        v = I.eval(st.test, fr)
        if isinstance(v, Num) and v.term.op in ('true', 'false'):
            v = v.term is TRUE
        if isinstance(v, Num) and v.term.op == 'const':
            v = v.term.val != 0
        if not isinstance(v, (bool, str, tuple, type(None))):
            break
        if not v:
            I.exec_block(st.orelse, fr)
            return
        try:
            I.exec_block(st.body, fr)
        except BreakX():
            return
        except ContX():
            pass
        k += 1
        if k > 80:
            raise Unsupported('while loop not bounded by concrete values')
    if not I.truth(v):
        I.exec_block(st.orelse, fr)
        return
    J = I.skolem('iters')
    I.assume(ge(J, ONE))

    def bind(j):
        if not I.truth(I.eval(st.test, fr)):
            raise Abort()
    lp = Loop(I, J, bind, st.body, fr, st.orelse, st.lineno, wtest=True)
    try:
        lp.run()
    except LoopLeft:
        return
    # the test held at every earlier iteration and fails now
    t = fresh('t', 'I')
    base = I.heap.snapshot()
    h0 = len(I.hyps)

    def holds(x):
        """condition of the test at iteration x (x inside the loop)"""
        I.quiet += 1
        h1 = len(I.hyps)
        I.hyps += [le(ZERO, x), lt(x, J)]
        try:
            def fn():
                lp.set_state(x)
                return I.truth(I.eval(st.test, fr))
            return I.explore(fn, lambda o, d, a: (o, list(d), list(I.hyps)))
        finally:
            I.quiet -= 1
            del I.hyps[h1:]
            I.heap.restore(base)
    paths = holds(t)
    good = or_(*[and_(*d) for o, d, _ in paths if o == ('return', True)])
    I.assume(forall(t, ZERO, J, good))
    I.assume(subst(good, {t: sub(J, ONE)}), subst(good, {t: ZERO}))
    if I.truth(I.eval(st.test, fr)):
        raise Abort()
    # a counting loop: the trip count is determined
    I.exec_block(st.orelse, fr)
