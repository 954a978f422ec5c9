"""Symbolic interpreter for the Python subset used by the code under contract.

It parses the current source files and executes function bodies over terms.
Paths are explored by decision replay; every branch is pruned by z3.
"""
import ast
import os
import time
from .terms import *
from . import terms as tm
from .values import *
from .prove import Prover, Budget, Timeout
from . import smt
from .smt import entails, check_sat


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Module(object):
    def __init__(self, name, path, interp):
        self.name, self.path = name, path
        self.frame = Frame(interp.heap)
        self.frame.glob = self.frame
        self.loaded = False


class Rng(object):
    """position in the stream of independent standard draws"""

    def __init__(self, heap):
        self.pos = ZERO
        self.stream = arrsym('RND', 'R')
        heap.add(self)

    def get_state(self):
        return (self.pos, self.stream)

    def set_state(self, s):
        self.pos, self.stream = s


class Entry(object):
    __slots__ = ('choice', 'alt')

    def __init__(self, choice, alt):
        self.choice, self.alt = choice, alt


MAXPATHS = 600
MAXUNROLL = 300
OBL_BUDGET = 100            # seconds per obligation


class Interp(object):
    def __init__(self, repo, budget=600):
        from . import npmodel
        self.repo = repo
        self.heap = Heap()
        self.hyps = []
        self.decs = []
        self.assumed = []
        self.trail = []
        self.pos = 0
        self.modules = {}
        self.contracts = {}
        self.step_spec = None
        self.ext = None
        self.loop_specs = []
        self.np = npmodel.build(self)
        self.budget = Budget(budget)
        self.obls = []            # recorded obligations
        self.obl_seen = set()
        self.quiet = 0
        self.only = None          # filter on postcondition names
        self.force_only = None
        self.rng = Rng(self.heap)
        self.sk = PyDict(self.heap, {})
        self.loopvars = []
        self.line = 0
        self.fn = None
        self.depth = 0
        self.inlined = set()
        self.used_contracts = set()
        self.trusted = set()
        self.overrides = {}

    # ------------------------------------------------------------ modules
    def module(self, name):
        """name like 'allantools.ci' """
        m = self.modules.get(name)
        if m is None:
            rel = name.split('.')
            p = os.path.join(self.repo, *rel) + '.py'
            if not os.path.exists(p):
                p = os.path.join(self.repo, *(rel + ['__init__.py']))
            if not os.path.exists(p):
                raise Unsupported('module %s' % name)
            m = Module(name, p, self)
            self.modules[name] = m
            self.load(m)
        return m

    def load(self, m):
        with open(m.path) as f:
            tree = ast.parse(f.read())
        m.tree = tree
        m.frame.vars['__file__'] = m.path
        m.frame.vars['__name__'] = m.name
        m.frame.module = m
        for st in tree.body:
            try:
                self.exec_stmt(st, m.frame)
            except (Unsupported, PyExc) as e:
                # module-level statements outside the subset: names stay undefined
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        m.frame.vars.setdefault(n.id, Undef('module-level %s' % e))
        m.loaded = True

    def get_func(self, modname, qual):
        m = self.module(modname)
        parts = qual.split('.')
        v = m.frame.vars.get(parts[0])
        if v is None:
            raise Unsupported('no %s in %s' % (qual, modname))
        for p in parts[1:]:
            r = v.find(p)
            if not r:
                raise Unsupported('no %s in %s' % (qual, modname))
            v = r[0]
        return v

    # ------------------------------------------------------------ logic
    def ent(self, g):
        if g is TRUE:
            return True
        if g is FALSE:
            return False
        self.budget.check()
        return entails(self.hyps, g)

    def feasible(self, extra=()):
        self.budget.check()
        return check_sat(self.hyps + list(extra)) != 'unsat'

    def assume(self, *fs):
        for f in fs:
            if f is not TRUE:
                self.hyp(f)
                self.assumed.append(f)

    def decide(self, c):
        """truth of a boolean term on this path; forks when both are possible"""
        if isinstance(c, bool):
            return c
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            self.pos += 1
            ch = e.choice
            if ch in ('T', 'F'):      # forced
                return ch == 'T'
        else:
            if self.ent(c):
                self.trail.append(Entry('T', False))
                self.pos += 1
                return True
            if self.ent(not_(c)):
                self.trail.append(Entry('F', False))
                self.pos += 1
                return False
            ch = True
            self.trail.append(Entry(True, True))
            self.pos += 1
        g = c if ch else not_(c)
        self.hyp(g)
        self.decs.append(g)
        return ch

    def hyp(self, g):
        self.hyps.append(g)
        for f in (g.args if g.op == 'and' else (g,)):
            if f.op == 'exists':
                w = self.skolem('w')
                _, lo, hi, body = open_binder(f, w)
                self.hyps += [le(lo, w), lt(w, hi), body]

    def skolem(self, tag, sort='I'):
        """constant depending on the enclosing loop indices; its name is determined by the path"""
        k = (self.fn, self.line, tag)
        n = self.sk.d.get(k, 0)
        self.sk.d[k] = n + 1
        nm = '%s_%s_%s_%d' % (tag, (self.fn or '').split('.')[-1], self.line, n)
        if not self.loopvars:
            return sym(nm, sort)
        return tm._mk('app', tuple(self.loopvars), nm, sort)

    def choose(self, tag='br'):
        """nondeterministic branch"""
        return self.decide(appB('any_' + tag, self.skolem(tag, 'I')))

    def explore(self, fn, capture):
        snap = self.heap.snapshot()
        h0, d0, a0 = len(self.hyps), len(self.decs), len(self.assumed)
        saved = (self.trail, self.pos)
        trail = []
        out = []
        while True:
            self.budget.check()
            self.heap.restore(snap)
            del self.hyps[h0:]
            del self.decs[d0:]
            del self.assumed[a0:]
            self.trail, self.pos = trail, 0
            from .loops import Abort
            try:
                o = ('return', fn())
            except Abort:
                o = None
            except PyExc as e:
                o = ('raise', e)
            except ReturnEx as e:
                o = ('ret', e.v)
            except BreakEx:
                o = ('break', None)
            except ContinueEx:
                o = ('return', None)
            if o is not None:
                out.append(capture(o, self.decs[d0:], self.assumed[a0:]))
            if len(out) > MAXPATHS:
                raise Unsupported('too many paths')
            trail = self.trail[:self.pos]
            while trail and not trail[-1].alt:
                trail.pop()
            if not trail:
                break
            trail[-1] = Entry(False, False)
        self.heap.restore(snap)
        del self.hyps[h0:]
        del self.decs[d0:]
        del self.assumed[a0:]
        self.trail, self.pos = saved
        return out

    def obl_budget(self):
        """seconds for one obligation; less once several of this unit have failed (the verdict is settled by then)"""
        bad = sum(o['status'] != 'discharged' for o in self.obls)
        return Budget(OBL_BUDGET if bad < 2 else max(3, OBL_BUDGET // bad))

    def oblige(self, name, goal, hyps=None, kind='post'):
        """record and discharge an obligation under the current path"""
        if self.quiet or (kind == 'post' and (self.force_only or self.only) is not None and not (self.force_only or self.only)(name)):
            return True
        hs = list(self.hyps if hyps is None else hyps)
        key = (name, goal.id if isinstance(goal, T) else id(goal), tuple(h.id for h in hs))
        if key in self.obl_seen:
            return True
        self.obl_seen.add(key)
        t0 = time.time()
        try:
            ok = Prover(hs, self.obl_budget()).prove(goal) or (goal is FALSE and bool(smt.entails(hs, FALSE)))
            st = 'discharged' if ok else 'failed'
        except Timeout:
            ok, st = False, 'timeout'
        self.obls.append(dict(name=name, kind=kind, status=st, time=time.time() - t0,
                              goal=pp(goal)[:2000], hyps=[pp(h)[:400] for h in hs][:60] if not ok else [], hterms=hs, gterms=[goal], line=self.line))
        return ok

    def oblige_eq(self, name, a, b, hyps=None, kind='post'):
        if self.quiet or (kind == 'post' and (self.force_only or self.only) is not None and not (self.force_only or self.only)(name)):
            return True
        hs = list(self.hyps if hyps is None else hyps)
        a, b = lift(a), lift(b)
        key = (name, a.id, b.id, tuple(h.id for h in hs))
        if key in self.obl_seen:
            return True
        self.obl_seen.add(key)
        t0 = time.time()
        try:
            ok = FALSE in hs or Prover(hs, self.obl_budget()).prove_eq(a, b) or smt.entails(hs, FALSE)
            st = 'discharged' if ok else 'failed'
        except Timeout:
            ok, st = False, 'timeout'
        self.obls.append(dict(name=name, kind=kind, status=st, time=time.time() - t0,
                              goal='%s == %s' % (pp(a)[:1500], pp(b)[:1500]),
                              hyps=[pp(h)[:400] for h in hs][:60] if not ok else [], hterms=hs, gterms=[a, b], line=self.line))
        return ok

    # ------------------------------------------------------------ truthiness / scalars
    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, Num):
            if v.term.sort == 'B':
                return self.decide(v.term)
            if v.nan is not FALSE and self.decide(v.nan):
                return True
            return self.decide(ne(v.term, ZERO))
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, PyList):
            return self.decide(gt(v.len(), ZERO))
        if isinstance(v, PyDict):
            return bool(v.d)
        if isinstance(v, NDArray):
            if all(s is ONE for s in v.shape):
                return self.truth(v.get(*[ZERO] * v.ndim))
            raise PyExc('ValueError', 'truth value of an array')
        if isinstance(v, (Func, Method, Builtin, PyObj, Cls, ModRef)):
            return True
        raise Unsupported('truth of %r' % (v,))

    def num(self, v):
        if isinstance(v, Num):
            return v
        if isinstance(v, bool):
            return Num(TRUE if v else FALSE, 'b')
        if isinstance(v, NDArray) and v.ndim == 0:
            return v.get()
        if isinstance(v, NDArray) and all(s is ONE for s in v.shape):
            return v.get(*[ZERO] * v.ndim)
        if isinstance(v, (str, PyList, tuple, PyDict)) or v is None:
            raise PyExc('TypeError', 'number expected')
        raise Unsupported('number from %r' % (v,))

    def index_term(self, v, what='list'):
        if isinstance(v, bool):
            return ONE if v else ZERO
        v = self.num(v)
        if v.kind == 'f':
            raise PyExc('TypeError' if what != 'numpy' else 'IndexError', 'float used as an index')
        return v.arith()

    def norm_index(self, i, n, what='index'):
        """python index i into length n -> term in [0,n); forks to IndexError"""
        if self.decide(ge(i, ZERO)):
            if not self.decide(lt(i, n)):
                raise PyExc('IndexError', '%s out of range' % what)
            return i
        if not self.decide(ge(add(i, n), ZERO)):
            raise PyExc('IndexError', '%s out of range' % what)
        return add(i, n)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec_stmt(s, fr)

    def exec_stmt(self, st, fr):
        self.line = getattr(st, 'lineno', self.line)
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s (line %d)' % (type(st).__name__, self.line))
        return m(st, fr)

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, fr)

    def s_Pass(self, st, fr):
        pass

    def s_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, fr)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, fr)
            old = self.getattr_(obj, t.attr)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, fr)
            ix = self.eval_index(t.slice, fr)
            old = self.getitem(obj, ix)
        else:
            raise Unsupported('augmented target')
        rhs = self.eval(st.value, fr)
        if isinstance(old, NDArray) and not isinstance(t, ast.Subscript):
            # in-place array operation: writes through the view
            new = self.binop(type(st.op).__name__, old, rhs)
            if old.dtype in ('i', 'b') and isinstance(new, NDArray) and new.dtype == 'f':
                raise PyExc('TypeError', 'UFuncTypeError: in-place cast float to int')
            self.np.store_all(old, new)
            return
        if isinstance(old, PyList) and isinstance(st.op, ast.Add) and isinstance(t, ast.Name):
            self.list_extend(old, rhs)
            return
        new = self.binop(type(st.op).__name__, old, rhs)
        if isinstance(t, ast.Name):
            self.setvar(t.id, new, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr_(obj, t.attr, new)
        else:
            self.setitem(obj, ix, new)

    def setvar(self, name, v, fr):
        if name in getattr(fr, 'globals_', ()):
            fr.glob.vars[name] = v
        elif name in getattr(fr, 'nonlocals_', ()):
            p = fr.parent
            while p is not None:
                if name in p.vars:
                    p.vars[name] = v
                    return
                p = p.parent
        else:
            fr.vars[name] = v

    def s_Global(self, st, fr):
        fr.globals_ = set(getattr(fr, 'globals_', ())) | set(st.names)

    def s_Nonlocal(self, st, fr):
        fr.nonlocals_ = set(getattr(fr, 'nonlocals_', ())) | set(st.names)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, fr)
            self.setitem(obj, self.eval_index(t.slice, fr), v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n, starred=False):
        if starred:
            raise Unsupported('starred assignment')
        if isinstance(v, tuple):
            items = list(v)
        elif isinstance(v, PyList) and v.items is not None:
            items = v.items
        elif isinstance(v, NDArray):
            if not self.decide(eq(v.shape[0], const(n))):
                raise PyExc('ValueError', 'unpack')
            return [self.getitem(v, Num(const(i))) for i in range(n)]
        else:
            raise Unsupported('unpack %r' % (v,))
        if len(items) != n:
            raise PyExc('ValueError', 'unpack')
        return items

    def s_Return(self, st, fr):
        raise ReturnEx(None if st.value is None else self.eval(st.value, fr))

    def s_If(self, st, fr):
        if self.truth(self.eval(st.test, fr)):
            self.exec_block(st.body, fr)
        else:
            self.exec_block(st.orelse, fr)

    def s_Assert(self, st, fr):
        if not self.truth(self.eval(st.test, fr)):
            raise PyExc('AssertionError', 'line %d' % st.lineno)

    def s_Raise(self, st, fr):
        if st.exc is None:
            raise PyExc('RuntimeError', 're-raise')
        v = self.eval(st.exc, fr)
        if isinstance(v, TypeRef):
            raise PyExc(v.name)
        if isinstance(v, ExcObj):
            raise PyExc(v.name, str(v.args[:1]), v)
        if isinstance(v, Cls):
            raise PyExc(v.name)
        raise Unsupported('raise %r' % (v,))

    def s_Try(self, st, fr):
        try:
            try:
                self.exec_block(st.body, fr)
            except PyExc as e:
                for h in st.handlers:
                    names = []
                    if h.type is None:
                        names = ['Exception']
                    else:
                        t = self.eval(h.type, fr)
                        ts = t if isinstance(t, tuple) else (t,)
                        names = [x.name for x in ts]
                    if any(exc_matches(e.name, n) for n in names):
                        if h.name:
                            fr.vars[h.name] = ExcObj(e.name, (e.msg,))
                        self.exec_block(h.body, fr)
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, fr)
        finally:
            if st.finalbody:
                self.exec_block(st.finalbody, fr)

    def s_With(self, st, fr):
        for item in st.items:
            v = self.eval(item.context_expr, fr)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr)
        self.exec_block(st.body, fr)

    def s_FunctionDef(self, st, fr):
        mod = self.cur_module(fr)
        for n in ast.walk(st):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                fr.vars[st.name] = Undef('generator %s' % st.name)
                return
        f = Func(st, mod, closure=None if fr is mod.frame else fr)
        f.defaults = self.eval_defaults(st.args, fr)
        v = f
        for d in reversed(st.decorator_list):
            dn = ast.unparse(d)
            if dn in ('staticmethod', 'property', 'classmethod'):
                v = (dn, f)
            else:
                v = self.call(self.eval(d, fr), [v], {})
        fr.vars[st.name] = v

    def eval_defaults(self, a, fr):
        pos = [self.eval(d, fr) for d in a.defaults]
        kw = [None if d is None else self.eval(d, fr) for d in a.kw_defaults]
        return pos, kw

    def s_ClassDef(self, st, fr):
        mod = self.cur_module(fr)
        bases = []
        for b in st.bases:
            v = self.eval(b, fr)
            if isinstance(v, Cls):
                bases.append(v)
        d = Frame(self.heap, parent=fr if fr is not mod.frame else None, glob=mod.frame)
        d.module = mod
        for s in st.body:
            self.exec_stmt(s, d)
        c = Cls(st.name, bases, d.vars, mod)
        for k, v in d.vars.items():
            if isinstance(v, Func):
                v.cls = c
                v.closure = None
        fr.vars[st.name] = c

    def cur_module(self, fr):
        while fr is not None:
            m = getattr(fr, 'module', None)
            if m is not None:
                return m
            fr = fr.parent or (fr.glob if fr.glob is not fr else None)
        raise Unsupported('module of frame')

    def s_Import(self, st, fr):
        for a in st.names:
            if a.name == 'allantools' or a.name.startswith('allantools.'):
                v = ModRef('repo:' + (a.name if a.asname else a.name.split('.')[0]))
            else:
                v = ModRef(a.name if a.asname else a.name.split('.')[0])
            fr.vars[a.asname or a.name.split('.')[0]] = v

    def s_ImportFrom(self, st, fr):
        for a in st.names:
            nm = a.asname or a.name
            if st.level:
                pkg = 'allantools'
                base = pkg + ('.' + st.module if st.module else '')
                fr.vars[nm] = ModRef('repofrom:%s:%s' % (base, a.name))
            elif st.module and st.module.split('.')[0] == 'allantools':
                fr.vars[nm] = ModRef('repofrom:%s:%s' % (st.module, a.name))
            else:
                fr.vars[nm] = self.np.resolve('%s.%s' % (st.module, a.name))

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            else:
                raise Unsupported('del')

    def s_Break(self, st, fr):
        raise BreakEx()

    def s_Continue(self, st, fr):
        raise ContinueEx()

    # ------------------------------------------------------------ loops
    def s_For(self, st, fr):
        from .loops import for_loop
        from .loops import LoopLeft
        it = self.eval(st.iter, fr)
        for spec in self.loop_specs:
            if spec.run(self, st, it, fr):
                return
        try:
            for_loop(self, st, it, fr)
        except LoopLeft:
            pass

    def s_While(self, st, fr):
        from .loops import while_loop
        while_loop(self, st, fr)

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s (line %d)' % (type(e).__name__, getattr(e, 'lineno', 0)))
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if v is None or isinstance(v, (bool, str)):
            return v
        if isinstance(v, int):
            return Num(const(v), 'i')
        if isinstance(v, float):
            if v == float('inf'):
                return Num(INF, 'f')
            return Num(const(v), 'f')
        if isinstance(v, complex):
            return Cx(const(v.real), const(v.imag))
        if v is Ellipsis:
            return Ellipsis
        raise Unsupported('constant %r' % (v,))

    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.vars:
                return self.force(f.vars[name], name)
            f = f.parent
        g = fr.glob
        if g is not None and name in g.vars:
            return self.force(g.vars[name], name, g)
        b = self.np.builtin(name)
        if b is not None:
            return b
        raise PyExc('NameError', name)

    def force(self, v, name, g=None):
        if isinstance(v, Undef):
            raise Unsupported('use of %s: %s' % (name, v.why))
        if isinstance(v, Num) and hasattr(v, 'jvar'):
            if self.decide(le(v.jvar, ZERO)):
                raise PyExc('UnboundLocalError', name)
            return Num(v.term, v.kind, v.nan)
        if isinstance(v, ModRef) and v.name.startswith('repo'):
            return self.resolve_repo(v)
        return v

    def resolve_repo(self, v):
        if v.name.startswith('repo:'):
            return v
        _, base, name = v.name.split(':')
        # submodule or attribute?
        if base == 'allantools' and os.path.exists(os.path.join(self.repo, 'allantools', name + '.py')):
            return ModRef('repo:allantools.' + name)
        m = self.module(base)
        if name not in m.frame.vars:
            raise PyExc('ImportError', name)
        return self.force(m.frame.vars[name], name)

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Tuple(self, e, fr):
        return tuple(self.eval_elts(e.elts, fr))

    def eval_elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr)
                if isinstance(v, tuple):
                    out.extend(v)
                elif isinstance(v, PyList) and v.items is not None:
                    out.extend(v.items)
                else:
                    raise Unsupported('starred')
            else:
                out.append(self.eval(x, fr))
        return out

    def e_List(self, e, fr):
        return PyList(self.heap, self.eval_elts(e.elts, fr))

    def e_Set(self, e, fr):
        return tuple(self.eval_elts(e.elts, fr))

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            kk = self.eval(k, fr)
            d[self.dkey(kk)] = self.eval(v, fr)
        return PyDict(self.heap, d)

    def dkey(self, k):
        if isinstance(k, str):
            return k
        if isinstance(k, Num) and k.term.op == 'const':
            return k.term.val
        if isinstance(k, tuple):
            return tuple(self.dkey(x) for x in k)
        if isinstance(k, (bool, type(None))):
            return k
        if isinstance(k, (TypeRef,)):
            return k
        raise Unsupported('dict key %r' % (k,))

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, fr)
                spec = ''
                if v.format_spec is not None:
                    sp = self.eval(v.format_spec, fr)
                    spec = sp if isinstance(sp, str) else '?'
                parts.append(self.fmt(x, spec))
        return self.mkstr(parts)

    def mkstr(self, parts):
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return Str(parts)

    def fmt(self, x, spec=''):
        if isinstance(x, str) and not spec:
            return x
        if isinstance(x, Num) and x.term.op == 'const' and not spec and x.kind == 'i':
            return str(x.term.val)
        return ('fmt', x, spec)

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        o = type(e.op).__name__
        if o == 'Not':
            if isinstance(v, Num) and v.term.sort == 'B':
                return Num(not_(v.term), 'b')
            return not self.truth(v)
        if o == 'USub':
            if isinstance(v, Cx):
                return Cx(-v.re, -v.im)
            if isinstance(v, NDArray):
                return self.np.ew1(v, lambda x: Cx(-x.re, -x.im) if isinstance(x, Cx) else Num(mulc(-1, x.arith()), x.kind if x.kind != 'b' else 'i', x.nan))
            v = self.num(v)
            return Num(mulc(-1, v.arith()), 'i' if v.kind == 'b' else v.kind, v.nan)
        if o == 'UAdd':
            return v
        if o == 'Invert':
            if isinstance(v, NDArray):
                return self.np.ew1(v, lambda x: Num(not_(x.term), 'b'), 'b')
            if isinstance(v, Num) and v.term.sort == 'B':
                return Num(not_(v.term), 'b')
        raise Unsupported('unary %s' % o)

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, o, a, b):
        if isinstance(a, bool):
            a = self.num(a)
        if isinstance(b, bool):
            b = self.num(b)
        if isinstance(a, (str, Str)) or isinstance(b, (str, Str)):
            if o == 'Add' and isinstance(a, (str, Str)) and isinstance(b, (str, Str)):
                pa = [a] if isinstance(a, str) else a.parts
                pb = [b] if isinstance(b, str) else b.parts
                return self.mkstr(pa + pb)
            if o == 'Mod':
                return Str([('fmt%', a, b)])
            if o == 'Mult' and isinstance(a, str) and isinstance(b, Num) and b.term.op == 'const':
                return a * int(b.term.val)
            raise PyExc('TypeError', 'str operand')
        if isinstance(a, tuple) and isinstance(b, tuple) and o == 'Add':
            return a + b
        if isinstance(a, PyList) and isinstance(b, PyList) and o == 'Add':
            return self.list_concat(a, b)
        if isinstance(a, PyList) and isinstance(b, Num) and o == 'Mult':
            return self.list_repeat(a, b)
        if isinstance(b, PyList) and isinstance(a, Num) and o == 'Mult':
            return self.list_repeat(b, a)
        if isinstance(a, NDArray) or isinstance(b, NDArray):
            return self.np.ew2(o, a, b)
        if a is None or b is None:
            raise PyExc('TypeError', 'None operand')
        if isinstance(a, Cx) or isinstance(b, Cx):
            return self.scalar_c(o, a, b)
        if isinstance(a, (PyList, tuple)) or isinstance(b, (PyList, tuple)):
            if isinstance(a, NpNum) or isinstance(b, NpNum):
                return self.np.ew2(o, *[v if isinstance(v, Num) else self.np.asarr(v) for v in (a, b)])
            for v in (a, b):
                if isinstance(v, Num) and v.kind == 'f' and v.term.op != 'const':
                    raise Unsupported('list and a scalar that may be a numpy scalar')
            raise PyExc('TypeError', 'list operand')
        return self.scalar(o, self.num(a), self.num(b))

    def scalar_c(self, o, a, b):
        if not isinstance(a, Cx):
            a = Cx(self.num(a).arith(), ZERO)
        if not isinstance(b, Cx):
            b = Cx(self.num(b).arith(), ZERO)
        if o == 'Add':
            return Cx(a.re + b.re, a.im + b.im)
        if o == 'Sub':
            return Cx(a.re - b.re, a.im - b.im)
        if o == 'Mult':
            return Cx(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)
        if o == 'Div' and b.im is ZERO:
            self.check_nonzero(b.re)
            return Cx(a.re / b.re, a.im / b.re)
        raise Unsupported('complex %s' % o)

    def check_nonzero(self, t, nan=FALSE):
        if t.op == 'const' and t.val != 0:
            return
        if smt.nonneg(t) and t in smt.POSITIVE:
            return
        if nan is not FALSE:
            return self.check_nonzero_if(not_(nan), t)
        if self.decide(eq(t, ZERO)):
            raise PyExc('NonFinite', 'division by zero')

    def check_nonzero_if(self, c, t):
        if self.decide(and_(c, eq(t, ZERO))):
            raise PyExc('NonFinite', 'division by zero')

    def scalar(self, o, a, b, checked=True):
        """arithmetic of two scalars"""
        nan = or_(a.nan, b.nan)
        x, y = a.term, b.term
        if o in ('BitAnd', 'BitOr', 'BitXor'):
            if x.sort == 'B' and y.sort == 'B':
                if o == 'BitAnd':
                    return Num(and_(x, y), 'b')
                if o == 'BitOr':
                    return Num(or_(x, y), 'b')
                return Num(not_(iff(x, y)), 'b')
            if x.op == 'const' and y.op == 'const':
                p, q = int(x.val), int(y.val)
                return Num(const({'BitAnd': p & q, 'BitOr': p | q, 'BitXor': p ^ q}[o]), 'i')
            raise Unsupported('bit operation')
        x, y = a.arith(), b.arith()
        k = 'f' if 'f' in (a.kind, b.kind) else 'i'
        if x is INF or y is INF or NANT in (x, y):
            return self.inf_arith(o, x, y, k)
        if o == 'Add':
            return Num(add(x, y), k, nan)
        if o == 'Sub':
            return Num(sub(x, y), k, nan)
        if o == 'Mult':
            return Num(mul(x, y), k, nan)
        if o == 'Div':
            if checked:
                self.check_nonzero(y, nan)
            return Num(div(x, y), 'f', nan)
        if o == 'FloorDiv':
            if checked:
                self.check_nonzero(y)
            return Num(idiv(x, y), k, nan)
        if o == 'Mod':
            if checked:
                self.check_nonzero(y)
            return Num(imod(x, y), k, nan)
        if o == 'Pow':
            return self.pow_(a, b, k, nan)
        if o == 'LShift' and y.op == 'const' and y.val >= 0:
            return Num(mulc(2 ** int(y.val), x), 'i')
        if o == 'RShift' and y.op == 'const' and y.val >= 0:
            return Num(idiv(x, const(2 ** int(y.val))), 'i')
        raise Unsupported('operator %s' % o)

    def inf_arith(self, o, x, y, k):
        if o in ('Add', 'Sub') and y is not INF:
            return Num(INF, 'f')
        if o == 'Div' and y is INF and x is not INF:
            return Num(ZERO, 'f')
        if o == 'Mult':
            other = y if x is INF else x
            if self.ent(gt(other, ZERO)):
                return Num(INF, 'f')
        raise Unsupported('arithmetic with inf/nan')

    def pow_(self, a, b, k, nan):
        x, y = a.arith(), b.arith()
        if y.op == 'const' and y.val.denominator == 1:
            if y.val < 0:
                self.check_nonzero(x)
                return Num(powi(x, int(y.val)), 'f', nan)
            return Num(powi(x, int(y.val)), k, nan)
        # general real power of a positive base
        if not (x.op == 'const' and x.val > 0 or x.op != 'const' and smt.pos_h(self.hyps, x)):
            if y.sort == 'I':
                if not self.ent(gt(x, ZERO)):
                    if self.decide(eq(x, ZERO)):
                        raise PyExc('NonFinite', '0**n')
            elif self.decide(lt(x, ZERO)):
                raise PyExc('NonFinite', 'negative base')
            elif self.decide(eq(x, ZERO)):
                if self.decide(le(y, ZERO)):
                    raise PyExc('NonFinite', '0**nonpositive')
                return Num(ZERO, 'f', nan)
        r = power(x, y)
        if r.op == 'app' and r.val == 'pow':
            smt.POSITIVE.add(r)
        return Num(r, 'f' if not (a.kind == 'i' and b.kind == 'i') else 'i', nan)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.eval(x, fr)
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, Num) else False
            if not isand and t:
                return v if not isinstance(v, Num) else True
        return v

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, fr)
            r = self.compare(type(op).__name__, left, right)
            if res is None:
                res = r
            else:
                if isinstance(res, NDArray) or isinstance(r, NDArray):
                    raise Unsupported('chained array comparison')
                if isinstance(res, bool) and not res:
                    return False
                res = Num(and_(self.bt(res), self.bt(r)), 'b')
            left = right
        if isinstance(res, Num) and res.term in (TRUE, FALSE):
            return res.term is TRUE
        return res

    def bt(self, v):
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, Num):
            return v.term if v.term.sort == 'B' else ne(v.term, ZERO)
        raise Unsupported('boolean of %r' % (v,))

    def compare(self, o, a, b):
        if o in ('Is', 'IsNot'):
            r = self.is_same(a, b)
            return r if o == 'Is' else not r
        if o in ('In', 'NotIn'):
            r = self.contains(b, a)
            if o == 'In':
                return r
            return (not r) if isinstance(r, bool) else Num(not_(r.term), 'b')
        if isinstance(a, NDArray) or isinstance(b, NDArray):
            if b is None or a is None or isinstance(a, str) or isinstance(b, str):
                return o == 'NotEq'
            return self.np.cmp(o, a, b)
        if isinstance(a, bool):
            a = self.num(a)
        if isinstance(b, bool):
            b = self.num(b)
        if isinstance(a, Num) and isinstance(b, Num):
            return Num(self.cmp_terms(o, a, b), 'b')
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('comparison of an opaque argument')
        if isinstance(a, Str) or isinstance(b, Str):
            raise Unsupported('comparison of formatted text')
        if isinstance(a, PyList) and isinstance(b, PyList) and o in ('Eq', 'NotEq'):
            if a is b:
                return o == 'Eq'
            if b.items is not None and not b.items or a.items is not None and not a.items:
                r = eq(a.len(), b.len())
                return Num(r if o == 'Eq' else not_(r), 'b')
            if a.items is not None and b.items is not None:
                if len(a.items) != len(b.items):
                    return o == 'NotEq'
                r = and_(*[self.bt(self.compare('Eq', x, y)) for x, y in zip(a.items, b.items)])
                return Num(r if o == 'Eq' else not_(r), 'b')
            raise Unsupported('list comparison')
        if isinstance(a, str) and isinstance(b, str):
            return {'Eq': a == b, 'NotEq': a != b, 'Lt': a < b, 'Gt': a > b, 'LtE': a <= b, 'GtE': a >= b}[o]
        if isinstance(a, tuple) and isinstance(b, tuple) and o in ('Eq', 'NotEq'):
            if len(a) != len(b):
                return o == 'NotEq'
            r = and_(*[self.bt(self.compare('Eq', x, y)) for x, y in zip(a, b)])
            return Num(r if o == 'Eq' else not_(r), 'b')
        if o in ('Eq', 'NotEq'):
            if isinstance(a, TypeRef) and isinstance(b, TypeRef):
                return (a.name == b.name) == (o == 'Eq')
            same = a is b
            if a is None or b is None or type(a) != type(b):
                return (o == 'Eq') == same if same else o == 'NotEq'
            raise Unsupported('comparison %r %r' % (a, b))
        raise PyExc('TypeError', 'unorderable')

    def cmp_terms(self, o, a, b):
        x, y = a.term, b.term
        if x.sort == 'B' and y.sort == 'B' and o in ('Eq', 'NotEq'):
            return iff(x, y) if o == 'Eq' else not_(iff(x, y))
        x, y = a.arith(), b.arith()
        if x is INF or y is INF:
            if x is y:
                r = TRUE if o in ('Eq', 'LtE', 'GtE') else FALSE
            elif o in ('Eq', 'NotEq'):
                r = TRUE if o == 'NotEq' else FALSE
            else:
                r = TRUE if (y is INF) == (o in ('Lt', 'LtE')) else FALSE
            return r
        r = {'Eq': eq, 'NotEq': ne, 'Lt': lt, 'LtE': le, 'Gt': gt, 'GtE': ge}[o](x, y)
        nan = or_(a.nan, b.nan)
        if nan is not FALSE:
            r = or_(r, nan) if o == 'NotEq' else and_(r, not_(nan))
        return r

    def is_same(self, a, b):
        if a is None or b is None:
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                raise Unsupported('identity of an opaque argument')
            return a is b
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('identity of an opaque argument')
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            if isinstance(a, Num) and a.kind != 'b' or isinstance(b, Num) and b.kind != 'b':
                return False
            raise Unsupported('is on booleans')
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, TypeRef) and isinstance(b, TypeRef):
            return a.name == b.name
        if isinstance(a, Num) and isinstance(b, Num):
            raise Unsupported('is on numbers')
        return a is b

    def contains(self, c, x):
        if isinstance(c, PyDict):
            return self.dkey(x) in c.d
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        items = c if isinstance(c, tuple) else c.items if isinstance(c, PyList) else None
        if items is not None:
            if isinstance(x, str) or all(isinstance(i, str) for i in items):
                return any(isinstance(i, str) and i == x for i in items)
            ts = [self.bt(self.compare('Eq', x, i)) for i in items]
            r = or_(*ts)
            return True if r is TRUE else False if r is FALSE else Num(r, 'b')
        if isinstance(c, Range):
            x = self.num(x)
            r = and_(le(c.start, x.term), lt(x.term, c.stop)) if c.step is ONE and x.term.sort == 'I' else None
            if r is not None:
                return Num(r, 'b')
        if isinstance(c, NDArray):
            return self.np.any_(self.np.cmp('Eq', c, x))
        raise Unsupported('membership in %r' % (c,))

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)

    def e_Lambda(self, e, fr):
        mod = self.cur_module(fr)
        f = Func(e, mod, closure=None if fr is mod.frame else fr)
        f.defaults = self.eval_defaults(e.args, fr)
        return f

    def e_ListComp(self, e, fr):
        from .loops import comprehension
        return comprehension(self, e, fr)

    def e_GeneratorExp(self, e, fr):
        from .loops import comprehension
        return comprehension(self, e, fr)

    def e_DictComp(self, e, fr):
        g = e.generators[0]
        it = self.eval(g.iter, fr)
        items = self.concrete_items(it)
        f2 = Frame(self.heap, parent=fr, glob=fr.glob)
        d = {}
        for x in items:
            self.assign(g.target, x, f2)
            if all(self.truth(self.eval(c, f2)) for c in g.ifs):
                d[self.dkey(self.eval(e.key, f2))] = self.eval(e.value, f2)
        return PyDict(self.heap, d)

    def concrete_items(self, it):
        if isinstance(it, tuple):
            return list(it)
        if isinstance(it, PyList) and it.items is not None:
            return list(it.items)
        if isinstance(it, PyDict):
            return list(it.d)
        if isinstance(it, str):
            return list(it)
        from .loops import iter_view
        n, elem = iter_view(self, it)
        if n.op == 'const':
            return [elem(const(i)) for i in range(int(n.val))]
        raise Unsupported('iteration over symbolic sequence here')

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.setvar(e.target.id, v, fr)
        return v

    def e_Starred(self, e, fr):
        raise Unsupported('starred')

    # ------------------------------------------------------------ attributes
    def e_Attribute(self, e, fr):
        return self.getattr_(self.eval(e.value, fr), e.attr)

    def getattr_(self, o, a):
        if isinstance(o, ModRef):
            if o.name.startswith('repo:'):
                m = self.module(o.name[5:])
                if a in m.frame.vars:
                    return self.force(m.frame.vars[a], a)
                sub_ = os.path.join(self.repo, *o.name[5:].split('.'), a + '.py')
                if os.path.exists(sub_):
                    return ModRef('%s.%s' % (o.name, a))
                raise PyExc('AttributeError', a)
            return self.np.resolve(o.name + '.' + a)
        if isinstance(o, PyObj):
            if a in o.attrs:
                return self.force(o.attrs[a], a)
            if a == '__class__':
                return o.cls
            r = o.cls.find(a)
            if r is None:
                raise PyExc('AttributeError', a)
            v = r[0]
            if isinstance(v, tuple) and len(v) == 2 and v[0] in ('property', 'staticmethod', 'classmethod'):
                if v[0] == 'property':
                    return self.call(Method(v[1], o), [], {})
                return v[1] if v[0] == 'staticmethod' else Method(v[1], o.cls)
            if isinstance(v, Func):
                return Method(v, o)
            return v
        if isinstance(o, Cls):
            r = o.find(a)
            if a == '__name__':
                return o.name
            if r is None:
                raise PyExc('AttributeError', a)
            v = r[0]
            if isinstance(v, tuple) and len(v) == 2 and v[0] in ('staticmethod', 'classmethod'):
                return v[1] if v[0] == 'staticmethod' else Method(v[1], o)
            return v
        if isinstance(o, Super):
            for b in o.cls.bases:
                r = b.find(a)
                if r:
                    return Method(r[0], o.obj) if isinstance(r[0], Func) else r[0]
            if a == '__init__':
                return Builtin('object.__init__', lambda args, kw: None)
            raise PyExc('AttributeError', a)
        if isinstance(o, (NDArray,)):
            return self.np.array_attr(o, a)
        if isinstance(o, (Num, Cx)):
            return self.np.scalar_attr(o, a)
        if isinstance(o, PyList):
            return self.list_attr(o, a)
        if isinstance(o, PyDict):
            return self.dict_attr(o, a)
        if isinstance(o, (str, Str)):
            return self.str_attr(o, a)
        if isinstance(o, (Func, Method)) and a == '__name__':
            return (o if isinstance(o, Func) else o.func).name
        if o is None:
            raise PyExc('AttributeError', a)
        if isinstance(o, Builtin) and not hasattr(o, 'model_attr'):
            return self.np.resolve('%s.%s' % (o.name, a))
        if hasattr(o, 'model_attr'):
            return o.model_attr(self, a)
        raise Unsupported('attribute %s of %r' % (a, o))

    def setattr_(self, o, a, v):
        if isinstance(o, PyObj):
            o.attrs[a] = v
            return
        raise Unsupported('set attribute on %r' % (o,))

    # lists -------------------------------------------------------
    def list_attr(self, l, a):
        if a == 'append':
            return Builtin('append', lambda args, kw: self.list_append(l, args[0]))
        if a == 'extend':
            return Builtin('extend', lambda args, kw: self.list_extend(l, args[0]))
        if a == 'copy':
            return Builtin('copy', lambda args, kw: self.list_copy(l))
        if a == 'reverse' and l.items is not None:
            return Builtin('reverse', lambda args, kw: l.items.reverse())
        if a == 'pop' and l.items is not None:
            def pop(args, kw):
                if not l.items:
                    raise PyExc('IndexError')
                return l.items.pop(*[int(self.index_term(x).val) for x in args])
            return Builtin('pop', pop)
        if a == 'insert' and l.items is not None:
            return Builtin('insert', lambda args, kw: l.items.insert(int(self.index_term(args[0]).val), args[1]))
        if a in ('index', 'count', 'sort', 'remove', 'clear', 'pop', 'reverse', 'insert'):
            raise Unsupported('list.%s' % a)
        raise PyExc('AttributeError', a)

    def list_append(self, l, v):
        l.appends.append(v)
        if l.items is not None:
            l.items.append(v)
        else:
            n, g = l.length, l.get_
            l.length = add(n, ONE)
            l.get_ = lambda i, n=n, g=g, v=v: self.value_ite(eq(i, n), v, lambda: g(i))

    def value_ite(self, c, v, other):
        if c is TRUE:
            return v
        if c is FALSE:
            return other()
        if self.ent(c):
            return v
        if self.ent(not_(c)):
            return other()
        w = other()
        return self.merge_values(c, v, w)

    def merge_values(self, c, v, w):
        if v is w:
            return v
        if isinstance(v, bool):
            v = self.num(v)
        if isinstance(w, bool):
            w = self.num(w)
        if isinstance(v, Num) and isinstance(w, Num):
            if v.kind == 'b' and w.kind == 'b':
                return Num(ite(c, v.term, w.term), 'b')
            k = 'f' if 'f' in (v.kind, w.kind) else 'i'
            return Num(ite(c, v.arith(), w.arith()), k, bite(c, v.nan, w.nan))
        if isinstance(v, Cx) and isinstance(w, Cx):
            return Cx(ite(c, v.re, w.re), ite(c, v.im, w.im))
        if isinstance(v, tuple) and isinstance(w, tuple) and len(v) == len(w):
            return tuple(self.merge_values(c, x, y) for x, y in zip(v, w))
        raise Unsupported('merge of %r and %r' % (v, w))

    def list_extend(self, l, o):
        for x in self.concrete_items(o):
            self.list_append(l, x)

    def list_copy(self, l):
        if l.items is not None:
            return PyList(self.heap, list(l.items))
        return PyList(self.heap, None, l.length, l.get_)

    def list_concat(self, a, b):
        if a.items is not None and b.items is not None:
            return PyList(self.heap, a.items + b.items)
        na = a.len()
        ga, gb = self.list_getter(a), self.list_getter(b)
        return PyList(self.heap, None, add(na, b.len()),
                      lambda i: self.value_ite(lt(i, na), ga(i) if not self.ent(ge(i, na)) else None, lambda: gb(sub(i, na)))
                      if not self.ent(ge(i, na)) else gb(sub(i, na)))

    def list_getter(self, l):
        if l.items is None:
            return l.get_
        items = list(l.items)

        def g(i):
            if i.op == 'const':
                return items[int(i.val)]
            if not items:
                raise Unsupported('element of an empty list')
            v = items[-1]
            for k in range(len(items) - 2, -1, -1):
                v = self.merge_values(eq(i, const(k)), items[k], v)
            return v
        return g

    def list_repeat(self, l, n):
        t = self.index_term(n)
        if t.op == 'const' and l.items is not None:
            return PyList(self.heap, l.items * max(0, int(t.val)))
        if l.items is not None and len(l.items) == 1:
            if not self.decide(ge(t, ZERO)):
                t = ZERO
            v = l.items[0]
            return PyList(self.heap, None, t, lambda i: v)
        raise Unsupported('list repetition')

    def dict_attr(self, d, a):
        B = Builtin
        if a == 'items':
            return B(a, lambda args, kw: PyList(self.heap, [(self.unkey(k), v) for k, v in d.d.items()]))
        if a == 'keys':
            return B(a, lambda args, kw: PyList(self.heap, [self.unkey(k) for k in d.d]))
        if a == 'values':
            return B(a, lambda args, kw: PyList(self.heap, list(d.d.values())))
        if a == 'copy':
            return B(a, lambda args, kw: PyDict(self.heap, dict(d.d)))
        if a == 'get':
            return B(a, lambda args, kw: d.d.get(self.dkey(args[0]), args[1] if len(args) > 1 else None))
        if a == 'update':
            def upd(args, kw):
                for x in args:
                    d.d.update(x.d)
                d.d.update(kw)
            return B(a, upd)
        if a == 'pop':
            return B(a, lambda args, kw: d.d.pop(self.dkey(args[0]), *args[1:]))
        raise Unsupported('dict.%s' % a)

    def unkey(self, k):
        if isinstance(k, F):
            return Num(const(k))
        return k

    def str_attr(self, s, a):
        B = Builtin
        if a == 'format':
            def fmt(args, kw):
                if isinstance(s, Str):
                    raise Unsupported('format of symbolic text')
                if any(isinstance(x, (Num, Str, NDArray, PyList)) for x in list(args) + list(kw.values())):
                    return Str([('format', s, tuple(args), tuple(sorted(kw.items())))])
                return s.format(*args, **kw)
            return B(a, fmt)
        if isinstance(s, str) and a in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'split', 'replace', 'join'):
            def f(args, kw):
                if a == 'join':
                    return s.join(self.concrete_items(args[0]))
                if not all(isinstance(x, (str, tuple)) for x in args):
                    raise Unsupported('str.%s' % a)
                r = getattr(s, a)(*args)
                return PyList(self.heap, r) if isinstance(r, list) else r
            return B(a, f)
        raise Unsupported('str.%s' % a)

    # ------------------------------------------------------------ subscripts
    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.eval(x, fr)
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, fr) for x in s.elts)
        return self.eval(s, fr)

    def e_Subscript(self, e, fr):
        return self.getitem(self.eval(e.value, fr), self.eval_index(e.slice, fr))

    def slice_bounds(self, s, n, what):
        """(start, length, step) terms for a python slice of a length-n sequence"""
        step = ONE if s.step is None else self.index_term(s.step, what)
        neg = False
        if step.op == 'const':
            if step.val == 0:
                raise PyExc('ValueError', 'slice step 0')
            neg = step.val < 0
        else:
            if self.decide(eq(step, ZERO)):
                raise PyExc('ValueError', 'slice step 0')
            neg = self.decide(lt(step, ZERO))

        def clip(v, dflt, lo, hi):
            if v is None:
                return dflt
            t = self.index_term(v, what)
            if not self.decide(ge(t, ZERO)):
                t = add(t, n)
            if self.decide(lt(t, lo)):
                return lo
            if self.decide(gt(t, hi)):
                return hi
            return t
        if not neg:
            a = clip(s.start, ZERO, ZERO, n)
            b = clip(s.stop, n, ZERO, n)
            d = sub(b, a)
            if step is ONE:
                if not self.decide(ge(d, ZERO)):
                    d = ZERO
                return a, d, ONE
            if not self.decide(gt(d, ZERO)):
                return a, ZERO, step
            return a, idiv(add(d, sub(step, ONE)), step), step
        hi = sub(n, ONE)
        a = clip(s.start, hi, const(-1), hi)
        if s.stop is None:
            b = const(-1)
        else:
            t = self.index_term(s.stop, what)
            if not self.decide(ge(t, ZERO)):
                t = add(t, n)
            b = t
            if self.decide(lt(t, const(-1))):
                b = const(-1)
            elif self.decide(gt(t, hi)):
                b = hi
        d = sub(a, b)
        ps = mulc(-1, step)
        if not self.decide(gt(d, ZERO)):
            return a, ZERO, step
        if ps is ONE:
            return a, d, step
        return a, idiv(add(d, sub(ps, ONE)), ps), step

    def getitem(self, o, ix):
        if isinstance(o, NDArray):
            return self.np.getitem(o, ix)
        if isinstance(o, PyDict):
            k = self.dkey(ix)
            if k not in o.d:
                raise PyExc('KeyError', str(k))
            return o.d[k]
        if isinstance(o, (tuple, PyList, str, Range)):
            if isinstance(o, Range):
                n = o.len()
                if isinstance(ix, slice):
                    raise Unsupported('slice of range')
                i = self.norm_index(self.index_term(ix), n)
                return Num(add(o.start, mul(i, o.step)))
            n = o.len() if isinstance(o, PyList) else const(len(o))
            if isinstance(ix, slice):
                conc = o if isinstance(o, (tuple, str)) else o.items
                a, l, st = self.slice_bounds(ix, n, 'list')
                if conc is not None and a.op == 'const' and l.op == 'const' and st.op == 'const':
                    r = [conc[int(a.val) + k * int(st.val)] for k in range(int(l.val))]
                    return tuple(r) if isinstance(o, tuple) else ''.join(r) if isinstance(o, str) else PyList(self.heap, r)
                if isinstance(o, PyList):
                    g = self.list_getter(o)
                    return PyList(self.heap, None, l, lambda i: g(add(a, mul(i, st))))
                raise Unsupported('symbolic slice')
            if isinstance(ix, (NDArray, PyList, tuple)):
                raise PyExc('TypeError', 'list index')
            i = self.norm_index(self.index_term(ix, 'list'), n)
            if isinstance(o, PyList):
                if o.items is not None and i.op == 'const':
                    return o.items[int(i.val)]
                return self.list_getter(o)(i)
            if i.op == 'const':
                return o[int(i.val)]
            return self.list_getter(PyList(self.heap, list(o)))(i)
        if o is None or isinstance(o, (Num, bool)):
            raise PyExc('TypeError', 'not subscriptable')
        raise Unsupported('subscript of %r' % (o,))

    def setitem(self, o, ix, v):
        if isinstance(o, NDArray):
            return self.np.setitem(o, ix, v)
        if isinstance(o, PyDict):
            o.d[self.dkey(ix)] = v
            return
        if isinstance(o, PyList):
            if isinstance(ix, slice):
                raise Unsupported('list slice assignment')
            i = self.norm_index(self.index_term(ix), o.len())
            if o.items is not None and i.op == 'const':
                o.items[int(i.val)] = v
                return
            g = self.list_getter(o)
            n = o.len()
            o.items = None
            o.length = n
            o.get_ = lambda k: self.value_ite(eq(k, i), v, lambda: g(k))
            return
        if isinstance(o, tuple):
            raise PyExc('TypeError', 'tuple assignment')
        raise Unsupported('item assignment on %r' % (o,))

    # ------------------------------------------------------------ calls
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in fr.vars:
            if e.args:
                c = self.eval(e.args[0], fr)
                ob = self.eval(e.args[1], fr)
            else:
                c, ob = fr.cls, fr.selfobj
            return Super(c, ob)
        if isinstance(e.func, ast.Name) and e.func.id in ('locals', 'globals', 'eval', 'exec'):
            raise Unsupported(e.func.id)
        f = self.eval(e.func, fr)
        args = self.eval_elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                if not isinstance(v, PyDict):
                    raise Unsupported('** of %r' % (v,))
                kw.update(v.d)
            else:
                kw[k.arg] = v
        line = self.line
        r = self.call(f, args, kw)
        self.line = line
        return r

    def call(self, f, args, kw):
        if isinstance(f, Builtin):
            return f.fn(args, kw)
        if isinstance(f, TypeRef):
            return self.np.construct(f, args, kw)
        if isinstance(f, Method):
            if isinstance(f.func, Builtin):
                return f.func.fn([f.obj] + args, kw)
            return self.call_func(f.func, [f.obj] + args, kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Cls):
            o = PyObj(self.heap, f)
            r = f.find('__init__')
            if r:
                self.call_func(r[0], [o] + args, kw)
            return o
        if isinstance(f, PyObj):
            r = f.cls.find('__call__')
            if r:
                return self.call_func(r[0], [f] + args, kw)
        if isinstance(f, ModRef):
            raise PyExc('TypeError', 'module not callable')
        if f is None or isinstance(f, (Num, str, tuple, PyList, NDArray)):
            raise PyExc('TypeError', 'not callable')
        if hasattr(f, 'model_call'):
            return f.model_call(self, args, kw)
        raise Unsupported('call of %r' % (f,))

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vars = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise PyExc('TypeError', 'too many arguments')
            vars[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            vars[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vars[n] = v
        extra = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in konly:
                if k in vars:
                    raise PyExc('TypeError', 'multiple values for %s' % k)
                vars[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyExc('TypeError', 'unexpected keyword %s' % k)
        if a.kwarg is not None:
            vars[a.kwarg.arg] = PyDict(self.heap, extra)
        pos, kwd = f.defaults
        for n, d in zip(names[len(names) - len(pos):], pos):
            vars.setdefault(n, d)
        for x, d in zip(a.kwonlyargs, kwd):
            if x.arg not in vars and d is not None:
                vars[x.arg] = d
        for n in names:
            if n not in vars:
                raise PyExc('TypeError', 'missing argument %s' % n)
        return vars

    def call_func(self, f, args, kw, root=False):
        vars = self.bind(f, args, kw)
        if not root:
            h = self.contracts.get(f.qual)
            if h is not None:
                try:
                    r = h(self, vars)
                except KeyError:        # signature changed: verify through the body instead
                    r = NotImplemented
                if r is not NotImplemented:
                    self.used_contracts.add(f.qual)
                    return r
            self.inlined.add(f.qual)
        if self.depth > 40:
            raise Unsupported('recursion depth')
        fr = Frame(self.heap, vars, parent=f.closure, glob=f.module.frame)
        fr.module = f.module
        fr.node = f.node
        if f.cls is not None and args:
            fr.cls, fr.selfobj = f.cls, args[0]
        self.depth += 1
        old = self.fn
        self.fn = f.qual
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            self.exec_block(f.node.body, fr)
            return None
        except ReturnEx as r:
            return r.v
        finally:
            self.depth -= 1
            self.fn = old
