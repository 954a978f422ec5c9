"""Dataset (C25): dispatch, stored state, and the written table."""
import ast
import re
import string
from .terms import *
from . import smt
from .values import *
from .contract import *
from .pubdev import seq_eq
from .prove import Prover, Budget
from .loops import Abort, iter_view

AT = 'allantools.allantools'
DS = 'allantools.dataset'
NAMES = ('adev', 'oadev', 'mdev', 'tdev', 'hdev', 'ohdev', 'pdev', 'totdev', 'mtotdev', 'ttotdev', 'htotdev', 'theo1', 'mtie', 'tierms', 'gradev')
KEYS = ('taus', 'stat', 'stat_err', 'stat_n')
INP = ('data', 'rate', 'data_type', 'taus')


def functions(I):
    """names of the module that are functions of the repository"""
    m = I.module(AT)
    out = {}
    for n, v in sorted(m.frame.vars.items()):
        try:
            v = I.force(v, n)
        except (PyExc, Unsupported):
            pass
        out[n] = v
    return out


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Num) and isinstance(b, Num):
        return a.term is b.term and a.nan is b.nan
    if isinstance(a, (str, bool, int, type(None))):
        return type(a) is type(b) and a == b
    return False


def content(I, lab, got, want):
    """got is the value want (same object, or the same contents)"""
    if same(got, want):
        I.oblige(lab, TRUE)
        return
    if isinstance(want, tuple) and isinstance(got, tuple) and len(got) == len(want):
        for k, (g, w) in enumerate(zip(got, want)):
            content(I, '%s[%d]' % (lab, k), g, w)
        return
    if isinstance(want, PyList) and want.items is not None and isinstance(got, PyList) and got.items is not None and len(got.items) == len(want.items):
        for k, (g, w) in enumerate(zip(got.items, want.items)):
            content(I, '%s[%d]' % (lab, k), g, w)
        return
    n = col_len(I, want)
    if n is None or col_len(I, got) is None or isinstance(want, NDArray) != isinstance(got, NDArray):
        I.oblige(lab, FALSE)
        return
    seq_eq(I, lab, got, n, lambda k: arr_elem(I, want, k).arith())


def inputs(ctx, tag=''):
    """(data, rate, data_type, taus) the caller owns"""
    I = ctx.I
    d = ctx.series(tag + 'data', sym(tag + 'N', 'I'), 'array')[0]
    t = ctx.series(tag + 'taus', sym(tag + 'K', 'I'), 'array')[0]
    I.assume(ge(sym(tag + 'N', 'I'), ZERO), ge(sym(tag + 'K', 'I'), ZERO))
    return d, Num(sym(tag + 'rate'), 'f'), 'freq', t


def dataset(ctx, out=None):
    """any Dataset: set up through the constructor, with arbitrary earlier results"""
    I = ctx.I
    cls = I.get_func(DS, 'Dataset')
    args = inputs(ctx)
    o = I.call(cls, list(args), {})
    if set(o.attrs) != {'inp', 'out'} or not all(isinstance(o.attrs[k], PyDict) for k in ('inp', 'out')):
        raise Unsupported('attributes of Dataset')
    T = sym('T', 'I')
    I.assume(ge(T, ZERO))
    out = out or {}
    for k in KEYS:
        o.attrs['out'].d[k] = out.get(k) or ctx.series('old_' + k, T, 'array', 'i' if k == 'stat_n' else 'f')[0]
    o.attrs['out'].d['stat_id'] = 'olddev'
    return o, args


def init_unit(ctx, how='positional'):
    """constructor and set_input store exactly what they are given, defaults included, and set_input leaves the results alone"""
    I = ctx.I
    lab = 'Dataset(%s)' % how

    def go():
        cls = I.get_func(DS, 'Dataset')
        a = inputs(ctx)
        if how == 'positional':
            o = I.call(cls, list(a), {})
            b = I.call(cls, list(inputs(ctx, 'other_')), {})       # a second data set is independent of the first
            I.call(I.getattr_(b, 'set_input'), list(inputs(ctx, 'third_')), {})
            return a, o, None
        if how == 'keywords':
            return a, I.call(cls, [], dict(zip(INP, a))), None
        if how == 'empty':
            return (None, Num(ONE, 'f'), 'phase', None), I.call(cls, [], {}), None
        o, _ = dataset(ctx)
        before = (o.attrs['out'], dict(o.attrs['out'].d))
        f = I.getattr_(o, 'set_input')
        b = inputs(ctx, 'new_')
        if how == 'set_input':
            I.call(f, list(b), {})
        else:
            I.call(f, [b[0]], {})
            b = (b[0], Num(ONE, 'f'), 'phase', None)
        return b, o, before

    def capture(o, d):
        ctx.paths += 1
        if o[0] == 'raise':
            I.oblige(lab + '.no-exception[%s]' % o[1].name, FALSE)
            return o[1].name
        ctx.covers += 1
        want, ob, before = o[1]
        inp = ob.attrs.get('inp')
        if not isinstance(inp, PyDict):
            I.oblige(lab + '.stored input', FALSE)
            return
        for k, w in zip(INP, want):
            content(I, '%s.stored %s' % (lab, k), inp.d.get(k), w)
        if before:
            out = ob.attrs.get('out')
            I.oblige(lab + '.results left alone', TRUE if isinstance(out, PyDict) and same_dict(out.d, before[1]) else FALSE)
        return 'return'
    return I.explore(go, lambda o, d, s: capture(o, d))


def same_dict(a, b):
    return set(a) == set(b) and all(same(a[k], b[k]) for k in a)


class Res(object):
    pass


def compute_unit(ctx, name):
    """compute(name) from any state.  The named function is used through its interface: one call, on the stored input, that either
    raises or returns four columns (gradev: a pair of error columns)"""
    I = ctx.I
    lab = 'Dataset.compute(%s)' % name
    hold = Res()

    def contract(f):
        def h(I_, v):
            hold.calls.append((f.name, dict(v)))
            if I.choose('raises'):
                raise PyExc('ValueError', 'from the function')
            n = sym('n_out', 'I')
            I.assume(ge(n, ZERO))
            col = lambda q, t='f': ctx.series(q, n, 'array', t)[0]
            err = col('res_err')
            if f.name == 'gradev':
                err = PyList(I.heap, [col('res_err_lo'), col('res_err_hi')])
            hold.res = (col('res_taus'), col('res_dev'), err, col('res_n', 'i'))
            return hold.res
        return h

    def go():
        fs = functions(I)
        I.contracts.clear()
        o, args = dataset(ctx)
        for n, v in fs.items():
            if isinstance(v, Func) and v.module.name == AT:
                I.contracts[v.qual] = contract(v)
        hold.calls, hold.res, hold.o, hold.args = [], None, o, args
        hold.out, hold.before = o.attrs['out'], dict(o.attrs['out'].d)
        return I.call(I.getattr_(o, 'compute'), [name], {})

    def capture(o, d):
        ctx.paths += 1
        ob = hold.o
        out, inp = ob.attrs.get('out'), ob.attrs.get('inp')
        if not isinstance(out, PyDict) or not isinstance(inp, PyDict):
            I.oblige(lab + '.state', FALSE)
            return
        for k, w in zip(INP, hold.args):
            content(I, '%s.input %s kept[%s]' % (lab, k, o[0]), inp.d.get(k), w)
        known = name in NAMES
        if o[0] == 'raise':
            ctx.covers += not known
            I.oblige(lab + '.a failing call leaves the results untouched', TRUE if same_dict(out.d, hold.before) else FALSE)
            if known:
                I.oblige(lab + '.raises only what the function raises', TRUE if hold.calls and hold.res is None else FALSE)
            return o[1].name
        ctx.covers += 1
        if not known:
            # accepted: only a function with the interface of a deviation may be called
            I.oblige(lab + '.refused', TRUE if name.endswith('dev') and hold.calls else FALSE)
        ok = len(hold.calls) == 1 and hold.calls[0][0] == name
        I.oblige(lab + '.calls the named function once', TRUE if ok else FALSE)
        if not ok:
            return
        v = hold.calls[0][1]
        for k, w in zip(INP, hold.args):
            content(I, '%s.passes %s' % (lab, k), v.get(k), w)
        f = functions(I)[name]
        I.contracts.pop(f.qual, None)
        dflt = I.bind(f, list(hold.args[:1]), dict(zip(INP[1:], hold.args[1:])))
        for k in sorted(v):
            if k not in INP:
                I.oblige('%s.%s at its default' % (lab, k), TRUE if same(v[k], dflt[k]) else FALSE)
        r = o[1]
        if not isinstance(r, PyDict):
            I.oblige(lab + '.returns a dict', FALSE)
            return
        I.oblige(lab + '.returned keys', TRUE if set(KEYS) <= set(r.d) else FALSE)
        I.oblige(lab + '.stored name', TRUE if out.d.get('stat_id') == name else FALSE)
        for k, w in zip(KEYS, hold.res):
            content(I, '%s.returns %s' % (lab, k), r.d.get(k), w)
            content(I, '%s.stores %s' % (lab, k), out.d.get(k), w)
        return 'return'
    return I.explore(go, lambda o, d, s: capture(o, d))


def refused_unit(ctx):
    """every other name of the module, and a name it does not have"""
    I = ctx.I
    fs = functions(I)
    n = 0
    for name in sorted(fs) + ['no_such_thing', 'no_such_dev']:
        if name not in NAMES:
            compute_unit(ctx, name)
            n += 1
    return n


# ---------------------------------------------------------------- write_results
def tokens(I, x):
    """text -> literal strings and (value, spec) fields, in order"""
    if isinstance(x, str):
        return [x]
    if not isinstance(x, Str):
        raise Unsupported('written text')
    out = []
    for p in x.parts:
        if isinstance(p, str):
            out.append(p)
        elif p[0] == 'fmt':
            out.append((p[1], p[2]))
        elif p[0] == 'format':
            out += expand(I, p[1], p[2], dict(p[3]))
        else:
            raise Unsupported('written text')
    return out


def expand(I, fmt, args, kw):
    out, auto = [], [0]

    def val(nm):
        if nm == '':
            nm = str(auto[0])
            auto[0] += 1
        if nm.isdigit():
            return args[int(nm)]
        if not nm.isidentifier() or nm not in kw:
            raise Unsupported('format field %r' % nm)
        return kw[nm]
    for lit, nm, spec, conv in string.Formatter().parse(fmt):
        if lit:
            out.append(lit)
        if nm is None:
            continue
        v = val(nm)
        sp = []
        for l2, n2, s2, c2 in string.Formatter().parse(spec or ''):
            if l2:
                sp.append(l2)
            if n2 is not None:
                sp.append(val(n2))
        out.append((v, sp))
    return out


def columns(ts):
    """split into whitespace-separated columns; a column is a literal or one field"""
    cols, cur = [], []
    for t in ts:
        if isinstance(t, str):
            parts = re.split(r'(\s+)', t)
            for p in parts:
                if p.strip():
                    cur.append(p)
                elif p:
                    if cur:
                        cols.append(cur)
                    cur = []
        else:
            cur.append(t)
    if cur:
        raise Unsupported('row without an end')
    return cols


def spec_parts(I, sp):
    """(precision, type) of a format specification with nested values"""
    if isinstance(sp, str):
        sp = [sp]
    txt = ''
    vals = []
    for p in sp:
        if isinstance(p, str):
            txt += p
        else:
            txt += '{%d}' % len(vals)
            vals.append(p)
    m = re.match(r'^[<>=^]?[+ -]?(\d+|\{\d+\})?(?:\.(\d+|\{\d+\}))?([a-zA-Z])?$', txt)
    if not m:
        raise Unsupported('format specification %r' % txt)
    pr = m.group(2)
    if pr is not None:
        pr = vals[int(pr[1:-1])] if pr.startswith('{') else Num(const(int(pr)), 'i')
        if not isinstance(pr, Num):
            raise Unsupported('precision')
        pr = pr.arith()
    return pr, m.group(3)


class Rows(object):
    """contract of the loop that writes the table: every pass writes exactly one row, that of its own tau"""

    def __init__(self, I, lab, T, check):
        self.lab = lab
        self.I, self.T, self.check, self.used = I, T, check, 0

    def run(self, I, st, it, fr):
        try:
            L, elem = iter_view(I, it)
        except (Unsupported, PyExc):
            return False
        if L.op == 'const' or len(I.np.files) != 1:
            return False
        if not smt.entails(I.hyps, eq(L, self.T)):
            if any(isinstance(n, ast.Attribute) and n.attr == 'write' for b in st.body for n in ast.walk(b)):
                I.oblige(self.lab + '.as many rows as taus', eq(L, self.T))
            return False
        self.used += 1
        if not I.decide(eq(sym('phase', 'I'), ONE)):
            self.after = len(I.np.files[0].buf.items)
            return True
        k = sym('row_k', 'I')
        I.assume(le(ZERO, k), lt(k, self.T))
        buf = I.np.files[0].buf
        n0 = len(buf.items)
        I.assign(st.target, elem(k), fr)
        try:
            I.exec_block(st.body, fr)
        except PyExc:
            raise
        except Exception as e:
            if type(e).__name__ not in ('ContinueEx', 'BreakEx'):
                raise
            self.check(None, k)
            raise Abort()
        self.check(buf.items[n0:], k)
        raise Abort()


def write_unit(ctx, kind='plain', digits='any'):
    I = ctx.I
    lab = 'Dataset.write_results(%s errors)' % ('one column of' if kind == 'plain' else 'two columns of')
    T, rate, dg = sym('T', 'I'), sym('rate'), sym('digits', 'I')
    TA, DV, ER, LO, HI, NN = arrsym('o_taus', 'R'), arrsym('o_dev', 'R'), arrsym('o_err', 'R'), arrsym('o_lo', 'R'), arrsym('o_hi', 'R'), arrsym('o_n', 'I')
    hold = Res()

    def check(ws, k):
        if ws is None:
            I.oblige(lab + '.one row per tau', FALSE)
            return
        ts = [t for w in ws for t in tokens(I, w)]
        text = ''.join(t if isinstance(t, str) else '#' for t in ts)
        I.oblige(lab + '.one row per tau', TRUE if text.count('\n') == 1 and text.endswith('\n') else FALSE)
        cols = columns(ts)
        I.oblige(lab + '.seven columns', TRUE if len(cols) == 7 and all(len(c) == 1 for c in cols) else FALSE)
        if len(cols) != 7 or any(len(c) != 1 for c in cols):
            return
        lo, hi = (div(sel(ER, k), const(2)),) * 2 if kind == 'plain' else (sel(LO, k), sel(HI, k))
        dev = sel(DV, k)
        want = [('factor', 'd', None), ('tau', 'e', sel(TA, k)), ('n', 'd', sel(NN, k)), ('alpha', 's', None), ('lower bound', 'e', sub(dev, lo)),
                ('deviation', 'e', dev), ('upper bound', 'e', add(dev, hi))]
        for (nm, ty, w), (c,) in zip(want, cols):
            if nm == 'alpha':
                I.oblige('%s.%s.text' % (lab, nm), TRUE if isinstance(c, str) or isinstance(c[0], str) else FALSE)
                continue
            ok = isinstance(c, tuple) and isinstance(c[0], Num)
            pr, t = spec_parts(I, c[1]) if ok else (None, None)
            I.oblige('%s.%s.format' % (lab, nm), TRUE if ok and (t == ty or ty == 'd' and c[0].kind == 'i' and t is None) else FALSE)
            if not ok:
                continue
            x = c[0]
            if ty == 'd':
                I.oblige('%s.%s.integer' % (lab, nm), TRUE if x.kind == 'i' else FALSE)
            else:
                I.oblige_eq('%s.%s.digits' % (lab, nm), pr if pr is not None else const(6), sub(dg, ONE))
            if nm == 'factor':
                e = mulc(2, sub(x.arith(), mul(sel(TA, k), rate)))
                I.oblige(lab + '.factor is tau*rate to the nearest integer', and_(le(e, ONE), ge(e, const(-1))))
            else:
                I.oblige_eq('%s.%s' % (lab, nm), x.arith(), w)
            I.oblige('%s.%s.number' % (lab, nm), not_(x.nan))

    def go():
        functions(I)
        I.np.files[:] = []
        I.assume(ge(T, ZERO), gt(rate, ZERO), ge(dg, ONE))
        col = lambda q, A, t='f': ctx.series(q, T, 'array', t, base=A)[0]
        err = col('o_err', ER) if kind == 'plain' else PyList(I.heap, [col('o_lo', LO), col('o_hi', HI)])
        o, _ = dataset(ctx, dict(taus=col('o_taus', TA), stat=col('o_dev', DV), stat_err=err, stat_n=col('o_n', NN, 'i')))
        hold.o, hold.before = o, dict(o.attrs['out'].d)
        hold.spec = Rows(I, lab, T, check)
        I.loop_specs = [hold.spec]
        return I.call(I.getattr_(o, 'write_results'), ['file.txt'], dict(digits=Num(dg, 'i')))

    def capture(o, d):
        ctx.paths += 1
        I.loop_specs = []
        if o[0] == 'raise':
            I.oblige(lab + '.no-exception[%s]' % o[1].name, FALSE)
            return o[1].name
        ctx.covers += 1
        if hold.spec.used != 1:
            raise Unsupported('the loop over the rows')
        f = I.np.files
        I.oblige(lab + '.one file', TRUE if len(f) == 1 and f[0].name == 'file.txt' and f[0].mode in ('w', 'wt') else FALSE)
        I.oblige(lab + '.nothing after the rows', TRUE if len(f[0].buf.items) == hold.spec.after else FALSE)
        I.oblige(lab + '.results left alone', TRUE if same_dict(hold.o.attrs['out'].d, hold.before) else FALSE)
        return 'return'
    return I.explore(go, lambda o, d, s: capture(o, d))
