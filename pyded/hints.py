"""Concrete values suggested by the solver for a failed obligation (candidate counterexamples)."""
import z3
from .terms import *
from . import smt


def _models(fs, want, k=3):
    out = []
    s = z3.Solver()
    s.set('timeout', 2000)
    try:
        for f in fs + smt.axioms(fs, hyps=fs):
            s.add(smt.conv(f, True))
    except Exception:
        return out
    n = [w for w in want if w.sort == 'I']
    for w in n:
        s.add(smt.conv(w, True) <= 400)
    for lim in (None, 3, 12)[:k]:
        s.push()
        if lim is not None:
            for w in n:
                s.add(smt.conv(w, True) >= lim)
        if str(s.check()) == 'sat':
            m = s.model()
            h = {}
            for w in want:
                v = m.eval(smt.conv(w, True), model_completion=True)
                try:
                    h[name_of(w)] = float(v.as_fraction()) if hasattr(v, 'as_fraction') else float(v.as_long())
                except Exception:
                    pass
            out.append(h)
        s.pop()
    return out


def name_of(w):
    if w.op == 'sym':
        return w.val
    return '%s@%d' % (w.args[0].val if w.args else w.op, w.id)


def hints(obl, limit=40):
    """assignments satisfying the hypotheses of a failed obligation, one family per case condition"""
    hs = list(obl.get('hterms', []))
    sub = {}
    for g in obl.get('gterms', []):
        subterms(g, sub)
    conds = [None]
    for t in sub:
        if t.op == 'ite' and not any(v.op == 'bv' for v in t.args[0].fv):
            for c in (t.args[0], not_(t.args[0])):
                if c not in conds:
                    conds.append(c)
    for h in hs:
        subterms(h, sub)
    want = [t for t in sub if t.op == 'sym' and t.sort in ('I', 'R')]
    want += [t for t in sub if t.op == 'sel' and t.args[0].op in ('app', 'sym') and t.sort == 'I' and not any(v.op == 'bv' for v in t.fv)][:8]
    out = []
    for c in conds[:24]:
        for h in _models(hs + ([c] if c is not None else []), want):
            if h not in out:
                out.append(h)
        if len(out) >= limit:
            break
    return out
