"""Per-property concrete contract checks on the real package (run under the repository's interpreter)."""
import io
import contextlib
import importlib
import warnings
import numpy as np
from . import gen, oracle

REG = {}


def prop(pid):
    def deco(c):
        REG[pid] = c()
        return c
    return deco


def at():
    return importlib.import_module('allantools')


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return f(*a, **k)


def close(a, b, scale=0.0, rtol=1e-6):
    if a == b:      # including equal infinities
        return True
    if np.isnan(a) or np.isnan(b):
        return bool(np.isnan(a) and np.isnan(b))
    return abs(a - b) <= rtol * abs(b) + 1e-9 * scale


def container(v, kind):
    if kind == 'list':
        return list(v)
    if kind == 'int':
        return np.array(np.round(v), dtype=int)
    return np.array(v, float)


def tausarg(t, kind='list'):
    if isinstance(t, list) and kind == 'array':
        return np.array(t)
    return list(t) if isinstance(t, list) else t


class Stat(object):
    """rows of public statistics against their definitions"""
    funcs = ()
    cap = 160
    rtol = 1e-6
    minN = 1
    types = ('phase', 'phase', 'freq')

    def cases(self, rng, tier, hints=()):
        C = gen.code_constants()
        for h in hints:
            for f in self.funcs:
                if h.get('func') in (None, f):
                    N = max(self.minN, min(int(h.get('N', 20)), 4 * self.cap))
                    r = float(h.get('rate', 1.0)) or 1.0
                    for dt in ('phase', 'freq'):
                        yield dict(func=f, data=gen.series(rng, N), rate=r, dtype=dt, kind='array',
                                   taus=[float(m) / r for m in h.get('m', [1])])
        while True:
            f = self.funcs[int(rng.integers(0, len(self.funcs)))]
            N = max(self.minN, gen.size(rng, tier, C, self.cap))
            r = gen.RATES[int(rng.integers(0, len(gen.RATES)))]
            yield dict(func=f, data=gen.series(rng, N), rate=r, dtype=self.types[int(rng.integers(0, len(self.types)))],
                       kind=['array', 'list', 'int', 'array'][int(rng.integers(0, 4))], taus=gen.taus_for(rng, N, r),
                       tkind=['list', 'array'][int(rng.integers(0, 2))])

    def expected(self, c, data):
        r = float(c['rate'])
        if c['dtype'] == 'freq':
            x = oracle.f2p(data, r)
        else:
            x = np.asarray(data, float)
        f = oracle.STAT[c['func']]
        amp = np.max(np.abs(x)) if len(x) else 0.0
        if c['dtype'] == 'freq' and len(data):
            amp += np.max(np.abs(data)) / r      # the mean removed by the conversion
        return (lambda m: f(x, m, r)), len(x), amp

    def run(self, c):
        data = container(c['data'], c['kind'])
        try:
            out = quiet(getattr(at(), c['func']), data, rate=c['rate'], data_type=c['dtype'], taus=tausarg(c['taus'], c.get('tkind', 'list')))
        except UserWarning:
            return []
        except Exception as e:
            return ['%s raised %s: %s' % (c['func'], type(e).__name__, e)]
        exp, N, amp = self.expected(c, np.asarray(data, float))
        return compare_rows(c['func'], out, exp, N, float(c['rate']), amp, self.rtol)


def compare_rows(name, out, exp, N, rate, amp, rtol=1e-6):
    bad = []
    if not (isinstance(out, tuple) and len(out) == 4):
        return ['%s does not return four columns' % name]
    t, d, e, n = [np.asarray(v, float) for v in out]
    if not (t.shape == d.shape == n.shape == e.shape):
        return ['%s columns have different lengths %s' % (name, [v.shape for v in (t, d, e, n)])]
    for i in range(len(t)):
        m = int(round(t[i] * rate))
        if m < 1 or m >= N + 1 or not close(t[i], m / rate):
            bad.append('%s row %d: tau %r is not m/rate' % (name, i, t[i]))
            continue
        try:
            wd, wn, we = exp(m)
        except IndexError:
            bad.append('%s row %d: m=%d impossible for N=%d' % (name, i, m, N))
            continue
        sc = amp * (rate / m if name not in ('tdev', 'ttotdev', 'tierms', 'mtie') else 1.0)
        if n[i] != wn:
            bad.append('%s row %d (m=%d): n=%r, expected %r' % (name, i, m, n[i], wn))
        if not close(d[i], wd, sc * 1e-3, rtol):
            bad.append('%s row %d (m=%d): dev=%r, expected %r' % (name, i, m, d[i], wd))
        elif not close(e[i], we, sc * 1e-3, rtol):
            bad.append('%s row %d (m=%d): err=%r, expected %r' % (name, i, m, e[i], we))
        if len(bad) > 4:
            break
    return bad


def stat_prop(pid, funcs_, **kw):
    d = dict(funcs=funcs_)
    d.update(kw)
    REG[pid] = type(pid, (Stat,), d)()


stat_prop('C01', ('adev', 'oadev'))
stat_prop('C02', ('hdev', 'ohdev'))
stat_prop('C03', ('mdev', 'tdev'))
stat_prop('C04', ('pdev',), cap=90)
stat_prop('C05', ('totdev',), minN=3)
stat_prop('C06', ('mtotdev', 'ttotdev'), cap=70)
stat_prop('C08', ('theo1',), cap=70)
stat_prop('C09', ('tierms', 'mtie'), cap=120)


@prop('C07')
class C07(Stat):
    funcs = ('htotdev',)
    cap = 60
    minN = 2

    def expected(self, c, data):
        r = float(c['rate'])
        if c['dtype'] == 'freq':
            y, x = np.asarray(data, float), oracle.f2p(data, r)
        else:
            x = np.asarray(data, float)
            y = r * np.diff(x)
        return (lambda m: oracle.htotdev(y, m, r, x)), len(y), np.max(np.abs(x)) * r if len(x) else 0.0
