"""Concrete contract checks: realtime statistics, PSD conversions, Dataset."""
import math
import os
import re
import tempfile
import numpy as np
from . import gen, oracle
from .props import prop, quiet, close, at
from .props2 import Base, pick

LAST = {'oadev': 2, 'ohdev': 3, 'tdev': 3}


def rt():
    return __import__('allantools.realtime', fromlist=['x'])


def want(stat, x, m, t0):
    x = np.asarray(x, float)
    ok = len(x) - 2 * m if stat == 'oadev' else len(x) - 3 * m if stat == 'ohdev' else len(x) - 3 * m + 1
    if ok < 1:
        return 0.0
    return float(getattr(oracle, stat)(x, m, 1.0 / t0)[0])


class Realtime(Base):
    def steps(self, rng, N):
        """('p', x) and ('f', y) inputs"""
        x = gen.series(rng, N)
        k = rng.integers(0, 4)
        return [('p' if k == 0 else 'f' if k == 1 else pick(rng, 'pf'), v) for v in x]

    def feed(self, o, steps, check):
        x = []
        for k, (w, v) in enumerate(steps):
            if w == 'p':
                o.add_phase(v)
                x.append(v)
            else:
                o.add_frequency(v)
                if not x:
                    x.append(0.0)
                x.append(x[-1] + v * o.tau0)
            check(k, x)

    def compare(self, c, o, x, afs, bad, where):
        amp = float(np.max(np.abs(x))) * len(x) if len(x) else 0.0
        s, t0 = c['stat'], c['tau0']
        got = np.asarray(o.devs(), float)
        taus = np.asarray(o.taus(), float)
        if len(got) != len(afs) or len(taus) != len(afs):
            bad.append('%s %s: %d deviations and %d taus for %d factors' % (s, where, len(got), len(taus), len(afs)))
            return
        md = np.asarray(o.mdev(), float) if s == 'tdev' else None
        for i, m in enumerate(afs):
            m = int(m)
            w = want(s, x, m, t0)
            sc = amp * (1 if s == 'tdev' else 1 / (m * t0))
            if not close(got[i], w, 1e2 * sc):
                bad.append('%s_realtime %s, factor %d: %r, batch %r' % (s, where, m, float(got[i]), w))
            if not close(taus[i], m * t0):
                bad.append('%s_realtime %s: tau %r for factor %d' % (s, where, float(taus[i]), m))
            if md is not None and not close(md[i], w * math.sqrt(3) / (m * t0), 1e2 * sc / (m * t0)):
                bad.append('mdev() %s, factor %d: %r, expected %r' % (where, m, float(md[i]), w * math.sqrt(3) / (m * t0)))
            if bad:
                return


@prop('C16')
class C16(Realtime):
    def cases(self, rng, tier, hints=()):
        while True:
            N = int(rng.integers(1, 60))
            K = int(rng.integers(1, 6))
            hi = max(2, N // 2 + 2)
            afs = [int(v) for v in rng.integers(1, hi, size=K)]
            yield dict(what='history', stat=pick(rng, sorted(LAST)), tau0=float(pick(rng, [1.0, 1.0, 0.1, 2.5, 10.0, 3])), afs=afs,
                       kind=pick(rng, ['list', 'array']), steps=self.steps(rng, N), every=int(rng.integers(1, 8)))

    def history(self, c, bad):
        afs = c['afs'] if c['kind'] == 'list' else np.array(c['afs'])
        o = getattr(rt(), c['stat'] + '_realtime')(afs=afs, tau0=c['tau0'])
        self.compare(c, o, [], c['afs'], bad, 'new')
        last = len(c['steps']) - 1

        def check(k, x):
            if not bad and (k % c['every'] == 0 or k == last):
                self.compare(c, o, x, c['afs'], bad, 'after %d points' % len(x))
        quiet(self.feed, o, c['steps'], check)
        if list(np.asarray(o.afs)) != c['afs']:
            bad.append('the list of factors changed: %r' % (o.afs,))


def grid(P, n, limit):
    """factors in use after n points with P points per decade"""
    out, k = [1], 0
    while True:
        k += 1
        v = int(np.round(10.0 ** (k // P) * np.logspace(0, 1, P + 1)[:-1][k % P]))
        if v <= out[-1]:
            continue
        if 2 * v + 1 > n:
            return out
        out.append(v)


@prop('C17')
class C17(Realtime):
    def cases(self, rng, tier, hints=()):
        while True:
            N = int(rng.integers(1, 70)) if rng.random() < .8 else int(rng.integers(70, 260))
            yield dict(what='history', stat=pick(rng, sorted(LAST)), tau0=float(pick(rng, [1.0, 1.0, 0.1, 2.5, 10.0, 3])), P=int(rng.integers(1, 14)),
                       default=bool(rng.random() < .2), steps=self.steps(rng, N), every=int(rng.integers(1, 12)))

    def history(self, c, bad):
        P = 4 if c['default'] else c['P']
        kw = {} if c['default'] else dict(pts_per_decade=P)
        o = getattr(rt(), c['stat'] + '_realtime')(auto_afs=True, tau0=c['tau0'], **kw)
        last = len(c['steps']) - 1

        def check(k, x):
            if bad:
                return
            g = grid(P, len(x), 10 ** 6)
            if [int(v) for v in o.afs] != g:
                bad.append('after %d points with %d per decade the factors are %s, expected %s' % (len(x), P, [int(v) for v in o.afs], g))
            elif k % c['every'] == 0 or k == last:
                self.compare(c, o, x, g, bad, 'after %d points' % len(x))
        quiet(self.feed, o, c['steps'], check)


# ---------------------------------------------------------------- C23
def segment(alpha, lo, hi):
    """integral of sin(z)^4 z^(alpha-2) over [lo, hi], period by period"""
    from scipy.integrate import quad
    import warnings
    f = lambda z: np.sin(z) ** 4 * z ** (alpha - 2.0) if z > 0 else 0.0
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if not np.isfinite(hi):
            return quad(f, lo, np.inf)[0]
        return quad(f, lo, hi)[0]


@prop('C23')
class C23(Base):
    def cases(self, rng, tier, hints=()):
        while True:
            k = rng.random()
            if k < .35:
                K = int(rng.integers(1, 4))
                fn = sorted(float(v) for v in 10 ** rng.uniform(-3, 1, size=K - 1))
                if any(b <= 1.05 * a for a, b in zip(fn, fn[1:])):
                    continue
                yield dict(what='psd', h=[float(v) for v in 10 ** rng.uniform(-6, 2, size=K)], alpha=[float(v) for v in rng.uniform(-2.5, .5, size=K)], f=fn,
                           taus=[float(v) for v in np.cumsum(10 ** rng.uniform(-2, 2, size=int(rng.integers(1, 4))))], kind=pick(rng, ['list', 'array']))
            elif k < .85:
                vt = pick(rng, ['adev', 'adev', 'hdev', 'HDEV', 'default'])
                K = int(rng.integers(1, 5))
                mus = [float(v) for v in rng.uniform(-1.6, 1.6 if 'h' not in vt.lower() else 3.4, size=K)]
                if rng.random() < .4:
                    mus = [float(pick(rng, [-1.5, -1, -.5, 0, .5, 1, 1.5])) for _ in mus]
                if any(abs(a - b) < .05 for a, b in zip(mus, mus[1:])):
                    continue
                yield dict(what='dev', vt=vt, a0=float(10 ** rng.uniform(-14, 1)), t0=float(10 ** rng.uniform(-2, 2)), mus=mus,
                           steps=[[float(v) for v in rng.uniform(1.3, 5, size=int(rng.integers(1, 4)))] for _ in range(K)], kind=pick(rng, ['list', 'array']))
            else:
                yield dict(what='bad', how=pick(rng, ['lengths', 'one', 'zero dev', 'zero tau', 'equal taus', 'falling', '2d', 'variance', 'steep', 'flat']), n=int(rng.integers(2, 6)))

    def f(self, n):
        return getattr(__import__('allantools'), n, None) or getattr(at(), n)

    def psd(self, c, bad):
        w = np.array if c['kind'] == 'array' else list
        got = quiet(self.f('psd_piecewise_to_adev'), w(c['h']), w(c['alpha']), w(c['f']), w(c['taus']))
        if len(got) != len(c['taus']):
            bad.append('%d deviations for %d taus' % (len(got), len(c['taus'])))
            return
        e = [0.0] + c['f'] + [np.inf]
        for k, t in enumerate(c['taus']):
            s = sum(h * (np.pi * t) ** (-a - 1) * segment(a, np.pi * t * e[i], np.pi * t * e[i + 1]) for i, (h, a) in enumerate(zip(c['h'], c['alpha'])))
            w = sum(h * (np.pi * t) ** (-a - 1) for h, a in zip(c['h'], c['alpha']))     # quad stops at an absolute error of 1.5e-8
            if not close(float(got[k]) ** 2, 2 * s, 1e2 * abs(s) + 5e3 * w):
                bad.append('tau %g: variance %r, expected %r' % (t, float(got[k]) ** 2, 2 * s))

    def dev(self, c, bad):
        a, t = [c['a0']], [c['t0']]
        for mu, st in zip(c['mus'], c['steps']):
            for r in st:
                t.append(t[-1] * r)
                a.append(a[-1] * r ** (mu / 2))
        w = np.array if c['kind'] == 'array' else list
        kw = {} if c['vt'] == 'default' else dict(vartype=c['vt'])
        fn, sy, h, al = [np.asarray(v, float) for v in quiet(self.f('adev2psd_piecewise_approx'), w(a), w(t), **kw)]
        K = len(c['mus'])
        if (len(fn), len(sy), len(h), len(al)) != (K - 1, K - 1, K, K):
            bad.append('%d segments: %d breaks, %d values, %d levels, %d exponents' % (K, len(fn), len(sy), len(h), len(al)))
            return
        end = np.cumsum([len(s) for s in c['steps']])
        from scipy.integrate import quad
        for k, mu in enumerate(c['mus']):
            j = K - 1 - k
            if not close(al[j], -mu - 1, 1e3):
                bad.append('segment %d, mu %r: alpha %r' % (k, mu, float(al[j])))
                continue
            q = (lambda z: 1.0) if c['vt'].lower() in ('adev', 'default') else (lambda z: 4 / 3.0 * np.sin(z) ** 2)
            J = quiet(quad, lambda z: q(z) * np.sin(z) ** 4 / z ** (3.0 - al[j] - 1), 0, np.inf)[0]
            i = end[k]
            v = 2 * h[j] * J * (np.pi * t[i]) ** (-al[j] - 1)
            if not close(v, a[i] ** 2, 1e4 * a[i] ** 2):
                bad.append('segment %d: the level gives a variance of %r at tau %g, the segment has %r' % (k, v, t[i], a[i] ** 2))
        for j in range(K - 1):
            l, r = h[j] * fn[j] ** al[j], h[j + 1] * fn[j] ** al[j + 1]
            if not fn[j] > 0 or not close(math.log(l), math.log(r), 1e5) or not close(math.log(sy[j]), math.log(l), 1e5):
                bad.append('break %d at %r: %r from below, %r from above, Sy %r' % (j, fn[j], l, r, sy[j]))
        if K == 1 and c['vt'].lower() in ('adev', 'default') and not bad:
            back = quiet(self.f('psd_piecewise_to_adev'), h, al, fn, np.array(t))
            for i in range(len(t)):
                if not close(float(back[i]), a[i], 1e5 * a[i]):
                    bad.append('round trip at tau %g: %r instead of %r' % (t[i], float(back[i]), a[i]))
                    break

    def bad(self, c, bad):
        n = c['n']
        t = [1.0 * 2 ** k for k in range(n)]
        a = [v ** -.5 for v in t]
        kw, how = {}, c['how']
        if how == 'lengths':
            a = a + [0.1]
        elif how == 'one':
            a, t = a[:1], t[:1]
        elif how == 'zero dev':
            a[n // 2] = 0.0
        elif how == 'zero tau':
            t[0] = 0.0
        elif how == 'equal taus':
            t[n // 2] = t[n // 2 - 1]
        elif how == 'falling':
            t = t[::-1]
        elif how == '2d':
            a, t = [a, a], [t, t]
        elif how == 'variance':
            kw = dict(vartype='oadev')
        elif how == 'steep':
            kw = dict(vartype='hdev') if n % 2 else {}
            a = [v ** -1.3 for v in t]
        elif how == 'flat':
            kw = dict(vartype='hdev') if n % 2 else {}
            a = [v ** (2.2 if n % 2 else 1.2) for v in t]
        try:
            quiet(self.f('adev2psd_piecewise_approx'), np.array(a), np.array(t), **kw)
        except ValueError:
            return
        bad.append('%s: accepted' % how)


# ---------------------------------------------------------------- C25
COMPUTE = ('adev', 'oadev', 'mdev', 'tdev', 'hdev', 'ohdev', 'pdev', 'totdev', 'mtotdev', 'ttotdev', 'htotdev', 'theo1', 'mtie', 'tierms', 'gradev')
REFUSED = ('gcodev', 'confidence_interval', 'tau_generator', 'psd2allan', 'frequency2phase', 'mtie_phase_fast', 'np', 'no_such_function', 'no_such_dev', 'edf_totdev',
           'psd_piecewise_to_adev', 'calc_gradev', '__name__', 'Dataset')


def plain(v):
    if isinstance(v, (list, tuple)) and len(v) and isinstance(v[0], (list, np.ndarray)):
        return [plain(w) for w in v]
    return np.asarray(v, float)


def equal(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))


@prop('C25')
class C25(Base):
    def given(self, rng):
        N = int(rng.integers(40, 130))
        rate = float(pick(rng, [1.0, 2.0, 10.0, 0.1, 7.3, 1 / 3.0]))
        taus = pick(rng, ['octave', 'decade', None, 'list', 'array'])
        if taus in ('list', 'array'):
            taus = [taus] + sorted(set(float(m) / rate for m in rng.integers(1, 8, size=3)))
        return dict(data=gen.series(rng, N), rate=rate, dtype=pick(rng, ['phase', 'freq']), taus=taus, wrong=bool(rng.random() < .07))

    def cases(self, rng, tier, hints=()):
        while True:
            ops = []
            for _ in range(int(rng.integers(1, 6))):
                k = rng.random()
                if k < .25:
                    ops.append(['set', self.given(rng)])
                elif k < .4:
                    ops.append(['refused', pick(rng, REFUSED)])
                elif k < .8:
                    f = pick(rng, [q for q in COMPUTE if q not in ('mtotdev', 'ttotdev', 'htotdev', 'mtie')] * 3 + list(COMPUTE))
                    ops.append(['compute', f])
                    if rng.random() < .4:
                        ops.append(['write', int(rng.integers(2, 12))])
            yield dict(what='history', first=self.given(rng) if rng.random() < .8 else None, kw=bool(rng.random() < .5), ops=ops)

    def args(self, g):
        t = g['taus']
        if isinstance(t, list):
            t = t[1:] if t[0] == 'list' else np.array(t[1:])
        return np.array(g['data']), g['rate'], 'neither' if g['wrong'] else g['dtype'], t

    def history(self, c, bad):
        a = __import__('allantools')
        cur = None
        if c['first'] is None:
            d = a.Dataset()
            cur = (None, 1.0, 'phase', None)
        else:
            cur = self.args(c['first'])
            d = a.Dataset(**dict(zip(('data', 'rate', 'data_type', 'taus'), cur))) if c['kw'] else a.Dataset(*cur)
        stored = None
        for op, v in c['ops']:
            if op == 'set':
                cur = self.args(v)
                d.set_input(*cur)
            elif op == 'refused':
                try:
                    quiet(d.compute, v)
                except Exception:
                    pass
                else:
                    bad.append('compute(%r) accepted' % v)
            elif op == 'compute':
                try:
                    w = quiet(getattr(at(), v), cur[0], rate=cur[1], data_type=cur[2], taus=cur[3])
                except Exception as e:
                    w = e
                try:
                    r = quiet(d.compute, v)
                except Exception as e:
                    if not isinstance(w, Exception):
                        bad.append('compute(%r) raised %s: %s' % (v, type(e).__name__, e))
                else:
                    if isinstance(w, Exception):
                        bad.append('compute(%r) returned although %s raises %s' % (v, v, type(w).__name__))
                        break
                    stored = (v, [plain(x) for x in w])
                    for k, x in zip(('taus', 'stat', 'stat_err', 'stat_n'), stored[1]):
                        if not equal(plain(r[k]), x):
                            bad.append('compute(%r)[%r] is %r, the function gives %r' % (v, k, r[k], x))
            elif op == 'write' and stored:
                self.table(d, stored, cur, v, bad)
            if stored:
                if d.out['stat_id'] != stored[0]:
                    bad.append('after %s %s: stored name %r, computed %r' % (op, v if op != 'set' else '', d.out['stat_id'], stored[0]))
                for k, x in zip(('taus', 'stat', 'stat_err', 'stat_n'), stored[1]):
                    if not equal(plain(d.out[k]), x):
                        bad.append('after %s %s: stored %r differs from what %s returned' % (op, v if op != 'set' else '', k, stored[0]))
            if bad:
                return

    def table(self, d, stored, cur, digits, bad):
        name, (t, s, e, n) = stored
        with tempfile.TemporaryDirectory() as tmp:
            p = os.path.join(tmp, 'out.txt')
            d.write_results(p, digits=digits)
            rows = [ln.split() for ln in open(p) if ln.strip() and not ln.startswith('#')][1:]
        lo, hi = e if isinstance(e, list) else (e / 2, e / 2)
        if len(rows) != len(t):
            bad.append('%d rows for %d taus of %s' % (len(rows), len(t), name))
            return
        for i, r in enumerate(rows):
            m = round(float(t[i]) * cur[1])
            if abs(float(t[i]) * cur[1] - m) > 0.4:
                m = None    # set_input with another rate since
            if len(r) != 7 or (m is not None and int(r[0]) != m) or int(r[2]) != int(n[i]):
                bad.append('%s row %d: %s for tau %r, n %r at rate %r' % (name, i, r, float(t[i]), n[i], cur[1]))
                return
            with np.errstate(all='ignore'):
                for q, w in zip((r[1], r[4], r[5], r[6]), (t[i], s[i] - lo[i], s[i], s[i] + hi[i])):
                    if q != '%.*e' % (digits - 1, w):
                        bad.append('%s row %d: %s where %r is due (%d digits)' % (name, i, q, float(w), digits))
                        return


@prop('C28')
class C28(Base):
    def cases(self, rng, tier, hints=()):
        while True:
            yield dict(what='plot', N=int(rng.integers(40, 100)), seed=int(rng.integers(1 << 30)), rate=float(pick(rng, [1.0, 10.0, 0.1])),
                       stats=[pick(rng, [q for q in COMPUTE if q not in ('mtotdev', 'ttotdev', 'htotdev', 'mtie')]) for _ in range(int(rng.integers(1, 4)))],
                       errorbars=bool(rng.random() < .6), grid=bool(rng.random() < .4), kw=bool(rng.random() < .5), default=bool(rng.random() < .3),
                       other=bool(rng.random() < .6), save=bool(rng.random() < .3))

    def run(self, c):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        try:
            return self.drawn(c, __import__('allantools'), plt)
        finally:
            plt.close('all')

    def drawn(self, c, a, plt):
        bad = []
        p = quiet(a.Plot, **({} if c['default'] else {'no_display': True}))
        if c['other']:
            other, oax = plt.subplots(figsize=(2, 1))
        kw = {'color': 'C2', 'label': 'something'} if c['kw'] else {}
        for k, f in enumerate(c['stats']):
            d = a.Dataset(np.random.default_rng([c['seed'], k]).normal(size=c['N']), rate=c['rate'], data_type='freq')
            try:
                quiet(d.compute, f)
            except Exception:
                return bad
            out = {q: plain(v) for q, v in d.out.items() if q != 'stat_id'}
            lines, bars = len(p.ax.lines), len(p.ax.containers)
            o = dict(kw)
            if not c['default'] or c['errorbars']:
                o['errorbars'] = c['errorbars']
            if not c['default'] or c['grid']:
                o['grid'] = c['grid']
            quiet(p.plot, d, **o)
            new = p.ax.lines[lines:]
            if not new or len(p.ax.containers) != bars + c['errorbars']:
                bad.append('plot of %s: %d new lines, %d error bars' % (f, len(new), len(p.ax.containers) - bars))
                return bad
            ln = new[0]
            if not equal(plain(ln.get_xdata()), out['taus']) or not equal(plain(ln.get_ydata()), out['stat']):
                bad.append('plot of %s draws %r against %r' % (f, ln.get_ydata(), ln.get_xdata()))
            if c['kw'] and ln.get_color() != 'C2':
                bad.append('plot of %s: keywords not passed on' % f)
            if c['errorbars']:
                lo, hi = out['stat_err'] if isinstance(out['stat_err'], list) else (out['stat_err'],) * 2
                seg = p.ax.containers[-1][2][0].get_segments()
                s = out['stat']
                for i in range(len(s)):
                    if np.isfinite([s[i], lo[i], hi[i]]).all() and not (
                            close(s[i] - lo[i], seg[i][0][1], abs(s[i])) and close(s[i] + hi[i], seg[i][1][1], abs(s[i]))):
                        bad.append('plot of %s: error bar %r at %r +%r -%r' % (f, seg[i].tolist(), s[i], hi[i], lo[i]))
                        break
            for q, v in out.items():
                if not equal(plain(d.out[q]), v):
                    bad.append('plot of %s changed %r of the data set' % (f, q))
            if (p.ax.get_xscale(), p.ax.get_yscale()) != ('log', 'log'):
                bad.append('plot of %s on %s-%s axes' % (f, p.ax.get_xscale(), p.ax.get_yscale()))
            if p.ax.get_ylabel() != f or p.ax.get_xlabel() != 'Tau':
                bad.append('plot of %s labelled %r, %r' % (f, p.ax.get_xlabel(), p.ax.get_ylabel()))
        if c['other'] and (oax.lines or oax.get_ylabel()):
            bad.append('drew on a figure of somebody else')
        if c['save']:
            with tempfile.TemporaryDirectory() as tmp:
                n1, n2 = os.path.join(tmp, 'a.png'), os.path.join(tmp, 'b.png')
                quiet(p.save, n1)
                p.fig.savefig(n2)
                if plt.imread(n1).shape != plt.imread(n2).shape or not (plt.imread(n1) == plt.imread(n2)).all():
                    bad.append('save wrote another figure')
        return bad
