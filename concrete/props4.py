"""Concrete contract checks: covariances, selection, filtering, conversions, invariances, frames."""
import math
import numpy as np
from . import gen, oracle
from .props import prop, quiet, close, at, compare_rows, tausarg, container
from .props2 import Base, pick
from .props3 import holes

SCALED = ('adev', 'oadev', 'mdev', 'tdev', 'hdev', 'ohdev')
LIN = ('adev', 'oadev', 'mdev', 'tdev', 'hdev', 'ohdev', 'pdev', 'totdev', 'theo1')
TIMEDEV = ('tdev', 'ttotdev', 'tierms', 'mtie')
ALL = ('adev', 'oadev', 'mdev', 'tdev', 'hdev', 'ohdev', 'pdev', 'totdev', 'mtotdev', 'ttotdev', 'htotdev', 'theo1', 'tierms', 'mtie')


def mod():
    return __import__('allantools.allantools', fromlist=['x'])


def call(name, *a, **k):
    """result, None where there are no rows, or the exception"""
    try:
        return quiet(getattr(at(), name), *a, **k)
    except UserWarning:
        return None
    except Exception as e:
        return e


def cols(out):
    return [np.asarray(v, float) for v in out]


def alike(label, a, b, bad, scale=0.0, rtol=1e-6, f=(1, 1, 1, 1)):
    """columns of a times f equal those of b"""
    if isinstance(a, Exception) or isinstance(b, Exception) or (a is None) != (b is None):
        if type(a) is not type(b):
            bad.append('%s: %r against %r' % (label, a if not isinstance(a, tuple) else 'rows', b if not isinstance(b, tuple) else 'rows'))
        return
    if a is None:
        return
    for nm, x, y, k in zip(('tau', 'dev', 'err', 'n'), cols(a), cols(b), f):
        if x.shape != y.shape:
            bad.append('%s: %s has shape %s against %s' % (label, nm, x.shape, y.shape))
            return
        for i in range(len(x)):
            if not close(x[i] * k, y[i], scale if nm in ('dev', 'err') else 0.0, rtol):
                bad.append('%s row %d (tau=%r): %s %r, expected %r' % (label, i, float(cols(b)[0][i]), nm, float(x[i] * k), float(y[i])))
                return


class Rel(Base):
    cap = 90
    funcs = ALL

    def base(self, rng, tier, C, f=None):
        f = f or pick(rng, self.funcs)
        N = max(4, gen.size(rng, tier, C, self.cap if 'tot' not in f and f != 'theo1' else 40))
        r = float(pick(rng, gen.RATES))
        return dict(func=f, x=gen.series(rng, N), rate=r, taus=gen.taus_for(rng, N, r), kind=pick(rng, ['array', 'array', 'list']))


@prop('C11')
class C11(Rel):
    def cases(self, rng, tier, hints=()):
        C = gen.code_constants()
        while True:
            c = self.base(rng, tier, C, pick(rng, SCALED + ('totdev', 'pdev')))
            N = len(c['x'])
            c['what'] = pick(rng, ['cov', 'cov', 'hat'])
            c['y'], c['z'] = gen.series(rng, N), gen.series(rng, N)
            c['dtype'] = pick(rng, ['phase', 'phase', 'freq'])
            yield c

    def cov(self, c, bad):
        x, y = [container(c[k], c['kind']) for k in 'xy']
        r, dt, ta = c['rate'], c['dtype'], tausarg(c['taus'])
        out = call('gcodev', x, y, rate=r, data_type=dt, taus=ta)
        if isinstance(out, Exception):
            bad.append('gcodev raised %r' % out)
            return
        px, py = [oracle.f2p(c[k], r) if dt == 'freq' else np.array(c[k], float) for k in 'xy']
        amp = max(np.max(np.abs(px)), np.max(np.abs(py)))
        if out is not None:
            bad += compare_rows('gcodev', out, lambda m: oracle.gcodev(px, py, m, r), len(px), float(r), amp * 1e5)
        alike('gcodev(y,x)', call('gcodev', y, x, rate=r, data_type=dt, taus=ta), out, bad, amp * 100 * r)
        alike('gcodev(x,x)', call('gcodev', x, x, rate=r, data_type=dt, taus=ta), call('oadev', x, rate=r, data_type=dt, taus=ta), bad, amp * 100 * r)

    def hat(self, c, bad):
        a, b, d = [container(c[k], c['kind']) for k in 'xyz']
        r, ta = c['rate'], tausarg(c['taus'])
        f = getattr(at(), c['func'])
        each = [call(c['func'], v, rate=r, taus=ta, data_type='phase') for v in (a, b, d)]
        out = call('three_cornered_hat_phase', a, b, d, r, ta, f)
        if any(not isinstance(v, tuple) for v in each):
            if isinstance(out, tuple):
                bad.append('result although a statistic has none')
            return
        if not isinstance(out, tuple) or len(out) != 4:
            bad.append('three_cornered_hat_phase: %r' % (out,))
            return
        (t, ab, _, n), bc, ca = each[0], each[1][1], each[2][1]
        var = 0.5 * (ab * ab + ca * ca - bc * bc)
        var = np.where(var < 0, 0, var)
        sc = 1e-7 * max(np.max(v) for v in (ab, bc, ca))
        w = np.sqrt(var)
        for nm, g, e in (('tau', out[0], t), ('dev', out[1], w), ('err', out[2], w / np.sqrt(n)), ('n', out[3], n)):
            g = np.asarray(g, float)
            if g.shape != np.shape(e):
                bad.append('hat %s: shape %s' % (nm, g.shape))
                continue
            for i in range(len(g)):
                if not close(g[i], e[i], 0 if nm in ('tau', 'n') else 0, 1e-6) and abs(g[i] - e[i]) > sc:
                    bad.append('hat %s row %d: %r, expected %r' % (nm, i, g[i], e[i]))
                    break


@prop('C12')
class C12(Base):
    def cases(self, rng, tier, hints=()):
        C = gen.code_constants()
        while True:
            big = rng.random() < .1
            N = int(pick(rng, [1, 2, 3, 7, 8, 9, 15, 16, 17, 99, 100, 101, 127, 128, 129, 255, 256, 1000, 1023, 1024, 1025])) if big else gen.size(rng, tier, C, 400)
            r = float(pick(rng, gen.RATES))
            t = gen.taus_for(rng, N, r)
            if rng.random() < .2 and isinstance(t, list):
                # values that round half way, and near misses
                t = t + [(int(rng.integers(0, N + 1)) + f) / r for f in (.25, .4999, .5001, .75)]
            if rng.random() < .1:
                t = []
            yield dict(what='select', N=N, rate=r, taus=t, even=bool(rng.random() < .3), mx=int(rng.integers(0, N + 3)) if rng.random() < .4 else (N / 3.0 if rng.random() < .3 else -1),
                       tk=pick(rng, ['list', 'array']), kind=pick(rng, ['array', 'list']))

    def select(self, c, bad):
        N, r, t, mx = c['N'], c['rate'], c['taus'], c['mx']
        data = [math.sin(.3 * k) for k in range(N)]
        arg = np.array(data) if c['kind'] == 'array' else list(data)
        ta = tausarg(t, c['tk'] if t else 'list')
        kw = {} if mx == -1 else dict(maximum_m=mx)
        out = quiet(at().tau_generator, arg, r, taus=ta, even=c['even'], **kw)
        d, m, t2 = out
        lim = N if mx == -1 else mx
        if isinstance(t, list) and t:
            want = oracle.select(N, r, t, lim, c['even'])
        else:
            want = oracle.keyword(N, r, t, lim, c['even'])
        got = [float(v) for v in m]
        if got != [float(v) for v in want]:
            bad.append('factors %r, expected %r' % (got[:30], want[:30]))
        if len(t2) != len(m) or any(not close(a, b / r) for a, b in zip(t2, m)):
            bad.append('taus %r do not match the factors %r' % (list(t2)[:10], got[:10]))
        if not isinstance(d, np.ndarray) or d.shape != (N,) or list(d) != data or list(arg) != data:
            bad.append('data is not returned unchanged')
        if isinstance(arg, np.ndarray) and np.shares_memory(arg, d):
            bad.append('the data is not copied')


@prop('C13')
class C13(Base):
    def cases(self, rng, tier, hints=()):
        while True:
            K = int(rng.integers(1, 30))
            if rng.random() < .6:
                yield dict(what='filter', n=[int(v) for v in rng.integers(-1, 5, size=K)], two=bool(rng.random() < .4), v=[float(v) for v in rng.normal(size=4 * K)])
            else:
                ms = sorted(set(int(v) for v in np.round(10 ** (rng.random(K) * 4)))) if rng.random() < .5 else list(range(1, int(rng.integers(2, 400))))
                yield dict(what='thin', m=ms, rate=float(pick(rng, gen.RATES)), npd=int(rng.integers(1, 40)), fl=bool(rng.random() < .5))

    def filter(self, c, bad):
        K = len(c['n'])
        v = np.array(c['v']).reshape(4, K)
        n = np.array(c['n'])
        e = [v[2].copy(), v[3].copy()] if c['two'] else v[2].copy()
        keep = [i for i in range(K) if n[i] > 1]
        try:
            out = quiet(mod().remove_small_ns, v[0].copy(), v[1].copy(), e, n.copy())
        except UserWarning:
            if keep:
                bad.append('warned although rows qualify')
            return
        if not keep:
            bad.append('no warning although no row qualifies')
            return
        g = [out[0], out[1], out[3]] + (list(out[2]) if c['two'] else [out[2]])
        w = [v[0], v[1], n] + ([v[2], v[3]] if c['two'] else [v[2]])
        for k, (a, b) in enumerate(zip(g, w)):
            if [float(z) for z in a] != [float(z) for z in b[keep]]:
                bad.append('column %d: %r, expected %r' % (k, list(a), list(b[keep])))

    def thin(self, c, bad):
        m, r, p = c['m'], c['rate'], c['npd']
        ms, t = quiet(mod().tau_reduction, np.array(m, float if c['fl'] else int), r, p)
        st = np.rint(p * np.log10(np.array(m)))
        want = [m[i] for i in range(len(m) - 1) if st[i + 1] != st[i]]
        if [int(v) for v in ms] != want or len(t) != len(want) or any(not close(a, b / r) for a, b in zip(t, want)):
            bad.append('kept %r %r, expected %r' % (list(ms)[:20], list(t)[:5], want[:20]))


@prop('C14')
class C14(Rel):
    funcs = ALL + ('gradev', 'gcodev')

    def cases(self, rng, tier, hints=()):
        C = gen.code_constants()
        while True:
            c = self.base(rng, tier, C)
            c['what'] = pick(rng, ['convert', 'trim', 'stat', 'stat', 'refuse', 'units'])
            c['lead'], c['tail'] = int(rng.integers(0, 4)), int(rng.integers(0, 4))
            c['v0'] = float(pick(rng, [1.0, 10e6, 3.5, -2.0]))
            c['mu'] = float(pick(rng, [-1, 1.0, 5e6, 2.5, -3.0]))
            yield c

    def convert(self, c, bad):
        y, r = container(c['x'], c['kind']), c['rate']
        p = quiet(at().frequency2phase, y, r)
        w = oracle.f2p(c['x'], r)
        sc = np.max(np.abs(c['x'])) / r * len(w)
        if np.shape(p) != w.shape or any(not close(a, b, sc) for a, b in zip(p, w)):
            bad.append('frequency2phase %r, expected %r' % (list(p)[:6], list(w)[:6]))
        b = quiet(at().phase2frequency, p, r)
        e = np.array(c['x']) - np.mean(c['x'])
        if np.shape(b) != e.shape or any(abs(u - v) > 1e-6 * (1e-30 + np.max(np.abs(c['x']))) for u, v in zip(b, e)):
            bad.append('round trip %r, expected %r' % (list(b)[:6], list(e)[:6]))
        q = quiet(at().phase2frequency, y, r)
        e = r * np.diff(np.array(c['x']))
        if np.shape(q) != e.shape or any(not close(u, v, 1e-3 * sc) for u, v in zip(q, e)):
            bad.append('phase2frequency %r, expected %r' % (list(q)[:6], list(e)[:6]))

    def trim(self, c, bad):
        x = [float('nan')] * c['lead'] + c['x'] + [float('nan')] * c['tail']
        for k in ('array', 'list'):
            g = quiet(at().trim_data, container(x, k))
            if [float(v) for v in g] != c['x']:
                bad.append('trim_data(%s) %r' % (k, list(g)[:8]))
        r = c['rate']
        p, w = quiet(at().frequency2phase, np.array(x), r), oracle.f2p(c['x'], r)
        if np.shape(p) != w.shape or any(not close(a, b, np.max(np.abs(w))) for a, b in zip(p, w)):
            bad.append('frequency2phase with gaps at the ends %r, expected %r' % (list(p)[:6], list(w)[:6]))

    def stat(self, c, bad):
        r, ta = c['rate'], tausarg(c['taus'])
        y = [container(c['x'], c['kind'])] * (2 if c['func'] == 'gcodev' else 1)
        x = [oracle.f2p(c['x'], r)] * len(y)
        if c['func'] == 'gradev':
            f = call('gradev', *y, rate=r, taus=ta, data_type='freq')
            p = call('gradev', *x, rate=r, taus=ta, data_type='phase')
            f, p = [(v[0], v[1], v[2][0], v[3]) if isinstance(v, tuple) else v for v in (f, p)]
        else:
            f = call(c['func'], *y, rate=r, taus=ta, data_type='freq')
            p = call(c['func'], *x, rate=r, taus=ta, data_type='phase')
        sc = 1e-7 * np.max(np.abs(x[0])) * max(1.0, r)
        alike('%s of frequency data' % c['func'], f, p, bad, sc)

    def refuse(self, c, bad):
        a = [container(c['x'], c['kind'])] * (2 if c['func'] == 'gcodev' else 1)
        try:
            quiet(getattr(at(), c['func']), *a, rate=c['rate'], data_type='foo', taus=[1 / c['rate']])
            bad.append('%s accepts data_type foo' % c['func'])
        except Exception:
            pass

    def units(self, c, bad):
        x = container(c['x'], c['kind'])
        p = quiet(at().phase2radians, x, c['v0'])
        e = 2 * np.pi * c['v0'] * np.array(c['x'])
        if np.shape(p) != e.shape or any(not close(u, v) for u, v in zip(p, e)):
            bad.append('phase2radians %r, expected %r' % (list(p)[:5], list(e)[:5]))
        f = [v + 10.0 for v in c['x']]
        mu = c['mu'] if c['mu'] != -1 else float(np.mean(f))
        g = quiet(at().frequency2fractional, container(f, c['kind']), **({} if c['mu'] == -1 else dict(mean_frequency=c['mu'])))
        e = (np.array(f) - mu) / mu
        if abs(mu) > 1e-3 and (len(g) != len(e) or any(abs(u - v) > 1e-9 * (1 + abs(v)) for u, v in zip(g, e))):
            bad.append('frequency2fractional %r, expected %r' % (list(g)[:5], list(e)[:5]))


@prop('C15')
class C15(Rel):
    funcs = LIN

    def cases(self, rng, tier, hints=()):
        C = gen.code_constants()
        while True:
            c = self.base(rng, tier, C)
            c.update(what='inv', c=float(pick(rng, [-1.0, 2.0, -0.5, 3.7, 1e3, 1e-3])), off=float(rng.integers(-5, 6)), slope=float(rng.normal()), quad=float(rng.normal()) * .1,
                     two=int(pick(rng, [-110, -70, -40, 40, 70])))
            yield c

    def inv(self, c, bad):
        f, r, ta = c['func'], c['rate'], tausarg(c['taus'])
        x = np.array(c['x'])
        t = np.arange(len(x))
        a = call(f, container(c['x'], c['kind']), rate=r, taus=ta)
        top = np.max(np.abs(x)) + abs(c['off']) + abs(c['slope']) * len(x) + abs(c['quad']) * len(x) ** 2
        sc = 1e-6 * top * (r if f != 'tdev' else 1.0)
        alike(f + ' plus offset', call(f, x + c['off'], rate=r, taus=ta), a, bad, sc)
        alike(f + ' plus ramp', call(f, x + c['off'] + c['slope'] * t, rate=r, taus=ta), a, bad, sc)
        if f in ('hdev', 'ohdev'):
            alike(f + ' plus quadratic', call(f, x + c['quad'] * t * t, rate=r, taus=ta), a, bad, sc)
        k = c['c']
        alike(f + ' scaled', call(f, k * x, rate=r, taus=ta), a if not isinstance(a, tuple) else (a[0], abs(k) * a[1], abs(k) * a[2], a[3]), bad, sc * 1e-3)
        k = 2.0 ** c.get('two', 0)      # exact in binary arithmetic, at any amplitude
        alike(f + ' scaled by a power of two', call(f, k * x, rate=r, taus=ta), a if not isinstance(a, tuple) else (a[0], k * a[1], k * a[2], a[3]),
              bad, sc * k)


@prop('C27')
class C27(Rel):
    funcs = tuple(f for f in ALL if f != 'htotdev') + ('gcodev',)

    def cases(self, rng, tier, hints=()):
        C = gen.code_constants()
        while True:
            c = self.base(rng, tier, C)
            c.update(what='rate', c=float(pick(rng, [2.0, 0.5, 10.0, 3.0, 0.01, 1e6])))
            yield c

    def rate(self, c, bad):
        f, r, k = c['func'], c['rate'], c['c']
        a_ = [container(c['x'], c['kind'])] * (2 if f == 'gcodev' else 1)
        ta = tausarg(c['taus'])
        tb = [v / k for v in ta] if isinstance(ta, list) else ta
        a, b = call(f, *a_, rate=r, taus=ta), call(f, *a_, rate=r * k, taus=tb)
        g = 1.0 if f in TIMEDEV else k
        if isinstance(a, tuple):
            a = (a[0] / k, g * a[1], g * a[2], a[3])
        alike('%s at rate*%g' % (f, k), b, a, bad, 1e-6 * np.max(np.abs(c['x'])) * (r * k if g == k else 1.0))


@prop('C26')
class C26(Base):
    def cases(self, rng, tier, hints=()):
        C = gen.code_constants()
        R = Rel()
        while True:
            c = R.base(rng, tier, C, pick(rng, ALL + ('gradev', 'gcodev')))
            c['what'] = pick(rng, ['stat', 'stat', 'tool'])
            c['dtype'] = pick(rng, ['phase', 'freq'])
            c['gaps'] = [int(i) for i in np.where(holes(rng, len(c['x'])))[0]] if c['func'] == 'gradev' else []
            yield c

    def watch(self, label, f, args, kw, bad, results=True):
        import copy
        before = copy.deepcopy((args, kw))
        try:
            out = quiet(f, *args, **kw)
        except Exception:
            out = None

        def same(a, b):
            if isinstance(a, np.ndarray):
                return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
            if isinstance(a, (list, tuple)):
                return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
            if isinstance(a, dict):
                return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
            return type(a) is type(b) and (a is b or repr(a) == repr(b))
        if not same((args, kw), before):
            bad.append('%s changes its arguments' % label)

        def flat(v):
            if isinstance(v, (list, tuple)):
                for w in v:
                    yield from flat(w)
            elif isinstance(v, np.ndarray):
                yield v
        if results:
            for a in flat([args, list(kw.values())]):
                for o in flat(out):
                    if a.size and np.shares_memory(a, o):
                        bad.append('%s returns memory of its argument' % label)
                        return

    def stat(self, c, bad):
        f = c['func']
        x = np.array(c['x'])
        x[c['gaps']] = np.nan
        d = x if c['kind'] == 'array' else [float(v) for v in x]
        a = [d] + ([np.array(c['x'][::-1])] if f == 'gcodev' else [])
        t = tausarg(c['taus'], 'array') if isinstance(c['taus'], list) else c['taus']
        self.watch(f, getattr(at(), f), a, dict(rate=c['rate'], data_type=c['dtype'] if not c['gaps'] else 'phase', taus=t), bad)
        if isinstance(c['taus'], list):
            self.watch(f, getattr(at(), f), [list(c['x'])] + a[1:], dict(rate=c['rate'], data_type=c['dtype'], taus=list(c['taus'])), bad)

    def tool(self, c, bad):
        A = at()
        x, r = np.array(c['x']), c['rate']
        ci = __import__('allantools.ci', fromlist=['x'])
        xi = x - 3.0
        K = len(x)
        n = np.arange(K) % 4
        m = np.arange(1, K + 1)
        big = np.concatenate([x] * (40 // K + 1))
        h = dict(results=False)
        self.watch('frequency2phase', A.frequency2phase, [x, r], {}, bad)
        self.watch('frequency2phase', A.frequency2phase, [list(c['x']), r], {}, bad)
        self.watch('phase2frequency', A.phase2frequency, [x, r], {}, bad)
        self.watch('phase2radians', A.phase2radians, [x, 2.0], {}, bad)
        self.watch('frequency2fractional', A.frequency2fractional, [xi], {}, bad)
        self.watch('tau_generator', A.tau_generator, [x, r], dict(taus=np.array(m / r)), bad)
        self.watch('tau_reduction', A.tau_reduction, [m, r, 5], {}, bad)
        self.watch('remove_small_ns', mod().remove_small_ns, [x, xi, x * 2, n], {}, bad)
        self.watch('remove_small_ns', mod().remove_small_ns, [x, xi, [x * 2, x * 3], n], {}, bad)
        self.watch('three_cornered_hat_phase', A.three_cornered_hat_phase, [x, x[::-1].copy(), np.roll(x, 1), r, np.array([1 / r]), A.oadev], {}, bad)
        self.watch('lag1_acf', ci.lag1_acf, [x], {}, bad)
        self.watch('detrend', ci.detrend, [x, 1], {}, bad)
        for dt in ('phase', 'freq'):
            self.watch('autocorr_noise_id', ci.autocorr_noise_id, [big, 1], dict(data_type=dt), bad)
            self.watch('autocorr_noise_id', ci.autocorr_noise_id, [list(big), 1], dict(data_type=dt), bad)
        self.watch('rn', ci.rn, [x, 1, r], {}, bad)
        self.watch('b1', ci.b1, [x, 1, r], {}, bad)
        self.watch('confidence_interval_noiseID', ci.confidence_interval_noiseID, [big, 1.0, 1, 'oadev'], {}, bad)
        self.watch('psd_piecewise_to_adev', A.psd_piecewise_to_adev, [np.array([1.0, 2.0]), np.array([0.0, -1.0]), np.array([.1, 1.0, 10.0]), np.array([1.0, 2.0])], {}, bad)
