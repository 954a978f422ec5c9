"""Concrete contract checks of the confidence-interval, noise and mask properties."""
import math
import numpy as np
from . import gen, oracle, oracle2 as o2
from .props import prop, quiet, close, at
import importlib


def sub(name):
    return importlib.import_module('allantools.' + name)


def pick(rng, xs):
    return xs[int(rng.integers(0, len(xs)))]


def sized_af(rng, C, hi):
    """averaging factors, small or near a constant of the code"""
    k = rng.random()
    if k < .6 or not C:
        return int(rng.integers(1, 40))
    return max(1, min(hi, pick(rng, C) + int(rng.integers(-2, 3))))


def cmp(bad, what, got, want, rtol=1e-7, scale=0.0):
    try:
        ok = close(float(got), float(want), scale, rtol)
    except (TypeError, ValueError):
        ok = False
    if not ok:
        bad.append('%s = %r, expected %r' % (what, got, want))


class Base(object):
    def run(self, c):
        bad = []
        try:
            getattr(self, c['what'])(c, bad)
        except Exception as e:
            if type(e).__name__ in ('AssertionError',) and not bad:
                bad.append('%s raised %s' % (c, type(e).__name__))
            else:
                bad.append('%s raised %s: %s' % (c['what'], type(e).__name__, e))
        return bad[:5]


DEVS = {'adev': (2, 0, 0), 'oadev': (2, 1, 0), 'mdev': (2, 1, 1), 'tdev': (2, 1, 1), 'hdev': (3, 0, 0), 'ohdev': (3, 1, 0)}


def interval(dev, edf, ci):
    from scipy.stats import chi2
    return dev * math.sqrt(edf / chi2.isf((1 - ci) / 2, edf)), dev * math.sqrt(edf / chi2.ppf((1 - ci) / 2, edf))


@prop('C18')
class C18(Base):
    def cases(self, rng, tier, hints=()):
        C = gen.code_constants()
        while True:
            if rng.random() < .5:
                yield dict(what='plain', dev=float(10 ** rng.uniform(-15, 1)), edf=float(10 ** rng.uniform(-.3, 4)),
                           ci=None if rng.random() < .3 else float(pick(rng, [.5, .68, .9, .95, .99, rng.uniform(.5, .999)])), ik=bool(rng.random() < .2))
            else:
                af = sized_af(rng, [], 20) if rng.random() < .5 else int(rng.integers(1, 5))
                N = int(rng.integers(35, 60)) * af + int(rng.integers(0, af))
                yield dict(what='ident', name=pick(rng, list(DEVS) * 3 + ['totdev', 'mtotdev', 'htotdev', 'pdev', 'nonsense']), af=af, x=noisy(rng, min(N, 900)),
                           dtype=pick(rng, ['phase', 'freq']), dev=float(10 ** rng.uniform(-12, 0)), ci=float(pick(rng, [.68, .95, rng.uniform(.5, .99)])),
                           default=bool(rng.random() < .3), kind=pick(rng, ['array', 'list']))

    def plain(self, c, bad):
        ci = sub('ci')
        edf = max(1, int(c['edf'])) if c['ik'] else c['edf']
        r = quiet(ci.confidence_interval, c['dev'], edf) if c['ci'] is None else quiet(ci.confidence_interval, c['dev'], edf, c['ci'])
        lo, hi = interval(c['dev'], edf, math.erf(math.sqrt(.5)) if c['ci'] is None else c['ci'])
        cmp(bad, 'lower limit', r[0], lo)
        cmp(bad, 'upper limit', r[1], hi)

    def ident(self, c, bad):
        ci = sub('ci')
        x = np.array(c['x'])
        kw = {} if c['default'] else dict(ci=c['ci'])
        want = o2.noise_id(x, c['af'], c['dtype'], 0, 3 if c['name'] in ('hdev', 'ohdev') else 2)
        if c['name'] in DEVS and (want is None or want == 'unclear'):
            return
        try:
            r = quiet(ci.confidence_interval_noiseID, x if c['kind'] == 'array' or c['dtype'] == 'freq' else list(x), c['dev'], c['af'], dev_type=c['name'], data_type=c['dtype'], **kw)
        except Exception as e:
            if c['name'] not in DEVS:
                if isinstance(e, (NameError, AttributeError, TypeError)):
                    bad.append('unknown name: %r' % e)
                return
            try:
                d, ov, mo = DEVS[c['name']]
                if -4 <= want[0] <= 2 and want[0] + 2 * d > 1:
                    o2.greenhall(want[0], d, c['af'], len(x), bool(ov), bool(mo))
                    bad.append('raised %r' % e)
            except (o2.Refused, KeyError, TypeError, ZeroDivisionError):
                pass
            return
        if c['name'] not in DEVS:
            bad.append('the name %r is not rejected' % c['name'])
            return
        d, ov, mo = DEVS[c['name']]
        if not -4 <= want[0] <= 2 or want[0] + 2 * d <= 1:
            return
        try:
            edf = o2.greenhall(want[0], d, c['af'], len(x), bool(ov), bool(mo))
        except (o2.Refused, TypeError):
            return
        if edf is None or not edf > 0:
            return
        lo, hi = interval(c['dev'], edf, math.erf(math.sqrt(.5)) if c['default'] else c['ci'])
        cmp(bad, '%s lower limit (alpha %d)' % (c['name'], want[0]), r[0], lo, 1e-5)
        cmp(bad, '%s upper limit (alpha %d)' % (c['name'], want[0]), r[1], hi, 1e-5)


def noisy(rng, N):
    k = int(rng.integers(0, 6))
    w = rng.normal(size=N)
    if k == 1:
        w = np.diff(rng.normal(size=N + 1))
    if k == 2:
        w = np.cumsum(w)
    if k == 3:
        w = np.cumsum(np.cumsum(w))
    if k == 4:
        w = np.cumsum(np.cumsum(np.cumsum(w)))
    if k == 5:
        w = w + .3 * np.cumsum(rng.normal(size=N))
    return [float(v) for v in w]


@prop('C19')
class C19(Base):
    def cases(self, rng, tier, hints=()):
        C = gen.code_constants()
        for a in range(2, -5, -1):
            for d in (1, 2, 3):
                if a + 2 * d > 1:
                    for ov in (0, 1):
                        for mo in (0, 1):
                            for m, K in ((1, 40), (3, 7), (20, 8), (30, 50), (60, d + 1.5), (80, d + 2), (45, d + .5), (30, d + 1)):
                                yield dict(what='green', a=a, d=d, m=m, N=int(m * K) + 3, ov=ov, mo=mo)
        while True:
            m = sized_af(rng, C, 300)
            k = rng.random()
            if k < .6:
                a = int(rng.integers(-4, 3))
                d = int(rng.integers(1, 4))
                if a + 2 * d <= 1:
                    continue
                yield dict(what='green', a=a, d=d, m=m, N=int(m * rng.uniform(d + .2, 3 * d + 12)) + 2 if rng.random() < .8 else int(rng.integers(3, 3000)),
                           ov=int(rng.integers(0, 2)), mo=int(rng.integers(0, 2)))
            elif k < .8:
                yield dict(what='simple', f=pick(rng, ['edf_simple', 'edf_totdev', 'edf_mtotdev']), a=int(rng.integers(-2, 3)), m=m,
                           N=max(4, 2 * m + 1 + int(rng.integers(0, 400))), fl=bool(rng.random() < .3))
            else:
                yield dict(what='part', a=int(rng.integers(-4, 3)), d=int(rng.integers(1, 4)), t=float(pick(rng, [0.0, 1.0, -1.0, rng.uniform(-5, 5)])),
                           F=float(pick(rng, [1, 2, 3, 10, 50, math.inf])), J=int(rng.integers(1, 30)), M=int(rng.integers(30, 60)), S=int(rng.integers(1, 9)))

    def simple(self, c, bad):
        N, m = (float(c['N']), float(c['m'])) if c['fl'] else (c['N'], c['m'])
        cmp(bad, '%s(%r,%r,%d)' % (c['f'], N, m, c['a']), quiet(getattr(sub('ci'), c['f']), N, m, c['a']), getattr(o2, c['f'])(c['N'], c['m'], c['a']))

    def green(self, c, bad):
        a = (c['a'], c['d'], c['m'], c['N'], bool(c['ov']), bool(c['mo']))
        try:
            want = o2.greenhall(*a)
        except o2.Refused:
            want = 'refused'
        except ZeroDivisionError:
            return
        if want is None:
            return
        try:
            got = quiet(sub('ci').edf_greenhall, c['a'], c['d'], c['m'], c['N'], overlapping=bool(c['ov']), modified=bool(c['mo']))
        except NotImplementedError:
            if want != 'refused':
                bad.append('edf_greenhall%r refused' % (a,))
            return
        if want == 'refused':
            bad.append('edf_greenhall%r is not refused' % (a,))
            return
        # cancellation in s_x limits the accuracy for steep spectra and long averages
        cmp(bad, 'edf_greenhall%r' % (a,), got, want, 1e-4 if c['m'] < 40 else 2e-2)

    def part(self, c, bad):
        ci = sub('ci')
        cmp(bad, 'greenhall_sw(%r,%d)' % (c['t'], c['a']), ci.greenhall_sw(c['t'], c['a']), o2.sw(c['t'], c['a']), scale=1e-3)
        if c['F'] == math.inf and c['a'] > 0:
            return
        cmp(bad, 'greenhall_sx(%r,%r,%d)' % (c['t'], c['F'], c['a']), ci.greenhall_sx(c['t'], c['F'], c['a']), o2.sx(c['t'], c['F'], c['a']), 1e-6, 1e5)
        s = sum(abs(o2.sx(c['t'] + k, c['F'], c['a'])) for k in range(-3, 4)) + c['F'] ** 2 if c['F'] < 99 else 1e6
        cmp(bad, 'greenhall_sz(%r,%r,%d,%d)' % (c['t'], c['F'], c['a'], c['d']), ci.greenhall_sz(c['t'], c['F'], c['a'], c['d']),
            o2.sz(c['t'], c['F'], c['a'], c['d']), 1e-6, s)


@prop('C20')
class C20(Base):
    def cases(self, rng, tier, hints=()):
        C = gen.code_constants()
        while True:
            k = rng.random()
            if k < .45:
                af = pick(rng, [1, 1, 1, 2, 3, 4, 7, 10])
                n = int(pick(rng, [28, 29, 30, 31, 32, rng.integers(30, 120)]))
                N = n * af + int(rng.integers(0, af))
                lo = int(rng.integers(0, 3))
                yield dict(what='ident', x=noisy(rng, N), af=af, dtype=pick(rng, ['phase', 'freq']), dmin=lo, dmax=max(lo, int(rng.integers(0, 4))),
                           default=bool(rng.random() < .3), kind=pick(rng, ['array', 'array', 'list']))
            elif k < .7:
                af = int(rng.integers(1, 12))
                yield dict(what='ratio', x=noisy(rng, int(af * rng.integers(4, 12) + rng.integers(1, af + 1))), af=af, rate=float(pick(rng, gen.RATES)),
                           kind=pick(rng, ['array', 'list']))
            elif k < .85:
                yield dict(what='acf', x=noisy(rng, int(rng.integers(2, 60))), kind=pick(rng, ['array', 'list']), deg=int(rng.integers(0, 4)))
            else:
                yield dict(what='theory', af=int(rng.integers(1, 2000)), b=int(rng.integers(-6, 1)), mu=int(rng.integers(-2, 3)))

    def ident(self, c, bad):
        x = np.array(c['x'])
        lo, hi = (0, 2) if c['default'] else (c['dmin'], c['dmax'])
        want = o2.noise_id(x, c['af'], c['dtype'], lo, hi)
        if want == 'unclear':
            return
        kw = {} if c['default'] else dict(dmin=lo, dmax=hi)
        try:
            got = quiet(sub('ci').autocorr_noise_id, list(x) if c['kind'] == 'list' and c['dtype'] == 'phase' else x, c['af'], data_type=c['dtype'], **kw)
        except NotImplementedError:
            if want is not None:
                bad.append('refused a series of length %d at af=%d' % (len(x), c['af']))
            return
        if want is None:
            bad.append('a series of length %d at af=%d is not refused' % (len(x), c['af']))
            return
        for n, g, w in zip(('alpha_int', 'alpha', 'd', 'rho'), got, want):
            cmp(bad, '%s (af=%d %s dmin=%d dmax=%d)' % (n, c['af'], c['dtype'], lo, hi), g, w, 1e-6, 1e-1)

    def ratio(self, c, bad):
        ci, x = sub('ci'), np.array(c['x'])
        if oracle.adev(x, c['af'], 1.0)[0] == 0 or len(x) - 3 * c['af'] + 1 < 2:
            return
        d = list(x) if c['kind'] == 'list' else x
        cmp(bad, 'rn(af=%d,rate=%r)' % (c['af'], c['rate']), quiet(ci.rn, d, c['af'], c['rate']), o2.rn(x, c['af'], c['rate']), 1e-6)
        cmp(bad, 'b1(af=%d,rate=%r)' % (c['af'], c['rate']), quiet(ci.b1, d, c['af'], c['rate']), o2.b1(x, c['af'], c['rate']), 1e-6)

    def acf(self, c, bad):
        x = np.array(c['x'])
        d = list(x) if c['kind'] == 'list' else x
        cmp(bad, 'lag1_acf', sub('ci').lag1_acf(d), o2.acf1(x), 1e-6, 1e-2)
        if len(x) > c['deg'] + 4:
            got = np.asarray(quiet(sub('ci').detrend, x, c['deg']))
            V = np.vander(np.linspace(-1, 1, len(x)), c['deg'] + 1)
            want = x - V @ np.linalg.lstsq(V, x, rcond=None)[0]
            if got.shape != want.shape or not np.allclose(got, want, rtol=1e-6, atol=1e-6 * np.max(np.abs(x))):
                bad.append('detrend(deg=%d) is not the least-squares residual' % c['deg'])

    def theory(self, c, bad):
        ci = sub('ci')
        if c['b'] >= -4:
            cmp(bad, 'rn_theory(%d,%d)' % (c['af'], c['b']), ci.rn_theory(c['af'], c['b']), o2.rn_theory(c['af'], c['b']))
            if c['b'] > -4:
                cmp(bad, 'rn_boundary(%d,%d)' % (c['af'], c['b']), ci.rn_boundary(c['af'], c['b']),
                    math.sqrt(o2.rn_theory(c['af'], c['b']) * o2.rn_theory(c['af'], c['b'] - 1)))
        cmp(bad, 'b1_theory(%d,%d)' % (c['af'] + 1, c['mu']), ci.b1_theory(c['af'] + 1, c['mu']), o2.b1_theory(c['af'] + 1, c['mu']))
        cmp(bad, 'b_to_mu(%d)' % c['b'], ci.b_to_mu(c['b']), o2.MU[c['b']])


@prop('C21')
class C21(Base):
    def cases(self, rng, tier, hints=()):
        C = gen.code_constants()
        while True:
            b = pick(rng, [0, -1, -2, -3, -4, -4, -2.5, .7])
            if rng.random() < .5:
                yield dict(what='gen', nr=int(pick(rng, [1, 2, 3, 4, 5, rng.integers(2, 200), gen.size(rng, tier, C, 600)])) + 1, qd=float(10 ** rng.uniform(-20, 2)), b=float(b),
                           ib=bool(b == int(b)), via=pick(rng, ['init', 'set', 'again']), seed=int(rng.integers(0, 10 ** 6)))
            else:
                t0 = float(10 ** rng.uniform(-3, 3))
                yield dict(what='closed', b=int(pick(rng, [0, -1, -2, -3, -4])), qd=float(10 ** rng.uniform(-20, 2)), t0=t0, tau=t0 * int(rng.integers(1, 1000)))

    def make(self, c, nr):
        N = sub('noise_kasdin').Noise
        b = int(c['b']) if c.get('ib', True) else c['b']
        if c.get('via', 'init') == 'init':
            return N(nr=nr, qd=c['qd'], b=b)
        o = N(5, 1.0, -1)
        if c['via'] == 'again':
            o.generateNoise()
        o.set_input(nr=nr, qd=c['qd'], b=b)
        return o

    def gen(self, c, bad):
        o = self.make(c, c['nr'])
        np.random.seed(c['seed'])
        o.generateNoise()
        np.random.seed(c['seed'])
        w = math.sqrt(c['qd']) * np.random.standard_normal(c['nr'])
        want = o2.kasdin(w, c['b'])
        got = np.asarray(o.time_series)
        if got.shape != want.shape:
            bad.append('%r samples, expected %r' % (got.shape, want.shape))
        elif not np.allclose(got, want, rtol=1e-6, atol=1e-9 * np.sum(np.abs(w))):
            bad.append('series of b=%r differs from the convolution with the Kasdin filter at sample %d' % (c['b'], int(np.argmax(np.abs(got - want)))))

    def closed(self, c, bad):
        o = self.make(c, 4)
        for k, v in o2.kasdin_closed(c['b'], c['qd'], c['t0'], c['tau']).items():
            f = getattr(o, k)
            got = f() if k.startswith('c_') else f(tau0=c['t0']) if 'psd' in k else f(tau0=c['t0'], tau=c['tau'])
            cmp(bad, '%s(b=%d,tau0=%r,tau=%r)' % (k, c['b'], c['t0'], c['tau']), got, v)


@prop('C22')
class C22(Base):
    def cases(self, rng, tier, hints=()):
        while True:
            if rng.random() < .45:
                yield dict(what='plain', f=pick(rng, ['white', 'brown', 'violet']), n=int(pick(rng, [1, 2, 3, rng.integers(1, 400)])), lvl=float(10 ** rng.uniform(-6, 3)),
                           fs=float(pick(rng, [1, 2, .1, 1000, 7.7])), seed=int(rng.integers(0, 10 ** 6)), default=bool(rng.random() < .15))
            else:
                n = int(pick(rng, [4, 5, 6, 7, rng.integers(8, 80), rng.integers(80, 160)]))
                dt = float(pick(rng, [1.0, .5, .25, 2.0, 4.0]))
                K = int(rng.integers(0, 4))
                f1, fn = 1 / ((n - 1) * dt), .5 / dt
                if rng.random() < .4:
                    grid = np.linspace(f1, fn, n // 2 + 1)
                    nodes = sorted(set(float(grid[int(i)]) for i in rng.integers(0, len(grid), size=K)))
                else:
                    nodes = sorted(float(v) for v in rng.uniform(.5 * f1, 1.2 * fn, size=K))
                yield dict(what='timmer', nodes=nodes, h=[float(10 ** rng.uniform(-3, 1)) for _ in range(len(nodes) + 1)],
                           alpha=[float(pick(rng, [0, 1, 2, -1, -2, -1.5])) for _ in range(len(nodes) + 1)], dur=(n + float(pick(rng, [0, 0, .02, .5, .51, .9]))) * dt, dt=dt, out=pick(rng, ['phase', 'phase', 'freq']),
                           seed=int(rng.integers(0, 10 ** 6)), kw=bool(rng.random() < .6))

    def plain(self, c, bad):
        f = getattr(sub('noise'), c['f'])
        np.random.seed(c['seed'])
        n, lvl, fs = (1024, 1.0, 1.0) if c['default'] else (c['n'], c['lvl'], c['fs'])
        got = np.asarray(f() if c['default'] else f(n, lvl, fs))
        np.random.seed(c['seed'])
        tp2 = (2 * math.pi) ** 2
        if c['f'] == 'white':
            want = math.sqrt(lvl * fs / 2) * np.random.standard_normal(n)
        elif c['f'] == 'brown':
            want = np.cumsum(math.sqrt(lvl * tp2 * fs / 2) * np.random.standard_normal(n)) / fs
        else:
            want = fs * np.diff(math.sqrt(lvl / tp2 * fs / 2) * np.random.standard_normal(n + 1))
        if got.shape != want.shape:
            bad.append('%s: %r samples, expected %r' % (c['f'], got.shape, want.shape))
        elif not np.allclose(got, want, rtol=1e-8, atol=1e-10 * np.max(np.abs(want))):
            bad.append('%s(n=%d,level=%r,fs=%r) differs from its definition' % (c['f'], n, lvl, fs))

    def timmer(self, c, bad):
        f = sub('noise').timmer_koenig_from_psd
        if c['kw']:
            x = quiet(f, c['nodes'], c['h'], c['alpha'], c['dur'], c['dt'], output=c['out'], seed=c['seed'])
        else:
            np.random.seed(c['seed'])
            x = quiet(f, np.array(c['nodes']), np.array(c['h']), np.array(c['alpha']), c['dur'], c['dt'], output=c['out'])
        n = int(c['dur'] / c['dt'])
        np.random.seed(c['seed'])
        z = np.random.standard_normal(2 * (n // 2))
        want = o2.timmer(c['nodes'], c['h'], c['alpha'], c['dur'], c['dt'], z)
        x = np.asarray(x)
        if x.shape != (n,) or np.iscomplexobj(x):
            bad.append('shape %r, expected %d real samples' % (x.shape, n))
            return
        if c['out'] == 'freq':
            want = np.concatenate([[0.0], np.diff(want) / c['dt']])
        if not np.allclose(x, want, rtol=1e-6, atol=1e-8 * np.max(np.abs(want))):
            bad.append('n=%d %s: differs from the inverse transform of the shaped spectrum at sample %d' % (n, c['out'], int(np.argmax(np.abs(x - want)))))
        if c['out'] == 'phase' and abs(np.mean(x)) > 1e-9 * np.max(np.abs(x)):
            bad.append('the mean is not zero')


@prop('C24')
class C24(Base):
    def cases(self, rng, tier, hints=()):
        C = gen.code_constants()
        for b in o2.BREAKS + list(C):
            for e in (0, 1e-9, -1e-9, 1e-3, -1e-3):
                yield dict(what='limit', t=b * (1 + e))
        while True:
            k = rng.random()
            t = float(10 ** rng.uniform(-4, 7)) if k < .7 else float(pick(rng, o2.BREAKS)) * (1 + float(rng.uniform(-.1, .1)))
            yield dict(what='limit', t=t if k < .9 else max(1, int(t)))

    def limit(self, c, bad):
        m = sub('mask')
        for k, f in o2.MASKS.items():
            v = quiet(getattr(m, k), c['t'])
            cmp(bad, '%s(%r)' % (k, c['t']), v, f(c['t']), 1e-9)
            u = c['t'] * 1.001
            if not v >= 0 or v > quiet(getattr(m, k), u) * 1.001:
                bad.append('%s decreases after %r' % (k, c['t']))
