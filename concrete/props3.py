"""Concrete contract checks: gaps, covariances, selection, conversion, relations."""
import math
import numpy as np
from . import gen, oracle, oracle2 as o2
from .props import prop, quiet, close, at, compare_rows, tausarg, container
from .props2 import Base, pick, cmp, interval, sub


def holes(rng, N):
    k = int(rng.integers(0, 6))
    g = np.zeros(N, bool)
    if k == 1:
        g = rng.random(N) < .1
    if k == 2:
        g = rng.random(N) < .4
    if k == 3 and N > 3:
        a = int(rng.integers(0, N))
        g[a:a + int(rng.integers(1, N // 2 + 1))] = True
    if k == 4:
        g[:int(rng.integers(0, 4))] = True
        g[N - int(rng.integers(0, 4)):] = True
    if k == 5:
        g[::int(rng.integers(2, 6))] = True
    return g


@prop('C10')
class C10(Base):
    def cases(self, rng, tier, hints=()):
        C = gen.code_constants()
        while True:
            N = max(4, gen.size(rng, tier, C, 160))
            r = float(pick(rng, gen.RATES))
            yield dict(what='gaps', x=gen.series(rng, N), g=[int(i) for i in np.where(holes(rng, N))[0]], rate=r, taus=gen.taus_for(rng, N, r), ci=float(pick(rng, [.9, .68, .95, .5, .99])),
                       noise=pick(rng, ['wp', 'fp', 'wf', 'ff', 'rf']), defaults=bool(rng.random() < .2), kind=pick(rng, ['array', 'array', 'list']))

    def gaps(self, c, bad):
        x = np.array(c['x'], float)
        x[c['g']] = np.nan
        kw = {} if c['defaults'] else dict(ci=c['ci'], noisetype=c['noise'])
        lev, noise = (.9, 'wp') if c['defaults'] else (c['ci'], c['noise'])
        r, N = c['rate'], len(x)
        alpha = {'wp': 2, 'fp': 1, 'wf': 0, 'ff': -1, 'rf': -2}[noise]
        P = int(np.sum(~np.isnan(x)))

        def exp(m):
            d = x[2 * m:] - 2 * x[m:N - m] + x[:N - 2 * m]
            d = d[~np.isnan(d)]
            return (np.sqrt(np.mean(d * d) / 2) / (m / r) if len(d) else np.nan), len(d)
        want = [m for m in range(1, N) if 2 * m < N and exp(m)[1] > 1]
        try:
            out = quiet(at().gradev, x if c['kind'] == 'array' else [float(v) for v in x], rate=r, taus=tausarg(c['taus']), **kw)
        except UserWarning:
            if c['taus'] == 'all' and want:
                bad.append('no rows although averaging factors %r qualify' % want[:5])
            return
        t, d, e, n = out
        if len(e) != 2 or not len(t) == len(d) == len(n) == len(e[0]) == len(e[1]):
            bad.append('columns are not aligned')
            return
        got = [int(round(v * r)) for v in t]
        if c['taus'] == 'all' and got != want:
            bad.append('rows %r, expected %r' % (got[:20], want[:20]))
        for i, m in enumerate(got):
            wd, wn = exp(m)
            amp = np.nanmax(np.abs(x)) * r / m * 1e-3
            if n[i] != wn or wn <= 1:
                bad.append('m=%d: n=%r, expected %r' % (m, n[i], wn))
            if not close(t[i], m / r):
                bad.append('m=%d: tau=%r' % (m, t[i]))
            if not close(d[i], wd, amp):
                bad.append('m=%d: dev=%r, expected %r' % (m, d[i], wd))
            try:
                edf = o2.edf_simple(P, m, alpha)
            except (ValueError, ZeroDivisionError):
                continue
            if wn > 1 and edf > 1e-3 and wd > 1e-6 * amp:
                lo, hi = interval(wd, edf, lev)
                if not close(e[0][i], wd - lo, amp) or not close(e[1][i], hi - wd, amp):
                    bad.append('m=%d %s: errors %r %r, expected %r %r' % (m, noise, e[0][i], e[1][i], wd - lo, hi - wd))
