"""Concrete side of C29: Allan deviations from a sampled spectrum."""
import math
import numpy as np
from .props import close, quiet, prop, at
from .props2 import Base, pick


@prop('C29')
class C29(Base):
    def cases(self, rng, tier, hints=()):
        while True:
            if rng.random() < .03:
                yield dict(what='refuse', how=pick(rng, ['list', 'tuple f', 'list f']), n=int(rng.integers(4, 12)))
                continue
            n = int(rng.integers(4, 90))
            df = pick(rng, [1, 2, 0.1, 0.3, 0.7, 1 / 3, 1e-4 / 3, 3e6, 7.1e-9, 0.25, 'random'])
            if df == 'random':
                df = float(10 ** rng.uniform(-6, 6))
            k = rng.random()
            S = 10 ** rng.uniform(-3, 3, size=n) if k < .3 else np.ones(n) if k < .5 else 1 / (1.0 + np.arange(n)) if k < .7 else rng.uniform(0, 1, size=n)
            yield dict(what='psd', S=[float(v) for v in S], df=df, form=pick(rng, ['step', 'vector', 'default']) if df == 1 else pick(rng, ['step', 'vector', 'shifted']),
                       kind=pick(rng, ['adev', 'mdev', 'a', 'M', 'ADEV', 'default']), base=pick(rng, [2, 2, 'default', 10, 1.5, 3, 1, 0]))

    def psd(self, c, bad):
        from scipy.interpolate import CubicSpline
        S, df = np.array(c['S']), c['df']
        n = len(S)
        a, kw = [S.copy()], {}
        if c['form'] == 'step':
            a.append(df)
        elif c['form'] != 'default':
            a.append(df * (np.arange(n) + (3 if c['form'] == 'shifted' else 0)))
            df = float(a[1][1] - a[1][0])
        if c['kind'] != 'default':
            kw['kind'] = c['kind']
        if c['base'] != 'default':
            kw['base'] = c['base']
        base = kw.get('base', 2)
        e = 2 if c['kind'][0].lower() == 'm' else 1
        t, d = [np.asarray(v, float) for v in quiet(at().psd2allan, *a, **kw)]
        if t.shape != d.shape or t.ndim != 1:
            bad.append('columns of shape %r and %r' % (t.shape, d.shape))
            return
        fmax, half = (n - 1) * df, (n - 1) / 2.0
        m = np.round(t * fmax)
        if not np.allclose(t * fmax, m, rtol=1e-9, atol=0) or (m < 1).any() or (np.diff(m) <= 0).any():
            bad.append('taus %r are not increasing multiples of 1/f_max = %r' % (list(t), 1 / fmax))
            return
        got = set(int(v) for v in m)
        if base > 1:
            # a power within rounding of the limit may be in or out
            may = set()
            i = 0
            while base ** i <= half * (1 + 1e-9):
                may.add(int(round(float(base) ** i)))
                i += 1
            must = set(int(round(float(base) ** j)) for j in range(i - 1) if base ** (j + 1) <= half * (1 - 1e-9))
            ends = set([int(math.floor(half + .5)), int(math.ceil(half - .5))])
            if not must <= got or not got <= may | ends or not got & ends:
                bad.append('%d samples, base %r: multiples %r of 1/f_max' % (n, base, sorted(got)))
        else:
            lo, hi = int(math.ceil(half * (1 - 1e-9) - 1)), int(math.ceil(half * (1 + 1e-9) - 1))
            if got not in (set(range(1, lo + 1)), set(range(1, hi + 1))):
                bad.append('%d samples, every tau: multiples %r of 1/f_max' % (n, sorted(got)))
        x = np.arange(4 * (n - 1) + 1) / 4.0
        sy = CubicSpline(np.arange(n), S, bc_type='not-a-knot')(x)
        w = np.ones(len(x))
        w[1:-1:2], w[2:-1:2] = 4, 2
        for j, mj in enumerate(m):
            z = np.pi * x[1:] * mj / (n - 1)
            g = np.concatenate(([0.0], sy[1:] * (np.sin(z) ** (e + 1) / z ** e) ** 2)) * w
            v, top = df / 6 * g.sum(), df / 6 * np.abs(g).sum()
            if v < 1e-9 * top:
                continue        # the interpolated density is negative: no deviation defined
            if not close(d[j] ** 2, v, 1e-1 * top):
                bad.append('row %d (m=%d): variance %r, expected %r' % (j, mj, d[j] ** 2, v))
                break

    def refuse(self, c, bad):
        S = np.ones(c['n'])
        f = np.arange(c['n']) * 0.5
        try:
            quiet(at().psd2allan, *((list(S), 1.0) if c['how'] == 'list' else (S, tuple(f)) if c['how'] == 'tuple f' else (S, list(f))))
        except ValueError:
            return
        bad.append('%s: not refused' % c['how'])
