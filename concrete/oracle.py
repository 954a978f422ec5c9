"""Definitions of the statistics, written directly from the property statements (numpy, float64).

Executable form of the contracts that pyded discharges symbolically; used to confirm and replay
violations on the real code and as a labelled bounded stand-in."""
import numpy as np


def f2p(y, rate):
    y = np.asarray(y, float)
    good = np.where(~np.isnan(y))[0]
    y = y[good[0]:good[-1] + 1] if len(good) else y[:0]
    y = y - np.nanmean(y)
    return np.concatenate([[0.0], np.cumsum(y) / rate])


def D2(x, m, stride=1):
    N = len(x)
    n = (N - 1) // m - 1 if stride == m and stride != 1 else N - 2 * m
    i = np.arange(max(n, 0)) * stride
    return x[i + 2 * m] - 2 * x[i + m] + x[i]


def D3(x, m, stride=1):
    N = len(x)
    n = (N - 1) // m - 2 if stride == m and stride != 1 else N - 3 * m
    i = np.arange(max(n, 0)) * stride
    return x[i + 3 * m] - 3 * x[i + 2 * m] + 3 * x[i + m] - x[i]


def _rms(s, k, tau):
    n = len(s)
    return (np.sqrt(np.sum(s * s) / n / (k * tau * tau)) if n > 0 else np.nan), n


def adev(x, m, r):
    d, n = _rms(D2(x, m, m), 2, m / r)
    return d, n, d / np.sqrt(max(n, 1))


def oadev(x, m, r):
    d, n = _rms(D2(x, m), 2, m / r)
    return d, n, d / np.sqrt(max(n, 1))


def hdev(x, m, r):
    d, n = _rms(D3(x, m, m), 6, m / r)
    return d, n, d / np.sqrt(max(n, 1))


def ohdev(x, m, r):
    d, n = _rms(D3(x, m), 6, m / r)
    return d, n, d / np.sqrt(max(n, 1))


def mdev(x, m, r):
    s2 = D2(x, m)
    n = len(x) - 3 * m + 1
    if n <= 0:
        return np.nan, n, np.nan
    w = np.array([np.sum(s2[j:j + m]) for j in range(n)])
    tau = m / r
    d = np.sqrt(np.sum(w * w) / (2.0 * m * m * tau * tau * n))
    return d, n, d / np.sqrt(n)


def tdev(x, m, r):
    d, n, _ = mdev(x, m, r)
    d = m / r * d / np.sqrt(3)
    return d, n, d / np.sqrt(max(n, 1))


def pdev(x, m, r):
    if m == 1:
        return oadev(x, m, r)
    M = len(x) - 2 * m
    if M <= 0:
        return np.nan, M, np.nan
    k = np.arange(m)
    w = (m - 1) / 2.0 - k
    s = 0.0
    for i in range(M):
        s += np.sum(w * (x[i + k] - x[i + k + m])) ** 2
    d = np.sqrt(72.0 * s / (M * float(m) ** 4 * (m / r) ** 2))
    return d, M, d / np.sqrt(M)


def totdev(x, m, r):
    N = len(x)
    left = 2 * x[0] - x[1:N - 1][::-1]
    right = 2 * x[-1] - x[1:N - 1][::-1]
    e = np.concatenate([left, x, right])
    o = N - 2
    i = np.arange(1, N - 1) + o
    s = e[i - m] - 2 * e[i] + e[i + m]
    d = np.sqrt(np.sum(s * s) / (2 * (m / r) ** 2 * (N - 2)))
    return d, N - 2, d / np.sqrt(N - 2)


def _sub(seg, m, centre):
    n3 = 3 * m
    h = n3 // 2
    lo, hi = np.mean(seg[:h]), np.mean(seg[n3 - h:])
    dist = 0.5 * n3 if m % 2 == 0 else 0.5 * (n3 + 1)
    sl = (hi - lo) / dist
    y = seg - sl * (np.arange(n3) - centre)
    e = np.concatenate([y[::-1], y, y[::-1]])
    c = np.concatenate([[0.0], np.cumsum(e)])
    j = np.arange(6 * m)
    avg = lambda a: (c[j + a + m] - c[j + a]) / m
    z = avg(0) - 2 * avg(m) + avg(2 * m)
    return np.sum(z * z) / (6.0 * m)


def mtotdev(x, m, r):
    n = len(x) - 3 * m + 1
    if n <= 0:
        return np.nan, n, np.nan
    s = sum(_sub(x[i:i + 3 * m], m, 0) for i in range(n))
    d = np.sqrt(s / (2 * (m / r) ** 2 * n))
    return d, n, d / np.sqrt(n)


def ttotdev(x, m, r):
    d, n, e = mtotdev(x, m, r)
    k = m / r / np.sqrt(3)
    return d * k, n, e * k


def htotdev(y, m, r, x):
    if m == 1:
        return ohdev(x, 1, r)
    n = len(y) - 3 * m + 1
    if n <= 0:
        return np.nan, n, np.nan
    s = sum(_sub(y[i:i + 3 * m], m, 0) for i in range(n))
    d = np.sqrt(s / (6.0 * n))
    return d, n, d / np.sqrt(n)


def theo1(x, m, r):
    N = len(x)
    h = m // 2
    s = 0.0
    for i in range(N - m):
        d = np.arange(h)
        t = (x[i] - x[i - d + h]) + (x[i + m] - x[i + d + h])
        s += np.sum(t * t / (h - d))
    d = np.sqrt(s / (0.75 * (N - m) * (m / r) ** 2))
    return d, (N - m) * h, d / np.sqrt(N - m)


def tierms(x, m, r):
    t = x[m:] - x[:-m]
    return np.sqrt(np.mean(t * t)), len(x) - m, 0.0


def mtie(x, m, r):
    N = len(x)
    v = max(np.max(x[i:i + m + 1]) - np.min(x[i:i + m + 1]) for i in range(N - m))
    return v, N - m, v / np.sqrt(N - m)


def gcodev(x, y, m, r):
    a, b = D2(x, m), D2(y, m)
    n = len(a)
    if n <= 0:
        return np.nan, n, np.nan
    d = np.sqrt(abs(np.mean(a * b)) / 2.0) / (m / r)
    return d, n, d / np.sqrt(n)


def select(N, rate, taus, mx=None, even=False):
    """the averaging factors of the tau selection (lists and arrays of taus)"""
    mx = N if mx is None else mx
    out = sorted(set(int(v) for v in np.round(np.asarray(taus, float) * rate) if 1 <= v < N and v <= mx))
    return [m for m in out if not even or m % 2 == 0]


def keyword(N, rate, kw, mx=None, even=False):
    mx = N if mx is None else mx
    if kw is None or (isinstance(kw, list) and not kw):
        kw = 'octave'
    if kw == 'all':
        c = range(1, N + 1)
    elif kw == 'octave':
        c = [2 ** k for k in range(0, 64) if 2 ** k <= N]
    elif kw == 'decade':
        c = [a * 10 ** k for k in range(0, 18) for a in (1, 2, 4)]
    else:
        raise ValueError(kw)
    return [m for m in sorted(set(c)) if 1 <= m < N and m <= mx and (not even or m % 2 == 0)]


STAT = dict(adev=adev, oadev=oadev, hdev=hdev, ohdev=ohdev, mdev=mdev, tdev=tdev, pdev=pdev, totdev=totdev,
            mtotdev=mtotdev, ttotdev=ttotdev, theo1=theo1, tierms=tierms, mtie=mtie)
