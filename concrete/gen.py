"""Case generation shared by the concrete contract checks."""
import ast
import os
import numpy as np

REPO = os.environ.get('VP_REPO', '/repo')


def code_constants(repo=None):
    """integers that occur in the code: sizes and factors near them are tried as well"""
    repo = repo or REPO
    out = set()
    for f in ('allantools.py', 'realtime.py', 'ci.py', 'noise.py', 'noise_kasdin.py'):
        p = os.path.join(repo, 'allantools', f)
        try:
            t = ast.parse(open(p).read())
        except Exception:
            continue
        for n in ast.walk(t):
            if isinstance(n, ast.Constant) and type(n.value) in (int, float) and 4 <= n.value <= 1500 and n.value == int(n.value):
                out.add(int(n.value))
    return sorted(out)


RATES = [1.0, 1.0, 2.0, 0.5, 10.0, 1 / 3.0, 3.0, 7.3, 1000.0, 0.01, 1, 7e8, 3e-9]


def series(rng, N):
    k = rng.integers(0, 10)
    t = np.arange(N, dtype=float)
    if k <= 2:
        x = rng.normal(size=N)
    elif k == 3:
        x = np.cumsum(rng.normal(size=N))
    elif k == 4:
        x = 3.0 + 0.5 * t + rng.normal(size=N)
    elif k == 5:
        x = rng.integers(-5, 6, size=N).astype(float)
    elif k == 6:
        x = np.zeros(N)
        x[rng.integers(0, N)] = 1.0
    elif k == 7:
        x = 1e-9 * rng.normal(size=N)
    elif k == 8:
        x = 0.01 * t * t + rng.normal(size=N)
    else:
        x = np.sin(0.7 * t) + 0.1 * rng.normal(size=N)
    return [float(v) for v in x]


def taus_for(rng, N, rate):
    k = rng.integers(0, 9)
    if k <= 2:
        return 'all'
    if k == 3:
        return 'octave'
    if k == 4:
        return 'decade'
    if k == 5:
        return None
    hi = max(2, N)
    ms = rng.integers(1, hi + 1, size=int(rng.integers(1, 7)))
    taus = [float(m) / rate for m in ms]
    if k == 7:
        taus += [0.0, -1.0 / rate, (N + 5) / rate, 0.3 / rate]
    if k == 8:
        taus = [t * (1 + 0.03 * (rng.random() - 0.5) / max(ms)) for t in taus]
    rng.shuffle(taus)
    return taus


def size(rng, tier, consts, cap):
    k = rng.random()
    if k < 0.5:
        return int(rng.integers(1, 24))
    if k < 0.85 or not consts:
        return int(rng.integers(10, min(cap, 90) + 1))
    c = consts[int(rng.integers(0, len(consts)))]
    n = c * int(rng.integers(1, 5)) + int(rng.integers(-2, 4))
    return max(1, min(cap, n))
