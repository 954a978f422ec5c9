"""Definitions for confidence intervals, degrees of freedom, noise identification, noise generation and masks."""
import math
from math import comb
import numpy as np
from . import oracle


# ---------------------------------------------------------------- masks: (upper end, inclusive, slope, level)
def _pw(*ps):
    def f(t):
        for hi, incl, a, b in ps:
            if hi is None or t < hi or (incl and t == hi):
                return a * t + b
    return f


MASKS = {
    'prc_tdev': _pw((100, 0, 0, 3e-9), (1000, 0, .03e-9, 0), (None, 0, 0, 30e-9)),
    'prc_mtie': _pw((1000, 0, .275e-9, .025e-6), (None, 0, 1e-11, .29e-6)),
    'eprtc_tdev': _pw((30000, 0, 0, 1e-9), (300000, 0, 3.33333e-14, 0), (None, 0, 0, 10e-9)),
    'eprtc_mtie': _pw((1, 1, 0, 4e-9), (100, 1, .11114e-9, 3.89e-9), (400000, 1, .0375e-12, 15e-9), (None, 0, 0, 30e-9)),
    'prtcA_tdev': _pw((100, 0, 0, 3e-9), (1000, 0, .03e-9, 0), (None, 0, 0, 30e-9)),
    'prtcB_tdev': _pw((100, 0, 0, 1e-9), (500, 0, .01e-9, 0), (None, 0, 0, 5e-9)),
    'prtcA_mtie': _pw((273, 0, .275e-9, .025e-6), (None, 0, 0, 100e-9)),
    'prtcB_mtie': _pw((54.5, 0, .275e-9, .025e-6), (None, 0, 0, 40e-9)),
}
BREAKS = [1, 54.5, 100, 273, 500, 1000, 30000, 300000, 400000]


# ---------------------------------------------------------------- degrees of freedom
def edf_simple(N, m, a):
    if a == 2:
        return (N + 1) * (N - 2 * m) / (2 * (N - m))
    if a == 1:
        return math.exp(math.sqrt(math.log((N - 1) / (2 * m)) * math.log((2 * m + 1) * (N - 1) / 4)))
    if a == 0:
        return (3 * (N - 1) / (2 * m) - 2 * (N - 2) / N) * 4 * m * m / (4 * m * m + 5)
    if a == -1:
        return 2 * (N - 2) ** 2 / (2.3 * N - 4.9) if m == 1 else 5 * N * N / (4 * m * (N + 3 * m))
    if a == -2:
        return (N - 2) / (m * (N - 3) ** 2) * ((N - 1) ** 2 - 3 * m * (N - 1) + 4 * m * m)


T7 = {0: (1.5, 0), -1: (1.17, .22), -2: (.93, .36)}
T8 = {2: (1.9, 2.1), 1: (1.2, 1.4), 0: (1.1, 1.2), -1: (.85, .5), -2: (.75, .31)}


def edf_totdev(N, m, a):
    return T7[a][0] * N / m - T7[a][1] if a in T7 else edf_simple(N, m, a)


def edf_mtotdev(N, m, a):
    return T8[a][0] * N / m - T8[a][1]


def sw(t, a):
    if a == 2:
        return -abs(t)
    if a % 2:
        return 0.0 if t == 0 else t ** (3 - a) * math.log(abs(t))
    return abs(t) ** (3 - a)


def sx(t, f, a):
    if f == math.inf:
        return sw(t, a + 2)
    return f * f * (2 * sw(t, a) - sw(t - 1 / f, a) - sw(t + 1 / f, a))


def sz(t, f, a, d):
    return sum((-1) ** k * comb(2 * d, d + k) * sx(t + k, f, a) for k in range(-d, d + 1))


def bsum(J, M, S, f, a, d):
    z = lambda j: sz(j / S, f, a, d) ** 2
    return z(0) + (1 - J / M) * z(J) + 2 * sum((1 - j / M) * z(j) for j in range(1, int(J)))


TAB1 = {2: [(2 / 3, 1 / 3), (7 / 9, 1 / 2), (22 / 25, 2 / 3)], 1: [(.840, .345), (.997, .616), (1.141, .843)],
        0: [(1.079, .368), (1.033, .607), (1.184, .848)], -1: [None, (1.048, .534), (1.180, .816)],
        -2: [None, (1.302, .535), (1.175, .777)], -3: [None, None, (1.194, .703)], -4: [None, None, (1.489, .702)]}
TAB2 = {2: [(3 / 2, 1 / 2), (35 / 18, 1), (231 / 100, 3 / 2)], 1: [(78.6, 25.2), (790, 410), (9950, 6520)],
        0: [(2 / 3, 1 / 6), (2 / 3, 1 / 3), (7 / 9, 1 / 2)], -1: [None, (.852, .375), (.997, .617)],
        -2: [None, (1.079, .368), (1.033, .607)], -3: [None, None, (1.053, .553)], -4: [None, None, (1.302, .535)]}
TAB3 = [(6, 4), (15.23, 12), (47.8, 40)]


class Refused(Exception):
    pass


def greenhall(a, d, m, N, overlapping=False, modified=False):
    """None where the specification leaves the choice of asymptotic form open"""
    f, s = (1 if modified else m), (m if overlapping else 1)
    L = m / f + m * d
    if N < L:
        return None
    M = 1 + math.floor(s * (N - L) / m)
    J = min(M, (d + 1) * s)
    r = M / s
    if J > 100 and abs(r - (d + 1)) < 1e-9:
        return None
    mp = 100 / r
    small, large = J <= 100, r > d + 1
    z0 = lambda x: sz(0, x, a, d) ** 2
    if modified:
        if small:
            inv = bsum(J, M, s, 1, a, d) / (z0(1) * M)
        elif large:
            a0, a1 = TAB1[a][d - 1]
            inv = (a0 - a1 / r) / r
        else:
            inv = bsum(100, 100, mp, 1, a, d) / (z0(1) * 100)
    elif a <= 0:
        if small:
            x = m if m * (d + 1) <= 100 else math.inf
            inv = bsum(J, M, s, x, a, d) / (z0(x) * M)
        elif large:
            a0, a1 = TAB2[a][d - 1]
            inv = (a0 - a1 / r) / r
        else:
            inv = bsum(100, 100, mp, math.inf, a, d) / (z0(math.inf) * 100)
    elif a == 1:
        b0, b1 = TAB3[d - 1]
        g = (b0 + b1 * math.log(m)) ** 2
        if small:
            inv = bsum(J, M, s, m, 1, d) / (z0(m) * M)
        elif large:
            a0, a1 = TAB2[1][d - 1]
            inv = (a0 - a1 / r) / (g * r)
        else:
            inv = bsum(100, 100, mp, mp, 1, d) / (g * 100)
    else:
        if math.ceil(r) <= d:
            raise Refused()
        inv = (comb(4 * d, 2 * d) / comb(2 * d, d) ** 2 - d / (2 * r)) / M
    return 1 / inv


# ---------------------------------------------------------------- noise identification
def acf1(x):
    z = np.asarray(x, float) - np.mean(x)
    return np.sum(z[:-1] * z[1:]) / np.sum(z * z)


def noise_id(x, af, dtype, dmin, dmax):
    """(alpha_int, alpha, d, rho), None for a refused length, 'unclear' when a decision hangs on rounding"""
    x = np.asarray(x, float)
    if dtype == 'phase':
        x, deg, two = x[::af], 2, 2
    else:
        n = len(x) // af
        x, deg, two = np.mean(x[:n * af].reshape(n, af), axis=1), 1, 0
    if len(x) < 30:
        return None
    V = np.vander(np.linspace(-1, 1, len(x)), deg + 1)
    x = x - V @ np.linalg.lstsq(V, x, rcond=None)[0]
    d = 0
    while True:
        r1 = acf1(x)
        rho = r1 / (1 + r1)
        if d >= dmin and d < dmax and abs(rho - .25) < 1e-7:
            return 'unclear'
        if d >= dmin and (rho < .25 or d >= dmax):
            if abs(abs((2 * rho) % 1) - .5) < 1e-7:
                return 'unclear'
            return (-int(np.round(2 * rho)) - 2 * d + two, -2 * (rho + d) + two, d, rho)
        x = np.diff(x)
        d += 1


def rn(x, af, rate):
    return (oracle.mdev(x, af, rate)[0] / oracle.adev(x, af, rate)[0]) ** 2


def b1(x, af, rate):
    y = rate * np.diff(np.asarray(x, float))
    n = len(y) // af
    return np.var(np.mean(y[:n * af].reshape(n, af), axis=1), ddof=1) / oracle.adev(x, af, rate)[0] ** 2


def rn_theory(af, b):
    if b == 0:
        return 1 / af
    if b == -1:
        return (3 * math.log(256 / 27) / 8) / ((1.038 + 3 * math.log(math.pi * af)) / 4)
    return 1.0


def b1_theory(N, mu):
    if mu == 0:
        return N * math.log(N) / (2 * (N - 1) * math.log(2))
    return N * (1 - N ** float(mu)) / (2 * (N - 1) * (1 - 2.0 ** mu))


MU = {0: -2, -1: -2, -2: -1, -3: 0, -4: 1, -5: 2, -6: 3}

# ---------------------------------------------------------------- Kasdin noise
EXP = {'a': {0: -2, -1: -2, -2: -1, -3: 0, -4: 1}, 'm': {0: -3, -1: -2, -2: -1, -3: 0, -4: 1}}


def kasdin(w, b):
    n = len(w)
    h = np.ones(n)
    for k in range(1, n):
        h[k] = h[k - 1] * (k - 1 - b / 2) / k
    return np.convolve(w, h)[:n]


def kasdin_closed(b, qd, t0, tau):
    pi2, L = math.pi ** 2, math.log
    g = 2 * qd * (2 * math.pi) ** b * t0 ** (b + 1)
    h = 2 * qd * (2 * math.pi) ** (b + 2) * t0 ** (b + 1)
    fh = .5 / t0
    ca = {0: 3 * fh / (4 * pi2), -1: (3 * .5772156649015329 - L(2) + 3 * L(2 * math.pi * fh * tau)) / (4 * pi2), -2: .5, -3: 2 * L(2), -4: 2 * pi2 / 3}[b]
    cm = {0: 3 / (8 * pi2), -1: (24 * L(2) - 9 * L(3)) / (8 * pi2), -2: .25, -3: 27 / 20 * L(2), -4: 11 * pi2 / 20}[b]
    cp = {0: 3 / (2 * pi2), -1: (3 * L(16) - 1) / (2 * pi2), -2: .6, -3: 2 * (7 - L(16)) / 5, -4: 26 * pi2 / 35}[b]
    return dict(phase_psd_from_qd=g, frequency_psd_from_qd=h, adev_from_qd=math.sqrt(ca * h), mdev_from_qd=math.sqrt(cm * h),
                pdev_from_qd=math.sqrt(cp * g * 4 * pi2), adev=math.sqrt(ca * h * tau ** EXP['a'][b]), mdev=math.sqrt(cm * h * tau ** EXP['m'][b]),
                c_avar=EXP['a'][b], c_mvar=EXP['m'][b])


def timmer(f_nodes, h, alpha, duration, timestep, z):
    """z: the standard normal draws, real and imaginary part alternating from the lowest frequency"""
    n = int(duration / timestep)
    half = n // 2
    f = np.linspace(1 / ((n - 1) * timestep), .5 / timestep, half + 1)
    seg = np.searchsorted(np.asarray(f_nodes, float), f, side='right') if len(f_nodes) else np.zeros(half + 1, int)
    Sx = np.asarray(h, float)[seg] * f ** np.asarray(alpha, float)[seg] / (2 * np.pi * f) ** 2
    X = np.zeros(n, complex)
    for j in range(1, half + 1):
        X[j] = np.sqrt(Sx[j]) / 2 * (z[2 * (j - 1)] + 1j * z[2 * (j - 1) + 1])
        if 2 * j < n:
            X[n - j] = np.conj(X[j])
    k = np.arange(n)
    x = np.array([np.sum(X * np.exp(2j * np.pi * k * q / n)) for q in range(n)]).real / n
    return x * np.sqrt((n - 1) / timestep)
