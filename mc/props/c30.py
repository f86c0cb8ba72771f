"""Loan payoff, smoothing kernel and the two estimating equations of the modified Merton model."""
import itertools
import math

import numpy as np

from mc import impl

ID = "C30"
BOUNDS = (
    "smoothing: every even length up to 24 (thorough 40) and even window up to length-2 x a unit spike at every position x superposition of every pair of spikes, "
    "odd lengths and windows; loan payoff: every point of a grid of 6 face values x 9 factors x 3 asset values x 4 correlations x 5 volatilities x 3 maturities as "
    "scalars and arrays, against the closed form and against quadrature; the yield equation and the Merton equations at every point of a grid, negative estimates included"
)
PHI = lambda x: 0.5 * math.erfc(-x / math.sqrt(2))
FACE = (0.05, 0.6, 0.9, 1.0, 3.0, 40.0)
FAC = (-3.0, -1.2, -0.4, -0.05, 0.0, 0.1, 0.5, 1.5, 4.0)
IVAL = (math.log(0.66 / 0.7), -0.5, 0.0)
RHO = (0.0, 0.2, 0.5, 0.99)
SIG = (0.02, 0.1, 0.2, 0.8, 2.0)
MAT = (0.5, 5.0, 10.0)
GX, GW = np.polynomial.legendre.leggauss(48)


def cases(tier):
    q = tier == "quick"
    for n in range(2, 26 if q else 42):
        yield {"smooth": n}
    for n in (60, 100, 400, 2050, 11000) if q else (60, 100, 400, 1000, 2050, 4096, 11000, 70000):
        yield {"smooth": n}
    for rho, sig in itertools.product(RHO, SIG if q else SIG + (0.005, 0.35, 1.0)):
        yield {"loan": 1, "rho": rho, "sig": sig}
    for i in range(4 if q else 8):
        yield {"face": i}
    for i in range(4 if q else 8):
        yield {"merton": i}


def smooth_ref(x, w):
    n, h = len(x), w // 2
    if n > 2000:
        from fractions import Fraction
        tot, acc = [Fraction(0)], Fraction(0)
        for v in x:
            acc += Fraction(v)
            tot.append(acc)
        mid = {i: float((tot[i + h + 1] - tot[i - h + 1]) / w) for i in range(h, n - h)}
    else:
        mid = {i: math.fsum(x[i - h + 1:i + h + 1]) / w for i in range(h, n - h)}
    dl, du = (mid[h + 1] - mid[h], mid[n - h - 1] - mid[n - h - 2]) if len(mid) > 1 else (None, None)
    return [mid[i] if i in mid else mid[h] - (h - i) * dl if i < h else mid[n - h - 1] + (i - (n - h - 1)) * du for i in range(n)]


def smooth(case, X):
    f, n = impl.native.fftsmooth.fftsmooth, case["smooth"]
    if n % 2:
        for w in range(2, n + 1):
            X.state(n, w)
            X.edge()
            rejected(X, f, np.arange(float(n)), w)
        return
    ws = list(range(2, n)) if n < 50 else sorted({2, n // 20 // 2 * 2, n // 2 // 2 * 2, n - 2} if n > 2000 else {2, 4, 6, 8, 10, n // 20 // 2 * 2 or 2, n // 4 * 2, n - 4, n - 3, n - 2, 3, 5})
    for w in ws:
        if w % 2:
            X.state(n, w)
            X.edge()
            rejected(X, f, np.arange(float(n)), w)
            continue
        out = []
        pos = range(n) if n < 50 else sorted({0, w // 2, n // 2, n - 1} if n > 2000 else set(range(0, n, max(1, n // 25))) | {1, 2, w // 2 - 1, w // 2, w // 2 + 1, n - w // 2 - 1, n - w // 2, n - 2, n - 1})
        for k in pos:
            X.state(n, w, k)
            X.edge()
            X.trace()
            x = [0.0] * n
            x[k] = 1.0
            got = f(np.array(x), w)
            X.true(np.isrealobj(got) and np.shape(got) == (n,), "the smoothed series is not a real series of the same length", n=n, window=w)
            X.same(got, smooth_ref(x, w), "smoothed unit spike", rtol=1e-9, atol=1e-11, n=n, window=w, spike=k)
            out.append(got)
        if n <= 12:
            for (i, a), (j, b) in itertools.product(enumerate(out), repeat=2):
                X.edge()
                x = np.zeros(n)
                x[i] += 3.0
                x[j] -= 0.5
                X.same(f(x, w), 3 * a - 0.5 * b, "smoothing is not linear", rtol=1e-9, atol=1e-10, n=n, window=w, spikes=(i, j))
        for x in (np.arange(n) * 0.25 + 3, np.sort(np.cos(np.arange(n) * 1.7)), 1e6 + np.arange(n) % 7.0, np.where(np.arange(n) < n // 3, 1e-9, 5e3)):
            X.edge()
            X.trace()
            x0 = x.copy()
            s = float(np.max(np.abs(x)))
            got = f(x, w)
            X.same(got, smooth_ref(x.tolist(), w), "smoothed series", rtol=1e-9, atol=1e-11 * max(1, s) * n, n=n, window=w)
            X.same(f(np.repeat(x, 2)[::2], w), got, "smoothed series of another layout", rtol=1e-12, atol=1e-12 * s)
            X.true((x == x0).all(), "the series was modified", n=n, window=w)
            X.outcome(round(float(got[-1]), 6))
    X.sample({"n": n, "windows": len(ws)})


def rejected(X, f, x, w):
    try:
        got = f(x, w)
    except Exception:
        return
    # whatever is accepted has to be the smoothed series
    X.fail("an odd number of observations or window is accepted", n=len(x), window=w, got=got)


def payoff(F, f, ival, rho, sig, T):
    s = sig * math.sqrt(T * (1 - rho))
    EA = math.exp(f + ival + s * s / 2)
    a = (math.log(F) - f - ival) / s
    return EA, EA * PHI(a - s) + F * PHI(-a)


def quad(F, f, ival, rho, sig, T):
    """E[min(exp(f + ival + s z), F)] by Gauss-Legendre panels up to the kink, plus the certain part."""
    s = sig * math.sqrt(T * (1 - rho))
    a = (math.log(F) - f - ival) / s
    lo = -12.0
    if a <= lo:
        return F
    hi = min(a, 12.0 + s)
    n = max(1, int((hi - lo) / 1.5))
    tot = 0.0
    for k in range(n):
        p, q = lo + (hi - lo) * k / n, lo + (hi - lo) * (k + 1) / n
        z = (q - p) / 2 * GX + (p + q) / 2
        tot += (q - p) / 2 * float(np.sum(GW * np.exp(f + ival + s * z - z * z / 2))) / math.sqrt(2 * math.pi)
    return tot + F * PHI(-a)


def loan(case, X):
    g = impl.native.loan_payoff.loan_payoff
    rho, sig = case["rho"], case["sig"]
    for ival, T in itertools.product(IVAL, MAT):
        vals = np.zeros((len(FACE), len(FAC)))
        for (i, F), (j, f) in itertools.product(enumerate(FACE), enumerate(FAC)):
            X.state(F, f, ival, rho, sig, T)
            X.edge()
            X.trace()
            d = dict(F=F, f=f, ival=ival, rho=rho, sig=sig, T=T)
            got = float(g(F, f, ival, rho, sig, T))
            EA, want = payoff(F, f, ival, rho, sig, T)
            tol = 1e-13 * EA + 1e-11 * F
            X.same(got, want, "loan payoff", rtol=1e-9, atol=tol, **d)
            X.same(got, quad(F, f, ival, rho, sig, T), "loan payoff by quadrature", rtol=1e-7, atol=1e-9 * F + tol, **d)
            X.true(-tol <= got <= min(EA, F) + tol, "payoff outside [0, min(asset value, face value)]", payoff=got, asset=EA, **d)
            X.true(j == 0 or got >= vals[i, j - 1] - tol, "payoff decreases in the factor", **d)
            X.true(i == 0 or got >= vals[i - 1, j] - tol, "payoff decreases in the face value", **d)
            vals[i, j] = got
            X.outcome(round(got, 9))
        scale = np.array(FACE)[:, None] + np.exp(np.array(FAC) + ival + sig * sig * T / 2)[None, :]
        m = np.array([FAC] * len(FACE))
        Fm = np.array([FACE] * len(FAC)).T
        for a, b, w in ((Fm, m, "a matrix of face values"), (np.asfortranarray(Fm), np.asfortranarray(m), "column-major matrices")):
            X.edge()
            X.trace()
            a0, b0 = a.copy(), b.copy()
            X.true(np.max(np.abs(g(a, b, ival, rho, sig, T) - vals) / scale) < 1e-11, "payoffs of %s" % w, rho=rho, sig=sig, ival=ival, T=T)
            X.true((a == a0).all() and (b == b0).all(), "the inputs were modified")
        for i, F in enumerate(FACE):
            X.edge()
            X.trace()
            X.true(np.max(np.abs(g(F, np.array(FAC), ival, rho, sig, T) - vals[i]) / scale[i]) < 1e-11, "payoffs of one face value", F=F, rho=rho, sig=sig)
        # collateral values that differ across paths
        iv = np.array([ival, ival + 0.3, ival - 0.7])
        got = g(np.full(3, FACE[1]), np.zeros(3), iv, rho, sig, T)
        want = [payoff(FACE[1], 0.0, v, rho, sig, T) for v in iv]
        X.same(got, [w[1] for w in want], "payoffs of several asset values", rtol=1e-9, atol=1e-11 + 1e-13 * max(w[0] for w in want))
    X.sample(case)


def put(S, K, r, T, s, q):
    d1 = (math.log(S / K) + (r - q + s * s / 2) * T) / (s * math.sqrt(T))
    d2 = d1 - s * math.sqrt(T)
    c = S * math.exp(-q * T) * PHI(d1) - K * math.exp(-r * T) * PHI(d2)
    return c, K * math.exp(-r * T) * PHI(-d2) - S * math.exp(-q * T) * PHI(-d1), d1


def face(case, X):
    g = impl.native.face.find_face_value_indiv
    sig = (0.05, 0.2, 0.4, 0.8, 0.1, 0.15, 0.6, 1.5)[case["face"]]
    for mu, F, ival, T, r, d in itertools.product((-0.01, 0.0, 0.02, 0.2), (0.3, 0.66, 1.0, 2.0), (-0.5, 0.0, 0.06), (0.5, 5.0, 10.0), (-0.01, 0.0, 0.03), (0.0, 0.005, 0.05)):
        X.state(sig, mu, F, ival, T, r, d)
        X.edge()
        X.trace()
        p = put(math.exp(ival), F, r, T, sig, d)[1]
        L = F * math.exp(-r * T) - p
        want = mu - math.log(F / L) / T
        got = g(mu, F, ival, sig, T, r, d)
        X.same(float(got), want, "error of the promised yield", rtol=1e-8, atol=1e-9, sig=sig, mu=mu, F=F, ival=ival, T=T, r=r, d=d)
        X.outcome(round(want, 9))
    # the equation as it is solved: an array of one yield and its face value
    for mu in (0.0, 0.02):
        F = 0.66 * np.exp(np.array([mu]) * 10)
        got = g(np.array([mu]), F, 0.0, sig, 10.0, 0.01, 0.005)
        X.same(got, [mu - math.log(F[0] / (F[0] * math.exp(-0.1) - put(1.0, F[0], 0.01, 10.0, sig, 0.005)[1])) / 10], "error of an array", rtol=1e-8, atol=1e-9)
    X.sample({"sig": sig})


def merton(case, X):
    g = impl.native.merton.merton_solution
    sE = (0.1, 0.33, 0.67, 1.5, 0.05, 0.2, 0.9, 3.0)[case["merton"]]
    for A, s, E, D, r, d, T in itertools.product(
            (-2.0, -0.1, -1e-3, 0.05, 0.5, 0.68, 1.3, 20.0), (-1.0, -0.2, -1e-3, 0.01, 0.15, 0.33, 1.0), (0.01, 0.2, 1.0), (0.4, 0.7, 1.1), (0.0, 0.01, 0.06), (0.0, 0.002, 0.1), (1.0, 5.0)):
        X.state(A, s, E, D, r, d, T, sE)
        X.edge()
        X.trace()
        pen = 9999999 * ((A * A if A < 0 else 0) + (s * s if s < 0 else 0))
        a, v = max(A, 0.0), max(s, 0.0)
        # limits of the option value and its delta as the asset value or the volatility vanish
        F, K = a * math.exp(-d * T), D * math.exp(-r * T)
        if a == 0:
            c, n1 = 0.0, 0.0
        elif v == 0:
            c, n1 = max(F - K, 0.0), 1.0 if F > K else 0.0
        else:
            c, _, d1 = put(a, D, r, T, v, d)
            n1 = PHI(d1)
        div = 1 - math.exp(-d * T)
        want = [E - c - a * div + pen, sE - (math.exp(-d * T) * n1 + div) * a / E * v + pen]
        for x in ((A, s), [A, s], np.array([A, s])):
            x0 = list(x)
            got = g(x, E, D, r, d, T, sE)
            X.same([float(v) for v in got], want, "errors of the Merton equations", rtol=1e-8, atol=1e-9, x=(A, s), E=E, D=D, r=r, d=d, T=T, sigE=sE)
            X.true(list(x) == x0, "the estimates were modified")
        X.outcome((round(want[0], 9), round(want[1], 9)))
    X.sample({"sigE": sE})


def run(case, X):
    for k, f in (("smooth", smooth), ("loan", loan), ("face", face), ("merton", merton)):
        if k in case:
            f(case, X)
