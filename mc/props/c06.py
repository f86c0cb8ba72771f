"""Dynamic conditional correlation paths."""
import itertools
import math

import numpy as np

from mc import impl, ref

ID = "C06"
BOUNDS = (
    "all pairs of standardized-residual tapes of length 1..4 (thorough 5) over {-1.2,0,0.8} x {-0.9,0.3,2}, 7 (a,b) pairs, variance "
    "patterns, all shock sizes 1e-6..1e4 on almost parallel tapes, {GARCH-DCC, GJR-DCC} x {compiled, pure Python}; spikes at every position of long tapes; memory layouts; paths after "
    "real fits; oracle: scalar recursion on (q11, q22, q12), and |rho| <= 1"
)
A1, A2 = (-1.2, 0.0, 0.8), (-0.9, 0.3, 2.0)
AB = [(0.0, 0.0), (0.05, 0.9), (0.3, 0.6), (0.0, 0.95), (0.5, 0.5), (1.0, 0.0), (0.2, 0.1)]


def cases(tier):
    d = 4 if tier == "quick" else 5
    for v, m, (i, _), x, y in itertools.product(("native", "pure"), ("garch", "gjr"), enumerate(AB), A1, A2):
        yield {"v": v, "m": m, "ab": i, "x": x, "y": y, "depth": d}
    for v, m, T in itertools.product(("native", "pure"), ("garch", "gjr"), (40, 75, 130, 600, 2707, 11003)):
        yield {"v": v, "m": m, "long": T}
    for v, m, s in itertools.product(("native", "pure"), ("garch", "gjr"), range(2 if tier == "quick" else 8)):
        yield {"v": v, "m": m, "fit": s}
    for v, m, (i, _) in itertools.product(("native", "pure"), ("garch", "gjr"), enumerate(AB)):
        yield {"v": v, "m": m, "ab": i, "shocks": 1, "depth": 4 if tier == "quick" else 5}
    for v, m in itertools.product(("native", "pure"), ("garch", "gjr")):
        yield {"v": v, "m": m, "layouts": 1}


def cost(c):
    return 3 if "fit" in c else 2 if "long" in c else 0


def classes(v, m):
    a = v.alg
    return (a.GARCHModel, a.GARCHModel_DCC) if m == "garch" else (a.GJRGARCHModel, a.GJRGARCHModel_DCC)


def fitted(U, e, s2, ll=0.0):
    """A univariate model in the state that follows a successful fit."""
    m = U(np.zeros(len(e)))
    m.resids, m.sigma2, m.estimation_success = e, s2, True
    m.parameters = U.Parameters()
    m.parameters.loglikelihood = ll
    return m


def variances(T, k):
    if k == 0:
        return [1.0] * T, [1.0] * T
    return [0.5 + 0.4 * t for t in range(T)], [4.0 / (t + 1) for t in range(T)]


def path(U, D, z1, z2, a, b, k):
    s1, s2 = variances(len(z1), k)
    e1 = np.array([z * math.sqrt(s) for z, s in zip(z1, s1)])
    e2 = np.array([z * math.sqrt(s) for z, s in zip(z2, s2)])
    d = D(fitted(U, e1, np.array(s1)), fitted(U, e2, np.array(s2)))
    return np.asarray(d.conditional_correlations(a, b))


def shocks(case, X, U, D, a, b):
    """Tapes with shocks of every size, in the same or opposite directions, on almost parallel series."""
    n = case["depth"]
    for mags in itertools.product((1e-6, 0.9, 7.0, 60.0, 1e4), repeat=n):
        for tilt, sign in ((0.95, 1), (1.02, -1)):
            z1 = [x * (-1) ** (t // 2) for t, x in enumerate(mags)]
            z2 = [sign * x * (tilt if t % 2 else 1 / tilt) for t, x in enumerate(z1)]
            want, _ = ref.dcc_path(a, b, z1, z2)
            k = (len(set(mags)) + sign) % 2
            got = path(U, D, z1, z2, a, b, k)
            X.trace()
            X.edge(n)
            X.state(case["m"], case["v"], a, b, mags, sign)
            X.same(got, want, "conditional correlations with large shocks", rtol=1e-6, atol=1e-9, z1=z1, z2=z2, a=a, b=b)
            X.true((np.abs(got) <= 1 + 1e-9).all(), "a correlation outside [-1, 1]", z1=z1, z2=z2, a=a, b=b, correlations=got)
            X.outcome(round(float(got[-1]), 8))
    # one series has long died down when the other is hit
    for m1, m2 in itertools.product((1e-6, 1e-3, 1.0, 9.0, 1e3, 1e6), repeat=2):
        for s in itertools.product((1, -1), repeat=3):
            z1, z2 = [m1, s[0] * m1, 0.3 * m1], [s[1] * m2, m2, s[2] * 0.4 * m2]
            want, _ = ref.dcc_path(a, b, z1, z2)
            X.trace()
            X.edge(3)
            X.state(case["m"], case["v"], a, b, m1, m2, s)
            X.same(path(U, D, z1, z2, a, b, 0), want, "conditional correlations of series in different units", rtol=1e-6, atol=1e-9, z1=z1, z2=z2)


def run(case, X):
    v = impl.variants[case["v"]]
    U, D = classes(v, case["m"])
    if "ab" in case:
        a, b = AB[case["ab"]]
        if "shocks" in case:
            return shocks(case, X, U, D, a, b)
        for n in range(1, case["depth"] + 1):
            for r1 in itertools.product(A1, repeat=n - 1):
                z1 = (case["x"],) + r1
                if not any(z1):
                    continue
                for r2 in itertools.product(A2, repeat=n - 1):
                    z2 = (case["y"],) + r2
                    want, states = ref.dcc_path(a, b, z1, z2)
                    if not all(math.isfinite(w) for w in want):
                        continue
                    for k in (0, 1) if n < 4 else ((len(r1) + int(10 * z2[-1])) % 2,):
                        got = path(U, D, z1, z2, a, b, k)
                        X.trace()
                        X.edge(n)
                        X.same(got, want, "conditional correlations", rtol=1e-7, atol=1e-9, z1=z1, z2=z2, a=a, b=b, variances=k)
                        X.true((np.abs(got) <= 1 + 1e-9).all(), "a correlation outside [-1, 1]", z1=z1, z2=z2, a=a, b=b)
                    for t, s in enumerate(states):
                        X.state(case["m"], case["v"], a, b, t, s)
                    X.outcome(round(float(got[-1]), 8))
        X.sample({"a": a, "b": b, "z1": z1, "z2": z2})
    elif "long" in case:
        T = case["long"]
        for i in range(0, T, 1 if T < 100 else 13 if T < 1000 else T // 3):
            z1 = [0.9 if t * t // 3 % 2 else -1.1 for t in range(T)]
            z2 = [0.4 if t * t // 5 % 3 else -1.6 for t in range(T)]
            z1[i], z2[i] = 5.0, -6.0
            for a, b in AB[1:] if T > 1000 else (AB[1], AB[i % len(AB)]):
                want, _ = ref.dcc_path(a, b, z1, z2)
                got = path(U, D, z1, z2, a, b, i % 2)
                X.trace()
                X.edge(T)
                X.state(case["m"], case["v"], T, i, a, b)
                X.same(got, want, "conditional correlations of a long series", rtol=1e-7, atol=1e-9, T=T, spike_at=i, a=a, b=b)
                X.true((np.abs(got) <= 1 + 1e-9).all(), "a correlation outside [-1, 1]", T=T, spike_at=i)
    elif "fit" in case:
        for rho, T in ((0.6, 120), (-0.4, 90)):
            x, y = ref.pair_series(case["fit"] + 20, T, rho)
            u, w = U(np.array(x)), U(np.array(y))
            d = D(u, w)
            for a, b in AB[1:4]:
                got = np.asarray(d.conditional_correlations(a, b))  # fits the margins when needed
                X.true(u.estimation_success and w.estimation_success, "the margins were not fitted")
                z1 = (u.resids / np.sqrt(u.sigma2)).tolist()
                z2 = (w.resids / np.sqrt(w.sigma2)).tolist()
                X.trace()
                X.edge()
                X.state("fit", case["m"], case["v"], case["fit"], rho, a, b)
                X.same(got, ref.dcc_path(a, b, z1, z2)[0], "conditional correlations after a fit", rtol=1e-7, a=a, b=b)
                X.true((np.abs(got) <= 1 + 1e-9).all(), "a correlation outside [-1, 1]")
    else:
        for z1 in itertools.product((-1.2, 0.8), repeat=4):
            z2 = tuple(0.5 * t - z for t, z in enumerate(z1))
            want, _ = ref.dcc_path(0.1, 0.8, z1, z2)
            s1, s2 = variances(4, 1)
            e1 = np.array(z1) * np.sqrt(s1)
            e2 = np.array(z2) * np.sqrt(s2)
            M = np.empty((4, 7))
            M[:, 0], M[:, 2], M[:, 4], M[:, 6] = e1, s1, e2, s2
            M[:, 1::2] = 123.0
            views = [(M[:, 0], M[:, 2], M[:, 4], M[:, 6]), (e1[::-1].copy()[::-1], np.array(s1), e2, np.array(s2)[::-1].copy()[::-1]),
                     tuple(np.asfortranarray(M)[:, j] for j in (0, 2, 4, 6))]
            for vw in views:
                keep = [np.array(q) for q in vw]
                d = D(fitted(U, vw[0], vw[1]), fitted(U, vw[2], vw[3]))
                X.trace()
                X.edge()
                X.state("layout", z1, len(vw))
                X.same(d.conditional_correlations(0.1, 0.8), want, "conditional correlations of the same numbers laid out differently", rtol=1e-7)
                X.true(all((p == q).all() for p, q in zip(keep, vw)), "an input was modified")
