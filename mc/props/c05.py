"""Constant conditional correlation model: likelihood and fit."""
import itertools

import numpy as np

from mc import impl, ref

ID = "C05"
BOUNDS = (
    "bivariate density: all residual/variance pairs of tapes up to length 3 x correlations in [-0.99, 0.99]; model likelihood: all "
    "pairs of return tapes of length 1..3 (thorough 4) x parameter vectors; fits: 6 processes x correlations x seeds x lengths x "
    "units of the two series (correlations up to almost 1) x {compiled, pure}; oracle: bivariate normal log-density along reference variance paths, with bounds and backcast of the "
    "residuals at the evaluated means"
)
ALPHABET = (-2.0, -0.5, 0.3, 1.5)
RHOS = (-0.99, -0.5, 0.0, 0.3, 0.99)
PARAMS = [
    (0.0, 0.1, 0.1, 0.8, 0.0, 0.2, 0.3, 0.4, 0.3),
    (0.2, 0.5, 0.9, 0.0, -0.3, 1e-6, 0.0, 0.0, -0.9),
    (-0.4, 0.02, 0.0, 0.9, 0.1, 0.3, 0.2, 0.5, 0.0),
    (0.1, 2.0, 0.05, 0.2, 0.1, 0.05, 0.15, 0.8, 0.99),
]
KWS = [dict(alpha=0.1, beta=0.8), dict(alpha=0.05, beta=0.9, omega=0.05), dict(alpha=0.3, beta=0.5, omega=0.3),
       dict(alpha=0.2, beta=0.75, mu=1.0)]

UNITS = [(1, 1, 0, 0), (0.3, 3, 0, 0), (1, 5, 3, -3), (0.5, 0.5, 0, 0)]


def cases(tier):
    d = 3 if tier == "quick" else 4
    for v in ("native", "pure"):
        for i, first in itertools.product(range(len(PARAMS)), ALPHABET):
            yield {"v": v, "p": i, "first": first, "depth": d}
        yield {"v": v, "density": 1}
    seeds = range(2) if tier == "quick" else range(12)
    for k, s, rho in itertools.product(range(len(KWS)), seeds, (-0.6, 0.0, 0.5, 0.9)):
        yield {"kw": k, "seed": s, "rho": rho, "T": 150, "v": "native"}
        if s == 0:
            yield {"kw": k, "seed": s, "rho": rho, "T": 80, "v": "pure"}
        for u in range(len(UNITS)):
            for rho2 in (-0.9999, -0.97, 0.3, 0.97, 0.995) if rho == 0.9 else ():
                yield {"kw": k, "seed": s, "rho": rho2, "T": 150, "v": "native", "units": u}
        if tier != "quick":
            yield {"kw": k, "seed": s, "rho": rho, "T": 500, "v": "native"}
    for k, rho, T in ((0, 0.5, 1301), (1, -0.6, 2707), (2, 0.9, 5303)):
        yield {"kw": k, "seed": 30, "rho": rho, "T": T, "v": "native"}


def cost(c):
    return 1 if "T" in c and (c["v"] == "pure" or c["T"] > 1000) else 0


def model_ll(x, y, q):
    e1, e2 = [a - q[0] for a in x], [b - q[4] for b in y]
    v1 = ref.garch_path(q[1:4], e1, ref.backcast(e1), ref.variance_bounds(e1))
    v2 = ref.garch_path(q[5:8], e2, ref.backcast(e2), ref.variance_bounds(e2))
    return ref.bvn_ll(e1, v1, e2, v2, q[8])


def run(case, X):
    C = impl.variants[case["v"]].alg.GARCHModel_CCC
    if "density" in case:
        m = C(np.array(ALPHABET), np.array(ALPHABET))
        for n in (1, 2, 3):
            for e in itertools.product((-1.5, 0.0, 0.7), repeat=2 * n):
                for v1, v2 in ((0.5, 2.0), (1e-3, 30.0)):
                    s1, s2 = [v1 * (t + 1) for t in range(n)], [v2 / (t + 1) for t in range(n)]
                    for rho in RHOS:
                        got = m.loglikelihood(np.array(e[:n]), np.array(s1), np.array(e[n:]), np.array(s2), rho)
                        X.trace()
                        X.edge()
                        X.state("d", e, v1, rho)
                        X.same(got, ref.bvn_ll(e[:n], s1, e[n:], s2, rho), "bivariate log-likelihood", resids=e, rho=rho)
        return
    if "p" in case:
        q = PARAMS[case["p"]]
        for n in range(1, case["depth"] + 1):
            for rest in itertools.product(ALPHABET, repeat=2 * n - 1):
                t = (case["first"],) + rest
                x, y = t[:n], t[n:]
                m = C(np.array(x), np.array(y))
                with np.errstate(all="ignore"):
                    want = -model_ll(x, y, q)
                    got = m.loglikelihood_model(np.array(q), 1.0, 1.0, None, None)
                X.trace()
                X.edge()
                X.state(case["v"], case["p"], t)
                X.same(got, want, "negative log-likelihood of the model", returns1=x, returns2=y, params=q)
                X.outcome(round(float(got), 8))
        return
    x, y = ref.pair_series(case["seed"], case["T"], case["rho"], **KWS[case["kw"]])
    m1, m2, a1, a2 = UNITS[case.get("units", 0)]
    x, y = [m1 * t + a1 for t in x], [m2 * t + a2 for t in y]
    a, b = np.array(x), np.array(y)
    m = C(a, b)
    P = m.fit()
    X.trace()
    X.edge()
    X.state(case["kw"], case["seed"], case["rho"], case["T"], case["v"], case.get("units", 0))
    X.true((a == np.array(x)).all() and (b == np.array(y)).all(), "the returns were modified by the fit")
    X.true(P is not None and P == m.parameters, "fit returned something other than the model's parameters")
    X.true(m.estimation_success, "the fit of ordinary series failed", case=case)
    q = [P.mu1, P.omega1, P.alpha1, P.beta1, P.mu2, P.omega2, P.alpha2, P.beta2, P.rho]
    X.true(all(np.isfinite(q)), "estimates are not finite", estimates=q)
    X.true(P.omega1 >= 1e-6 * 0.999999 and P.omega2 >= 1e-6 * 0.999999, "omega below its bound", estimates=q)
    X.true(all(-1e-9 <= t <= 1 + 1e-9 for t in (P.alpha1, P.beta1, P.alpha2, P.beta2)), "estimates outside [0, 1]", estimates=q)
    X.true(P.alpha1 + P.beta1 <= 1 + 1e-4 and P.alpha2 + P.beta2 <= 1 + 1e-4, "estimates are not stationary", estimates=q)
    X.true(-0.99 - 1e-9 <= P.rho <= 0.99 + 1e-9, "correlation outside its bounds", estimates=q)
    ll = model_ll(x, y, q)
    X.same(P.loglikelihood, ll, "reported log-likelihood is not that of the reported estimates", rtol=1e-7, estimates=q)
    # never worse than: each margin's own fit joined by the correlation of the standardized residuals
    u, w = m.model1, m.model2
    X.true(u.estimation_success and w.estimation_success, "the margins were not estimated")
    r0 = float(np.corrcoef(u.resids / np.sqrt(u.sigma2), w.resids / np.sqrt(w.sigma2))[0, 1])
    r0 = min(max(r0, -0.99), 0.99)
    p1, p2 = u.parameters, w.parameters
    start = [p1.mu, p1.omega, p1.alpha, p1.beta, p2.mu, p2.omega, p2.alpha, p2.beta, r0]
    X.true(ll >= model_ll(x, y, start) - 1e-6 * abs(ll), "the fit is less likely than its starting values", estimates=q, start=start)
    for i in range(9):
        for s in (-0.05, -0.01, 0.01, 0.05):
            p = list(q)
            p[i] = p[i] * (1 + s) if abs(p[i]) > 1e-3 else p[i] + s * 0.1
            if p[2] + p[3] > 1 or p[6] + p[7] > 1 or min(p[1], p[5]) < 1e-6 or min(p[2], p[3], p[6], p[7]) < 0 or abs(p[8]) > 0.99:
                continue
            X.edge()
            gain = model_ll(x, y, p) - ll
            X.true(gain < 0.1, "a neighbouring parameter vector is clearly more likely", estimates=q, neighbour=p, gain=gain)
    X.true(m.fit() == P, "fitting again returned different estimates")
    X.outcome([round(t, 3) for t in q])
    X.sample({"case": case, "estimates": q})
