"""DCC likelihood, starting values and two-step fit."""
import itertools
import math

import numpy as np

from mc import impl, ref
from mc.props.c06 import classes, fitted, variances

ID = "C07"
BOUNDS = (
    "likelihood: all pairs of standardized-residual tapes of length 1..3 (thorough 4) x 8 (a,b) pairs, and long tapes; fits: processes x "
    "correlations x units of the two series x seeds x {arrays, models, one of each, already fitted models} x {GARCH, GJR} x {compiled, pure}; oracle: joint "
    "bivariate normal log-density with the correlation path held in [-0.99, 0.99], whole starting grid, perturbation lattice"
)
A1, A2 = (-1.2, 0.1, 0.8), (-0.9, 0.3, 2.0)
AB = [(0.0, 0.0), (0.05, 0.9), (0.3, 0.6), (0.0, 0.95), (0.5, 0.49), (1.0, 0.0), (0.01, 0.6), (0.2, 0.1)]
KWS = [dict(alpha=0.1, beta=0.8), dict(alpha=0.3, beta=0.5, omega=0.3), dict(alpha=0.05, beta=0.8, gamma=0.15)]

UNITS = [(1, 1, 0, 0), (0.3, 3, 0, 0), (1, 5, 3, -3)]


def cases(tier):
    d = 3 if tier == "quick" else 4
    for v, m, (i, _), x in itertools.product(("native", "pure"), ("garch", "gjr"), enumerate(AB), A1):
        yield {"v": v, "m": m, "ab": i, "x": x, "depth": d}
    for v, m in itertools.product(("native", "pure"), ("garch", "gjr")):
        yield {"v": v, "m": m, "long": 1}
        for s in range(2 if tier == "quick" else 6):
            yield {"v": v, "m": m, "same": s, "T": 130 if v == "native" else 50}
    seeds = range(2) if tier == "quick" else range(12)
    for m, k, s, rho in itertools.product(("garch", "gjr"), range(len(KWS)), seeds, (-0.6, 0.0, 0.5, 0.9)):
        yield {"v": "native", "m": m, "kw": k, "seed": s, "rho": rho, "T": 200 if tier == "quick" else 400}
        for u in range(len(UNITS)):
            for rho2 in (-0.995, -0.97, 0.3, 0.97, 0.9999) if rho == 0.9 else ():
                yield {"v": "native", "m": m, "kw": k, "seed": s, "rho": rho2, "T": 150, "units": u}
        if s == 1 and rho in (-0.6, 0.5) and k == (rho > 0):
            yield {"v": "native", "m": m, "kw": k, "seed": s, "rho": rho, "T": 1301 if m == "garch" else 2609}
        if s == 0:
            yield {"v": "pure", "m": m, "kw": k, "seed": s, "rho": rho, "T": 70}


def cost(c):
    return 2 if c.get("T", 0) > 1000 else 1 if "kw" in c else 0


def joint(e1, s1, e2, s2, a, b):
    z1 = [e / math.sqrt(s) for e, s in zip(e1, s1)]
    z2 = [e / math.sqrt(s) for e, s in zip(e2, s2)]
    rho = [min(max(r, -0.99), 0.99) for r in ref.dcc_path(a, b, z1, z2)[0]]
    return ref.bvn_ll(e1, s1, e2, s2, rho)


def run(case, X):
    U, D = classes(impl.variants[case["v"]], case["m"])
    if "ab" in case:
        a, b = AB[case["ab"]]
        for n in range(1, case["depth"] + 1):
            for rest in itertools.product(*([A1] * (n - 1) + [A2] * n)):
                z1, z2 = (case["x"],) + rest[: n - 1], rest[n - 1:]
                likelihood(case, X, U, D, z1, z2, a, b)
        return
    if "same" in case:
        return itself(case, X, U, D)
    if "long" in case:
        for T in (76, 200, 1103, 2609, 11003):
            g = ref.normals(T)
            z1 = [next(g) for _ in range(T)]
            z2 = [0.6 * z + 0.8 * next(g) for z in z1]
            for a, b in AB[:5] if T < 1000 else AB[1:3]:
                likelihood(case, X, U, D, z1, z2, a, b)
            z2 = [z + 0.001 * next(g) for z in z1]  # the correlation bound is reached
            likelihood(case, X, U, D, z1, z2, 0.05, 0.9)
        return
    x, y = ref.pair_series(case["seed"] + 7, case["T"], case["rho"], **KWS[case["kw"]])
    m1, m2, h1, h2 = UNITS[case.get("units", 0)]
    x, y = [m1 * t + h1 for t in x], [m2 * t + h2 for t in y]
    a1, a2 = np.array(x), np.array(y)
    d = D(a1, a2)
    P = d.fit()
    X.trace()
    X.edge()
    X.state(case["m"], case["v"], case["kw"], case["seed"], case["rho"], case.get("units", 0))
    X.true((a1 == np.array(x)).all() and (a2 == np.array(y)).all(), "the returns were modified by the fit")
    X.true(P is not None and P == d.parameters, "fit returned something other than the model's parameters")
    X.true(d.estimation_success, "the fit of ordinary series failed", case=case)
    u, w = U(a1), U(a2)
    pu, pw = u.fit(), w.fit()
    names = ["mu", "omega", "alpha"] + (["gamma"] if case["m"] == "gjr" else []) + ["beta"]
    for n in names:
        X.same(getattr(P, n + "1"), getattr(pu, n), "first margin's %s differs from its own fit" % n)
        X.same(getattr(P, n + "2"), getattr(pw, n), "second margin's %s differs from its own fit" % n)
    a, b = P.a, P.b
    X.true(-1e-9 <= a <= 1 + 1e-9 and -1e-9 <= b <= 1 + 1e-9 and a + b <= 1 + 1e-6, "DCC estimates outside their bounds", a=a, b=b)
    e1, s1, e2, s2 = (np.asarray(q).tolist() for q in (u.resids, u.sigma2, w.resids, w.sigma2))

    def ll(a, b):
        # first step: the reported likelihoods of the margins; second step: the correlation part
        return joint(e1, s1, e2, s2, a, b) - ref.norm_ll(e1, s1) - ref.norm_ll(e2, s2) + pu.loglikelihood + pw.loglikelihood

    X.same(P.loglikelihood, ll(a, b), "reported log-likelihood is not that of the reported estimates", rtol=1e-7, a=a, b=b)
    st = d.starting_values()
    best = max((ll(p, q), p, q) for p in np.linspace(0.01, 0.5, 10) for q in np.linspace(0.6, 0.95, 10) if p + q < 1)
    X.edge(80)
    X.true(ll(*st) >= best[0] - 1e-6, "a starting candidate is more likely than the starting values", start=st, best=best)
    X.true(P.loglikelihood >= best[0] - 1e-6 * abs(best[0]), "the fit is less likely than a starting candidate", fit=[a, b], best=best)
    for da, db in itertools.product((-0.02, 0.0, 0.02), repeat=2):
        p, q = a + da, b + db
        if min(p, q) < 0 or p + q >= 1:
            continue
        X.edge()
        gain = ll(p, q) - P.loglikelihood
        X.true(gain < 0.1, "neighbouring DCC parameters are clearly more likely", fit=[a, b], neighbour=[p, q], gain=gain)
    ways = {"two fitted models": (u, w), "two models": (U(a1), U(a2)), "array and model": (a1, U(a2)), "fitted model and array": (u, a2)}
    for how, args in ways.items():
        Q = D(*args).fit()
        X.trace()
        X.edge()
        for f in P.__dataclass_fields__:
            X.same(getattr(Q, f), getattr(P, f), "%s gives a different %s than two arrays" % (how, f), rtol=1e-6, atol=1e-7)
    if case["seed"] == 0 and "units" not in case:
        for zs in ((True, False), (False, True), (True, True)):
            # margins that have no mean parameter
            u0, w0 = U(a1, zero_mean=zs[0]), U(a2, zero_mean=zs[1])
            q = D(u0, w0)
            Q = q.fit()
            X.trace()
            X.edge()
            X.state(case["m"], case["v"], case["kw"], case["rho"], zs)
            own = [U(z, zero_mean=o).fit() for z, o in zip((a1, a2), zs)]
            for n in names:
                X.same([getattr(Q, n + "1"), getattr(Q, n + "2")], [getattr(o, n) for o in own], "%s of margins without a mean differs from their own fits" % n, zero_mean=zs)
            t = [np.asarray(z).tolist() for z in (u0.resids, u0.sigma2, w0.resids, w0.sigma2)]
            X.same(t[0] + t[2], [float(z - o) for r, o in ((a1, own[0].mu), (a2, own[1].mu)) for z in r], "residuals of margins without a mean", zero_mean=zs)
            X.same(Q.loglikelihood, joint(*t, Q.a, Q.b) - ref.norm_ll(*t[:2]) - ref.norm_ll(*t[2:]) + own[0].loglikelihood + own[1].loglikelihood,
                   "reported log-likelihood with margins without a mean", rtol=1e-7, zero_mean=zs)
    X.true(u.fit() == pu and w.fit() == pw, "the margins changed")
    X.true(d.fit() == P, "fitting again returned different estimates")
    X.outcome((round(a, 3), round(b, 3)))
    X.sample({"case": case, "a": a, "b": b})


def itself(case, X, U, D):
    """A series against itself: one model given twice is two equal models."""
    x = np.array(ref.pair_series(case["same"] + 3, case["T"], 0.3, **KWS[case["same"] % len(KWS)])[0])
    P = None
    for how, make in (("two arrays", lambda: (x, x.copy())), ("one array", lambda: (x, x)), ("two models", lambda: (U(x), U(x))), ("one model", lambda: (U(x),) * 2)):
        u = make()
        d = D(*u)
        Q = d.fit()
        X.trace()
        X.edge()
        X.state(case["m"], case["v"], case["same"], how)
        P = P or Q
        for f in P.__dataclass_fields__:
            X.same(getattr(Q, f), getattr(P, f), "%s gives a different %s than two arrays of the same returns" % (how, f), rtol=1e-6, atol=1e-7)
        m = d.model1
        e, s = np.asarray(m.resids).tolist(), np.asarray(m.sigma2).tolist()
        for a, b in AB:
            want = joint(e, s, e, s, a, b) - 2 * ref.norm_ll(e, s) + 2 * m.parameters.loglikelihood
            X.edge()
            X.same(-d.loglikelihood_model([a, b]), want, "log-likelihood of a series against itself", rtol=1e-7, how=how, a=a, b=b)
    X.outcome((round(P.a, 3), round(P.b, 3)))


def likelihood(case, X, U, D, z1, z2, a, b):
    n = len(z1)
    s1, s2 = variances(n, n % 2)
    e1 = [z * math.sqrt(s) for z, s in zip(z1, s1)]
    e2 = [z * math.sqrt(s) for z, s in zip(z2, s2)]
    d = D(fitted(U, np.array(e1), np.array(s1), ref.norm_ll(e1, s1)), fitted(U, np.array(e2), np.array(s2), ref.norm_ll(e2, s2)))
    want = joint(e1, s1, e2, s2, a, b)
    if not math.isfinite(want):
        return
    got = d.loglikelihood_model([a, b])
    X.trace()
    X.edge()
    X.state(case["m"], case["v"], a, b, tuple(z1), tuple(z2))
    X.same(-got, want, "log-likelihood of the model is not the joint normal log-density", rtol=1e-7, z1=z1[:6], z2=z2[:6], a=a, b=b)
    X.outcome(round(float(got), 7))
