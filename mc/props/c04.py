"""Univariate maximum-likelihood fits: what is reported is feasible, coherent and no worse than every start."""
import itertools

import numpy as np

from mc import impl, ref

ID = "C04"
BOUNDS = (
    "every return tape of length 6 (thorough 8) over {-2,-0.5,0.3,1.5} starting negative and not constant x {GARCH, GJR} x zero-mean "
    "on/off; plus a lattice of GARCH-type series (6 processes x seeds x lengths 120, 400 (thorough up to 1500), some of 1400 to 11000, x scales) x {compiled, "
    "pure Python}, of their multiples (down to decimal returns) and shifts, and of two-regime series whose mean is zero or next to it; oracle: reference likelihood at the reported parameters, at every starting candidate and at every neighbour on a "
    "perturbation lattice"
)
ALPHABET = (-2.0, -0.5, 0.3, 1.5)
KWS = [dict(alpha=0.1, beta=0.8), dict(alpha=0.05, beta=0.9, omega=0.05), dict(alpha=0.3, beta=0.5, omega=0.3),
       dict(alpha=0.05, beta=0.8, gamma=0.15), dict(alpha=0.0, beta=0.0, omega=1.0), dict(alpha=0.2, beta=0.75, mu=1.0)]
PERS = (0.5, 0.7, 0.9, 0.98)
SMALL = (0.01, 0.05, 0.1, 0.2)


def cases(tier):
    T = 6 if tier == "quick" else 8
    for m, zm in itertools.product(("garch", "gjr"), (False, True)):
        for head in itertools.product(ALPHABET, repeat=2):
            if head[0] < 0:
                for third in ALPHABET:
                    yield {"m": m, "zm": zm, "head": list(head) + [third], "T": T}
        seeds = range(4) if tier == "quick" else range(25)
        for k, s in itertools.product(range(len(KWS)), seeds):
            for T2, sc in ((120, 1.0), (120, 3.0), (400, 1.0)) + (((1500, 1.0), (250, 0.7)) if tier != "quick" else ()):
                yield {"m": m, "zm": zm, "kw": k, "seed": s, "T": T2, "sc": sc, "v": "native"}
            yield {"m": m, "zm": zm, "kw": k, "seed": s, "T": 100, "sc": 1.0, "v": "pure"}
        for k in range(3):
            for T2, sc in ((1409 if m == "garch" else 2903, 1.0), (11003, 1.0)) if k < 1 or tier != "quick" else ((2609, 1.0),):
                yield {"m": m, "zm": zm, "kw": k, "seed": 40, "T": T2, "sc": sc, "v": "native"}
        for k, s in itertools.product(range(len(KWS)), range(2 if tier == "quick" else 10)):
            for sc, add in itertools.product((0.01, 0.1, 10.0), (0.0, -2.0, 50.0)):
                yield {"m": m, "zm": zm, "kw": k, "seed": s, "T": 120, "sc": sc, "add": add, "v": "native"}
        for v, n, lo, hi in itertools.product(("native", "pure"), (120, 400), (0.3, 0.6), (1.5, 4.0)):
            if v == "native" or n == 120:
                for shift, s in itertools.product((0.3, 0.8), range(1 if tier == "quick" else 8)):
                    yield {"m": m, "zm": zm, "kw": "regime", "seed": s, "T": n, "sc": 1.0, "v": v, "lo": lo, "hi": hi, "shift": shift}


def cost(c):
    return c["T"] if "v" in c and (c["v"] == "pure" or c["T"] > 1000) else 0


def model(v, name):
    return v.alg.GARCHModel if name == "garch" else v.alg.GJRGARCHModel


def vector(P, gjr, zm):
    full = [P.mu, P.omega, P.alpha] + ([P.gamma] if gjr else []) + [P.beta]
    return full[1:] if zm else full


def regimes(case, target):
    """Three quiet quarters that gain and a hot one that loses; the mean over all is the target."""
    g, T = ref.normals(case["seed"] + 77), case["T"]
    r = [case["shift"] + case["lo"] * next(g) if 4 * t < 3 * T else -case["shift"] + case["hi"] * next(g) for t in range(T)]
    m = ref.mean(r)
    return [x - m + target for x in r]


def prep(r, zm):
    mu = 0.0 if zm else ref.mean(r)
    e = [x - mu for x in r]
    return mu, e, ref.backcast(e), ref.variance_bounds(e)


def candidates(r, gjr, zm):
    v, mu = ref.var(r), ref.mean(r)
    for a, g, p in itertools.product(SMALL, SMALL if gjr else (0.0,), PERS):
        th = [v * (1 - p), a] + ([g] if gjr else []) + [p - a - g / 2]
        yield th if zm else [mu] + th


def common(case, X, m, arr, r, start_grid=True):
    gjr, zm = case["m"] == "gjr", case["zm"]
    mu0, e, bc, bd = prep(r, zm)

    def ll(x):
        return -ref.garch_nll(r, list(x), bc, bd, zm)

    start = list(m.preparation())
    X.true(len(start) == (3 + gjr + (not zm)), "wrong number of starting values", start=start)
    ll0 = ll(start)
    if start_grid:
        best = max(ll(c) for c in candidates(r, gjr, zm))
        X.edge(16 if not gjr else 64)
        X.true(ll0 >= best - 1e-7 * abs(best) - 1e-9, "a starting candidate is more likely than the starting values",
               returns=r[:12], start=start, start_ll=ll0, best=best)
        pers = start[-2] + start[-1] if not gjr else start[-3] + start[-2] / 2 + start[-1]
        om = start[0] if zm else start[1]
        X.same(om, ref.var(r) * (1 - pers), "starting omega does not target the sample variance", start=start, returns=r[:12])
        if not zm:
            X.same(start[0], mu0, "starting mean is not the sample mean")
    P = m.fit()
    X.trace()
    X.true(P is not None, "fit returned nothing", returns=r[:12])
    X.true(P == m.parameters, "fit returned something other than the model's parameters")
    X.true((arr == np.array(r)).all(), "the returns were modified by the fit")
    if not m.estimation_success:
        X.count("fits_reported_as_failed")
        return None
    d = vector(P, gjr, zm)
    th = vector(P, gjr, True)
    X.true(all(np.isfinite(d)) and np.isfinite(P.loglikelihood), "estimates are not finite", estimates=d)
    if zm:
        X.same(P.mu, 0.0, "zero-mean model reports a mean", estimates=d)
    X.true(th[0] >= 1e-6 * (1 - 1e-6), "omega below its bound", estimates=d, returns=r[:12])
    X.true(all(-1e-9 <= t <= 1 + 1e-9 for t in th[1:]), "estimates outside [0, 1]", estimates=d, returns=r[:12])
    pers = P.alpha + P.beta + (P.gamma / 2 if gjr else 0.0)
    X.true(pers <= 1 + 1e-4, "estimates are not stationary", estimates=d, persistence=pers, returns=r[:12])
    X.same(P.loglikelihood, ll(d), "reported log-likelihood is not that of the reported estimates", rtol=1e-7, returns=r[:12], estimates=d)
    X.true(P.loglikelihood >= ll0 - 1e-6 * abs(ll0), "the fit is less likely than its starting values", returns=r[:12],
           estimates=d, loglikelihood=P.loglikelihood, start=start, start_loglikelihood=ll0)
    X.same(m.resids, [x - P.mu for x in r], "residuals are not the returns minus the estimated mean", rtol=1e-9)
    X.state(case["m"], zm, tuple(r) if len(r) < 20 else (case["kw"], case["seed"], case["T"], case["sc"], case["v"]))
    X.outcome([round(t, 3) for t in d])
    again = m.fit()
    X.true(again is not None and again == P, "fitting again returned different estimates")
    return P, d, ll, bc, bd


def run(case, X):
    if "head" in case:
        cls = model(impl.native, case["m"])
        for rest in itertools.product(ALPHABET, repeat=case["T"] - 3):
            r = case["head"] + list(rest)
            if len(set(r)) == 1:
                continue
            arr = np.array(r)
            X.edge()
            common(case, X, cls(arr, zero_mean=case["zm"]), arr, r, start_grid=hash(rest) % 4 == 0)
        X.sample({"model": case["m"], "zero_mean": case["zm"], "returns": r})
        return
    v = impl.variants[case["v"]]
    cls = model(v, case["m"])
    if case["kw"] == "regime":
        for target in (0.0, 1e-6, 1e-3, 0.5):
            series(case, X, cls, regimes(case, target))
    else:
        series(case, X, cls, [case["sc"] * (x + case.get("add", 0.0)) for x in ref.garch_series(case["seed"], case["T"], **KWS[case["kw"]])])


def series(case, X, cls, r):
    arr = np.array(r)
    m = cls(arr, zero_mean=case["zm"])
    res = common(case, X, m, arr, r, start_grid=case["v"] == "native" and case["T"] <= 120)
    if res is None and case["sc"] <= 0.1:
        return  # far from percent: the optimizer may give up, and says so
    X.true(res is not None, "the fit of an ordinary series failed", case=case)
    P, d, ll, bc, bd = res
    mu = 0.0 if case["zm"] else P.mu
    path = ref.garch_path(vector(P, case["m"] == "gjr", True), [x - mu for x in r], bc, bd)
    X.same(m.sigma2, path, "conditional variances are not those of the reported estimates", rtol=1e-7)
    gjr = case["m"] == "gjr"
    X.state(case["m"], case["zm"], case["v"], tuple(r[:20]), tuple(d))
    if case["sc"] <= 0.1:
        return
    if not case["zm"]:
        sd = ref.var(r) ** 0.5
        for k in (-0.5, -0.2, -0.1, -0.05, -0.02, 0.02, 0.05, 0.1, 0.2, 0.5):
            better = ll([d[0] + k * sd] + d[1:]) - P.loglikelihood
            X.edge()
            X.true(better < 0.1, "another mean is clearly more likely", estimates=d, mean=d[0] + k * sd, gain=better)
    for i in range(len(d)):
        for s in (-0.05, -0.01, 0.01, 0.05):
            q = list(d)
            q[i] = q[i] * (1 + s) if abs(q[i]) > 1e-3 else q[i] + s * 0.1
            th = q if case["zm"] else q[1:]
            pers = th[1] + th[-1] + (th[2] / 2 if gjr else 0)
            if pers > 1 or th[0] < 1e-6 or min(th[1:]) < 0:
                continue
            X.edge()
            better = ll(q) - P.loglikelihood
            X.true(better < 0.1, "a neighbouring parameter vector is clearly more likely", estimates=d, neighbour=q, gain=better)
    if case["seed"] == 0 and case["v"] == "native":
        for name, same in (("list", list(r)), ("float32-exact", np.array(r)), ("strided", np.repeat(arr, 2)[::2])):
            X.true(cls(same, zero_mean=case["zm"]).fit() == P, "the same returns given as %s are fitted differently" % name)
