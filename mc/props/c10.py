"""LRMES estimates: the whole measure against a reference bootstrap, over histories of calls."""
import itertools
import math

import numpy as np
import pandas as pd

from mc import impl, ref

ID = "C10"
BOUNDS = (
    "6 (thorough 20) return histories x {compiled, pure Python} x every (h, S, C, seed) of a grid with horizons 1..60, and every "
    "ordered history of up to 3 estimates with different settings on one object (including likelihood evaluations in between); return "
    "containers; oracle: separately fitted GJR-GARCH-DCC model and one-path-at-a-time reference simulation of the same bootstrap draws"
)
KWS = [dict(rho=0.5, alpha=0.1, beta=0.8), dict(rho=0.8, alpha=0.05, beta=0.85, gamma=0.1), dict(rho=-0.3, alpha=0.15, beta=0.7),
       dict(rho=0.2, alpha=0.02, beta=0.5, omega=1.0, mu=-0.2), dict(rho=0.6, alpha=0.1, beta=0.8, omega=0.3, mu=-0.3), dict(rho=0.997, alpha=0.1, beta=0.8)]
CALLS = [(1, 60, -0.01, 42), (3, 80, -0.02, 42), (5, 60, -0.03, 7), (5, 60, -0.03, 8), (22, 40, -0.1, 42), (10, 40, 0.05, 0), (2, 30, -0.5, 42),
         (60, 25, -0.1, 1)]
LARGE = [(22, 1103, -0.1, 42), (3, 2609, -0.02, 5), (260, 30, -0.1, 42), (1, 10501, -0.01, 0)]


ROUNDINGS = (np.log1p, lambda z: np.nextafter(np.log(1 + z), 1), lambda z: np.log(1 + z) * (1 + 4e-16 * (-1.0) ** np.arange(len(z))), lambda z: np.log((1 + z) * (1 + 3e-16)))


def cases(tier):
    n = 6 if tier == "quick" else 20
    for s, v in itertools.product(range(n), ("native", "pure")):
        yield {"s": s, "v": v, "T": 160 if v == "native" else 90, "grid": 1}
        for c in range(3):
            yield {"s": s, "v": v, "T": 150 if v == "native" else 60, "first": c, "depth": 3}
        yield {"s": s, "v": v, "T": 120 if v == "native" else 50, "forms": 1}


def cost(c):
    return c["v"] == "pure"


def series(case):
    kw = dict(KWS[case["s"] % len(KWS)])
    rho = kw.pop("rho")
    x, y = ref.pair_series(50 + case["s"], case["T"], rho, **kw)
    return np.array(x) / 100, np.array(y) / 100


class Reference:
    def __init__(self, case, x, y, log=lambda z: np.log(1 + z)):
        A = impl.variants[case["v"]].alg
        self.f, self.m = (A.GJRGARCHModel(100 * log(z)) for z in (x, y))
        self.f.fit(), self.m.fit()
        self.d = A.GJRGARCHModel_DCC(self.f, self.m)
        P = self.d.fit()
        self.ok = self.f.estimation_success and self.m.estimation_success and self.d.estimation_success
        if not self.ok:
            return
        vec = lambda p: (p.mu, p.omega, p.alpha, p.gamma, p.beta)
        self.pi, self.pm, self.a, self.b = vec(self.f.parameters), vec(self.m.parameters), P.a, P.b

        def var(r, p):
            e = [float(v) - p[0] for v in r]
            mu = ref.mean(r)
            c = [v - mu for v in r]
            return e, ref.garch_path(p[1:], e, ref.backcast(c), ref.variance_bounds(c))

        ei, vi = var((100 * log(x)).tolist(), self.pi)
        em, vm = var((100 * log(y)).tolist(), self.pm)
        self.zi = [e / math.sqrt(v) for e, v in zip(ei, vi)]
        self.zm = [e / math.sqrt(v) for e, v in zip(em, vm)]
        self.rho = ref.dcc_path(self.a, self.b, self.zi, self.zm)[0]
        self.xi = [(i - r * m) / math.sqrt(1 - r * r) for i, m, r in zip(self.zi, self.zm, self.rho)]
        c = float(np.corrcoef(self.zi, self.zm)[0, 1])
        self.Q = [[1.0, c], [c, 1.0]]
        self.last = (vi[-1], vm[-1], ei[-1], em[-1])

    def value(self, h, S, C, seed):
        rng = np.random.default_rng(seed)
        tot, n, near = 0.0, 0, 1.0
        for _ in range(S):
            idx = rng.choice(len(self.xi), size=h, replace=True)
            path = [(self.xi[j], self.zm[j]) for j in idx]
            r, ev, _, mkt = ref.lrmes_path(path, C, *self.last, self.a, self.b, self.rho[-1], self.Q, self.pi, self.pm)
            near = min(near, abs(mkt - C))
            n += ev
            tot += r
        return (-tot / n if n else 0.0), n, near


def est(L, c):
    return L.estimate(h=c[0], S=c[1], C=c[2], random_seed=c[3])


def run(case, X):
    M = impl.variants[case["v"]].measures.LongRunMarginalExpectedShortfall
    x, y = series(case)
    R = Reference(case, x, y)
    # the same returns with other rounding: where the likelihood is flat, estimates move further than their data
    others = [Reference(case, x, y, log) for log in ROUNDINGS]
    if not R.ok or not all(o.ok for o in others):
        X.count("histories_without_fit")
        return

    def agree(got, c, hist):
        want, n, near = R.value(*c)
        X.edge(c[0] * c[1])
        X.trace()
        X.outcome(round(want, 6))
        if near < 1e-9:
            return
        moved = [o.value(*c) for o in others]
        if any(o[1] != n for o in moved):
            X.count("events_decided_by_rounding")
            return
        slack = 10 * max(abs(o[0] - want) for o in moved)
        X.true(isinstance(float(got), float), "not a number")
        X.same(float(got), want, "LRMES", rtol=1e-6, atol=1e-9 + slack, h=c[0], S=c[1], C=c[2], seed=c[3], events=n, history=hist)
        if n == 0:
            X.true(got == 0, "LRMES without a systemic event is not zero", got=float(got))

    if "grid" in case:
        for c in CALLS + (LARGE if case["s"] == 0 or case["v"] == "native" and case["s"] == 1 else []):
            X.state(case["s"], case["v"], c)
            agree(est(M(x, y), c), c, [])
        X.sample({"returns": x[:4], "calls": CALLS})
        return
    if "forms" in case:
        c = CALLS[1]
        x0 = x.copy()
        wide = np.full((2 * len(x), 2), 0.011)
        wide[::2, 0] = x
        for name, (a, b) in {"list": (x.tolist(), y.tolist()), "series": (pd.Series(x, index=range(5, 5 + len(x))), pd.Series(y)),
                             "strided": (wide[::2, 0], y), "reversed": (x[::-1].copy()[::-1], y[::-1].copy()[::-1])}.items():
            X.state(case["s"], case["v"], name)
            agree(est(M(a, b), c), c, [name])
        X.true((x == x0).all(), "the returns were modified")
        return
    # histories on one object
    ops = [CALLS[0], CALLS[2], CALLS[3], "ll"]
    first = ops[case["first"]]
    for d in range(1, case["depth"] + 1):
        for rest in itertools.product(ops, repeat=d - 1):
            hist = (first,) + rest
            if hist[-1] == "ll":
                continue
            L = M(x, y)
            for i, c in enumerate(hist):
                X.state(case["s"], case["v"], hist[: i + 1])
                if c == "ll":
                    try:
                        L.dcc_model.loglikelihood_model([0.2, 0.3])
                    except Exception:
                        X.fail("likelihood evaluation failed after an estimate", history=hist)
                else:
                    got = est(L, c)
            agree(got, hist[-1], hist)
