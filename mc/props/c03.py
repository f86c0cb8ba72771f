"""Log-likelihood of the univariate models."""
import itertools
import math

import numpy as np

from mc import impl, ref

ID = "C03"
BOUNDS = (
    "all return tapes of length 1..4 (thorough 6) over {-2,-0.5,0.3,1.5} x parameter lattice x mean in {-0.4,0,0.3} x zero-mean "
    "on/off x {GARCH, GJR} x {compiled, pure Python}, tapes of length 1..4 in 7 scales (1e-9 to 1e6), plus longer tapes; oracle: sum of normal log-densities along the reference "
    "variance path; the density sum itself on all residual/variance tapes of length 1..4"
)
ALPHABET = (-2.0, -0.5, 0.3, 1.5)
SCALES = (1e-9, 1e-6, 1e-4, 1e-2, 30.0, 1e3, 1e6)
PARAMS = [(0.1, 0.1, 0.05, 0.8), (1e-6, 0.0, 0.0, 0.0), (0.5, 0.9, 0.1, 0.0), (0.02, 0.01, 0.3, 0.8), (2.0, 0.3, 0.2, 0.5)]


def cases(tier):
    d = 4 if tier == "quick" else 6
    for v, m, zm in itertools.product(("native", "pure"), ("garch", "gjr"), (False, True)):
        for i, first in itertools.product(range(len(PARAMS)), ALPHABET):
            yield {"v": v, "m": m, "zm": zm, "p": i, "first": first, "depth": d}
        yield {"v": v, "m": m, "zm": zm, "long": 1}
        for sc in SCALES:
            yield {"v": v, "m": m, "zm": zm, "scale": sc}
    for v in ("native", "pure"):
        yield {"v": v, "density": 1}


def model(v, name):
    return v.alg.GARCHModel if name == "garch" else v.alg.GJRGARCHModel


def run(case, X):
    v = impl.variants[case["v"]]
    if "density" in case:
        for cls in (v.alg.GARCHModel, v.alg.GJRGARCHModel):
            for n in range(1, 5):
                for e in itertools.product((-3.0, 0.0, 0.7), repeat=n):
                    for s in itertools.product((1e-4, 0.5, 20.0), repeat=n):
                        X.same(cls.loglikelihood(np.array(e), np.array(s)), ref.norm_ll(e, s), "log-likelihood", resids=e, sigma2=s)
                        X.trace()
                        X.edge()
                        X.state("d", e, s)
                for sc in SCALES:
                    for e, s in itertools.product(((-3.0, 0.0, 0.7, 8.0)[:n], (40.0, -0.01, 2.0, -1.0)[:n]), itertools.product((1e-4, 0.5, 20.0, 1e4), repeat=n)):
                        e, s = [x * sc for x in e], [x * sc * sc for x in s]
                        X.same(cls.loglikelihood(np.array(e), np.array(s)), ref.norm_ll(e, s), "log-likelihood", rtol=1e-10, resids=e, sigma2=s)
                        X.trace()
                        X.edge()
                        X.state("d", sc, e, s)
        return
    cls = model(v, case["m"])
    if "long" in case:
        for T in (76, 150, 500, 1103, 2609, 12007):
            r = ref.garch_series(T, T, gamma=0.1)
            for p in PARAMS:
                one(case, X, cls, r, p, ref.backcast(r), ref.variance_bounds(r), 0.05)
        return
    if "scale" in case:
        sc = case["scale"]
        for p in (PARAMS[0], PARAMS[3], PARAMS[4]):
            p = (p[0] * sc * sc,) + p[1:]
            for n in range(1, 5):
                for r in itertools.product(ALPHABET, repeat=n):
                    r = [x * sc for x in r]
                    bd = [(0.2 * (t + 1) * sc * sc, (1.0 + t) * sc * sc) for t in range(n)] if n % 2 else [(1e-6 * sc * sc, 1e6 * sc * sc)] * n
                    one(case, X, cls, r, p, 0.9 * sc * sc, bd, 0.0 if case["zm"] else 0.3 * sc, 1e-10)
        return
    p = PARAMS[case["p"]]
    for n in range(1, case["depth"] + 1):
        for rest in itertools.product(ALPHABET, repeat=n - 1):
            r = (case["first"],) + rest
            for bd in ([(1e-6, 1e6)] * n, [(0.2 * (t + 1), 1.0 + t) for t in range(n)]):
                for mu in (-0.4, 0.0, 0.3) if not case["zm"] else (0.0,):
                    one(case, X, cls, r, p, 0.9, bd, mu)


def one(case, X, cls, r, p, bc, bd, mu, rtol=1e-8):
    vp = [p[0], p[1], p[3]] if case["m"] == "garch" else list(p)
    x = vp if case["zm"] else [mu] + vp
    want = ref.garch_nll(r, x, bc, bd, case["zm"])
    arr = np.array(r)
    m = cls(arr, zero_mean=case["zm"])
    got = m.loglikelihood_model(np.array(x), bc, np.array(bd), case["zm"])
    X.trace()
    X.edge()
    X.state(case["v"], case["m"], case["zm"], vp, mu, r if len(r) < 20 else len(r), bd[0])
    X.same(got, want, "negative log-likelihood at given parameters", rtol=rtol, returns=r[:12], params=x, zero_mean=case["zm"])
    X.true((arr == np.array(r)).all(), "the returns were modified")
    # evaluating elsewhere in between changes nothing
    m.loglikelihood_model(np.array(x) * 0.5 + 0.01, bc * 2, np.array(bd), case["zm"])
    X.same(m.loglikelihood_model(list(x), bc, np.array(bd), case["zm"]), want, "negative log-likelihood evaluated again", returns=r[:12])
    X.outcome(round(float(got), 8))
