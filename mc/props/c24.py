"""Black-Scholes option values."""
import itertools
import math

import numpy as np

from mc import impl

ID = "C24"
BOUNDS = (
    "every point of a grid of 9 spots x 9 strikes x 5 rates x 6 maturities x 6 volatilities x 3 yields (thorough: a grid twice as fine), as scalars, as "
    "0-d and as broadcast arrays; oracle: closed form with erfc; put-call parity, no-arbitrage bounds, monotonicity along every grid line, homogeneity"
)


def grid(tier):
    if tier == "quick":
        S = (0.01, 0.5, 0.67, 1.0, 9.5, 10.0, 55.0, 100.0, 1e4)
        return S, S, (-0.02, 0.0, 0.01, 0.08, 0.5), (1e-4, 0.1, 1.0, 5.0, 20.0, 50.0), (1e-3, 0.05, 0.2, 0.33, 1.2, 4.0), (0.0, 0.002, 0.1)
    S = (1e-4, 0.01, 0.2, 0.5, 0.67, 0.7, 1.0, 3.0, 9.5, 10.0, 10.5, 55.0, 100.0, 130.0, 1e3, 1e4)
    return S, S, (-0.05, -0.02, 0.0, 1e-3, 0.01, 0.04, 0.08, 0.5), (1e-6, 1e-4, 0.1, 0.5, 1.0, 5.0, 10.0, 20.0, 50.0, 100.0), (
        1e-4, 1e-3, 0.05, 0.1, 0.2, 0.33, 0.6, 1.2, 4.0), (-0.01, 0.0, 0.002, 0.05, 0.1)


def cases(tier):
    g = grid(tier)
    for i, j in itertools.product(range(len(g[0])), range(len(g[1]))):
        yield {"i": i, "j": j, "tier": tier}


def N(x):
    return 0.5 * math.erfc(-x / math.sqrt(2))


def value(S, K, r, T, s, q):
    d1 = (math.log(S / K) + (r - q + s * s / 2) * T) / (s * math.sqrt(T))
    d2 = d1 - s * math.sqrt(T)
    F, D = S * math.exp(-q * T), K * math.exp(-r * T)
    return F * N(d1) - D * N(d2), D * N(-d2) - F * N(-d1)


def run(case, X):
    f = impl.native.measures.blsprice
    Ss, Ks, rs, Ts, sig, qs = grid(case["tier"])
    S, K = Ss[case["i"]], Ks[case["j"]]
    for r, T, q in itertools.product(rs, Ts, qs):
        prev = (-1.0, -1.0)
        F, D = S * math.exp(-q * T), K * math.exp(-r * T)
        tol = 1e-10 * (F + D)
        vals = []
        for s in sig:
            X.edge()
            X.trace()
            X.state(S, K, r, T, s, q)
            c, p = f(S, K, r, T, s, q)
            c, p = float(c), float(p)
            wc, wp = value(S, K, r, T, s, q)
            d = dict(S=S, K=K, r=r, T=T, sigma=s, q=q)
            X.same([c, p], [wc, wp], "option values", rtol=1e-7, atol=tol, **d)
            X.true(abs((c - p) - (F - D)) <= 10 * tol, "put-call parity", **d)
            X.true(max(F - D, 0) - 10 * tol <= c <= F + tol and max(D - F, 0) - 10 * tol <= p <= D + tol, "no-arbitrage bounds", call=c, put=p, **d)
            X.true(c >= prev[0] - 10 * tol and p >= prev[1] - 10 * tol, "values decrease in volatility", call=c, put=p, before=prev, **d)
            prev = (c, p)
            vals.append((c, p))
            X.outcome((round(c, 6), round(p, 6)))
            if q == 0:
                X.same(list(map(float, f(S, K, r, T, s))), [c, p], "default yield", rtol=1e-12, atol=tol, **d)
        # vectors, as used for lookup tables
        arr = np.array(sig)
        for a in (f(S, K, r, T, arr, q), f(np.full(len(arr), S), np.full(len(arr), K), r, np.full(len(arr), T), arr, q)):
            X.trace()
            X.same(np.array(a).T, np.array(vals), "values of an array of volatilities", rtol=1e-9, atol=tol, S=S, K=K, r=r, T=T, q=q)
        X.same(list(map(float, f(2 * S, 2 * K, r, T, sig[2], q))), [2 * v for v in vals[2]], "values are not homogeneous in spot and strike", rtol=1e-9, atol=tol)
    if case["i"] == case["j"]:
        # long arrays: as many contracts as an option chain, and more
        for n in (1031, 70001):
            s = np.array([0.05 + 0.001 * ((i * 7919) % 997) for i in range(n)])
            got = np.array(f(S, np.full(n, K), 0.02, np.full(n, 0.7), s, 0.01))
            X.edge(n)
            X.true(got.shape == (2, n), "one pair of values for each of the volatilities expected", n=n)
            first = {}
            for i in range(n):
                first.setdefault(float(s[i]), i)
            want = {k: value(S, K, 0.02, 0.7, k, 0.01) for k in first}
            X.trace()
            X.same(got.T, np.array([want[float(k)] for k in s]), "values of a long array", rtol=1e-7, atol=1e-10 * (S + K), n=n)
    X.same(np.array(f(np.array(Ss)[:, None], np.array(Ks)[None, :], 0.01, 1.0, 0.33, 0.0))[:, case["i"], case["j"]], list(value(S, K, 0.01, 1.0, 0.33, 0.0)),
           "values of a grid", rtol=1e-7, atol=1e-10 * (S + K))
    X.sample({"S": S, "K": K})
