"""Contingent claim analysis."""
import itertools
import math

from scipy.optimize import brentq

from mc import impl

ID = "C25"
BOUNDS = (
    "every point of a grid of 5 equities x 4 volatilities x 3 rates x 5 barriers x 4 maturities x 3 CDS spreads (thorough: finer), as class and "
    "instance calls, in every order of two calls; oracle: bracketed root of the equity-value and equity-volatility equations, put of the "
    "implied assets, CDS-implied put; the systemic contribution does not increase in the CDS spread"
)


def grid(tier):
    if tier == "quick":
        return (0.5, 1.0, 5.0, 20.0, 100.0), (0.1, 0.3, 0.6, 1.2), (0.0, 0.02, 0.1), (0.5, 1.0, 10.0, 50.0, 200.0), (0.5, 1.0, 5.0)
    return ((0.5, 1.0, 2.0, 5.0, 12.0, 20.0, 50.0, 100.0), (0.1, 0.2, 0.3, 0.45, 0.6, 0.9, 1.2), (0.0, 0.01, 0.02, 0.05, 0.1),
            (0.5, 1.0, 3.0, 10.0, 25.0, 50.0, 120.0, 200.0), (0.5, 1.0, 2.0, 5.0))


SPREADS = (0.0, 1.5, 200.0)


def cases(tier):
    g = grid(tier)
    for i, j in itertools.product(range(len(g[0])), range(len(g[3]))):
        yield {"i": i, "j": j, "tier": tier}
    yield {"example": 1}


def N(x):
    return 0.5 * math.erfc(-x / math.sqrt(2))


def solve(e, vol, rf, d, t):
    """Implied assets and asset volatility."""
    D = d * math.exp(-rf * t)

    def d1(A, s):
        return (math.log(A / d) + (rf + s * s / 2) * t) / (s * math.sqrt(t))

    def call(A, s):
        x = d1(A, s)
        return A * N(x) - D * N(x - s * math.sqrt(t))

    def A_of(s):
        return brentq(lambda A: call(A, s) - e, e * (1 - 1e-12), e + D * (1 + 1e-12), xtol=1e-13 * (e + D), rtol=1e-14, maxiter=500)

    def g(s):
        A = A_of(s)
        return A * s * N(d1(A, s)) - e * vol

    s = brentq(g, 1e-4 * vol, vol * 1.0000001, xtol=1e-14, rtol=1e-13, maxiter=500)
    return A_of(s), s, D


def put(A, s, rf, d, t):
    x = (math.log(A / d) + (rf + s * s / 2) * t) / (s * math.sqrt(t))
    return d * math.exp(-rf * t) * N(-x + s * math.sqrt(t)) - A * N(-x)


def run(case, X):
    C = impl.native.measures.ContingentClaimAnalysis
    if "example" in case:
        p, c = C().estimate(equity=5, volatility=1.2, risk_free_rate=0.02, default_barrier=10, time_to_maturity=20, cds_spread=1.5)
        X.trace()
        X.state("example")
        X.edge()
        X.same([p, c], [6.659378336338627, 3.3467523905471133], "the worked example", rtol=1e-6)
        return
    E, V, R, Ds, Tm = grid(case["tier"])
    e, d = E[case["i"]], Ds[case["j"]]
    for vol, rf, t in itertools.product(V, R, Tm):
        try:
            A, s, D = solve(e, vol, rf, d, t)
        except ValueError:
            X.count("points_without_bracket")
            continue
        wp = put(A, s, rf, d, t)
        prev = None
        for spread in SPREADS:
            X.edge()
            X.state(e, vol, rf, d, t, spread)
            wc = (1 - math.exp(-(spread / 1e4) * (d / (D - wp) - 1) * t)) * D
            got = [float(v) for v in C.estimate(e, vol, rf, d, t, spread)]
            X.trace()
            q = dict(equity=e, volatility=vol, rf=rf, barrier=d, maturity=t, spread=spread)
            X.same(got, [wp, wp - wc], "put price and systemic contribution", rtol=1e-5, atol=1e-7 * (d + e), **q)
            X.true(-1e-9 * d <= got[0] <= D * (1 + 1e-9), "the put is worth less than nothing or more than the debt", put=got[0], **q)
            if spread == 0.0:
                X.same(got[1], got[0], "without a CDS spread the contribution is the whole put", atol=1e-9 * d, **q)
            X.true(prev is None or got[1] <= prev + 1e-9 * d, "the contribution increases in the CDS spread", **q)
            prev = got[1]
            X.outcome((round(got[0], 6), round(got[1], 6)))
        again = [float(v) for v in C().estimate(equity=e, volatility=vol, risk_free_rate=rf, default_barrier=d, time_to_maturity=t, cds_spread=SPREADS[-1])]
        X.same(again, got, "a second call differs", rtol=1e-12)
    X.sample({"equity": e, "barrier": d})
