"""PIN likelihoods."""
import itertools
import math

import numpy as np

from mc import impl, ref

ID = "C19"
BOUNDS = (
    "every history of 1..3 (thorough 4) days over 7 (buys, sells) pairs x a grid of 40 parameter vectors x both factorizations; rates from 1e-6 to 2000 and mu from 1e-3 to 5000 with low counts; counts up to "
    "50000 for the overflow-free one; starting-value grids for every history; integer and float counts, layouts; oracle: the Poisson mixture "
    "of good-news, bad-news and no-news days evaluated day by day"
)
DAYS = [(0, 0), (1, 3), (20, 5), (40, 40), (90, 40), (40, 90), (7, 60)]
LOW = [(0, 0), (0, 1), (1, 0), (2, 3), (0, 6), (9, 1), (40, 55)]
BIG = [(5000, 4000), (12000, 3000), (3000, 50000), (0, 800), (900, 0)]
PARS = list(itertools.product((0.1, 0.5, 0.95), (0.2, 0.8), ((40.0, 40.0, 50.0), (3.0, 8.0, 30.0), (0.5, 60.0, 2.0), (20.0, 1.0, 100.0)))) + [
    (0.4, 0.5, (40.0, 40.0, 50.0)), (1.0, 0.3, (10.0, 20.0, 30.0)), (0.3, 0.0, (10.0, 20.0, 30.0)), (0.3, 1.0, (10.0, 20.0, 30.0)),
    (0.0, 0.5, (30.0, 20.0, 10.0))]
BIGP = [(0.3, 0.4, (4000.0, 3500.0, 8000.0)), (0.9, 0.9, (700.0, 800.0, 60.0)), (0.2, 0.1, (10000.0, 30000.0, 20000.0))]

RATES = (1e-6, 1e-3, 0.05, 0.5, 3.0, 60.0, 2000.0)


def cases(tier):
    d = 3 if tier == "quick" else 4
    for i, j in itertools.product(range(len(DAYS)), range(len(PARS))):
        yield {"first": i, "par": j, "depth": d}
    for i, j in itertools.product(range(len(BIG)), range(len(BIGP))):
        yield {"big": i, "par": j, "depth": d}
    for n in (60, 300):
        yield {"n": n}
    for eb, es in itertools.product(RATES, repeat=2):
        yield {"eb": eb, "es": es}
    for i in range(len(DAYS)):
        yield {"starts": i, "depth": d}


def par(p):
    return [p[0], p[1], *p[2]]


def run(case, X):
    P = impl.native.measures.PIN

    def check(B, S, th, methods=("EHO2010", "LK2011"), **d):
        want = -ref.pin_ll(B, S, th)
        for kind in (np.int64, np.float64):
            p = P(np.array(B, dtype=kind), np.array(S, dtype=kind))
            for m in methods:
                X.trace()
                got = float(getattr(p, "loglikelihood_" + m)(np.array(th)))
                X.same(got, want, "negative log-likelihood (%s)" % m, rtol=1e-8, atol=1e-7, B=B[:8], S=S[:8], params=th, **d)
        X.outcome(round(want, 6))

    if "eb" in case:
        eb, es = case["eb"], case["es"]
        for a, d, mu in itertools.product((0.1, 0.5, 0.95), (0.2, 0.8), (1e-3, 0.1, 2.0, 100.0, 5000.0)):
            for hist in itertools.chain(itertools.product(LOW, repeat=1), itertools.product(LOW, repeat=2)):
                B, S = [h[0] for h in hist], [h[1] for h in hist]
                X.edge()
                X.state(eb, es, a, d, mu, hist)
                # the other factorization holds powers of the rates, which may overflow
                x = max(math.log10(1 + mu / eb), math.log10(1 + mu / es))
                big = x * 2 * max(min(h) + max(h) / 2 for h in hist) + mu / 2.3
                check(B, S, [a, d, eb, es, mu], ("EHO2010", "LK2011") if big < 250 else ("LK2011",))
        return
    if "n" in case:
        n = case["n"]
        for pos in range(0, n, 7):
            B, S = [DAYS[i % 7][0] for i in range(n)], [DAYS[i % 7][1] for i in range(n)]
            B[pos], S[pos] = 130, 2
            X.edge(n)
            X.state(n, pos)
            check(B, S, [0.4, 0.5, 40.0, 40.0, 50.0], n=n, position=pos)
        return
    if "starts" in case:
        def explore(idx):
            B, S = [DAYS[i][0] for i in idx], [DAYS[i][1] for i in idx]
            X.edge()
            X.state("starts", tuple(idx))
            if sum(B):
                got = [tuple(map(float, g)) for g in P(np.array(B), np.array(S)).init_params_grid_search()]
                want = list(ref.pin_starts(B, S))
                edge = [w for w in want if w[3] < 1e-9]
                X.trace()
                if not edge and not any(abs(ref.mean(S) - a * d * (1 - g) * ref.mean(B) / (a * (1 - d))) < 1e-9 for a in (.5,) for d in (.1, .3, .5, .7, .9)
                                        for g in (.1, .3, .5, .7, .9)):
                    X.same(sorted(got), sorted(want), "starting values of the grid search", B=B, S=S)
                for a, d, eb, es, mu in got:
                    # every start reproduces the average number of buys and sells
                    X.same(eb + a * (1 - d) * mu, ref.mean(B), "a start does not reproduce the average buys", B=B, S=S)
                    X.same(es + a * d * mu, ref.mean(S), "a start does not reproduce the average sells", B=B, S=S, atol=1e-9)
            if len(idx) < case["depth"]:
                for i in range(len(DAYS)):
                    explore(idx + [i])

        explore([case["starts"]])
        return
    days, th = (BIG, par(BIGP[case["par"]])) if "big" in case else (DAYS, par(PARS[case["par"]]))

    def explore(idx):
        B, S = [days[i][0] for i in idx], [days[i][1] for i in idx]
        X.edge()
        X.state("big" in case, tuple(idx), case["par"])
        with np.errstate(all="ignore"):
            check(B, S, th, ("LK2011",) if "big" in case else ("EHO2010", "LK2011"))
        if len(idx) == 2:
            w = np.zeros((4, 2), dtype=int)
            w[::2, 0], w[::2, 1] = B, S
            p = P(w[::2, 0], w[::2, 1])
            X.same(float(p.loglikelihood_LK2011(th)), -ref.pin_ll(B, S, th), "negative log-likelihood of strided counts", atol=1e-7)
        if len(idx) < case["depth"]:
            for i in range(len(days)):
                explore(idx + [i])

    explore([case.get("first", case.get("big"))])
    X.sample({"params": th})
