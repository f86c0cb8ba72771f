"""Distress insurance premium."""
import itertools
import math
from statistics import NormalDist

import numpy as np

from mc import impl

ID = "C26"
BOUNDS = (
    "1..6, 70, 135 and 300 banks x correlation structures x default probabilities x seeds x sample sizes, at every whole-percent threshold from 0 to 100 and 14 in between and above; every "
    "ordered pair of estimates on one object; oracle: the same random draws followed scenario by scenario, losses in whole percent of "
    "liabilities rounded up, expected loss at or above the threshold; non-increasing in the threshold; the documented example"
)
PROB = {1: [[0.3], [0.999], [0.0001]], 2: [[0.02, 0.5], [0.9, 0.9]], 3: [[0.02, 0.1, 0.5], [0.99, 0.95, 0.9]], 4: [[0.3, 0.2, 0.1, 0.05]],
        6: [[0.02, 0.10, 0.03, 0.20, 0.50, 0.15], [0.7] * 6]}
RHO = (0.0, 0.5, -0.15)
THRESHOLDS = tuple(range(0, 101)) + (0.1, 0.5, 4.75, 12.5, 14.99, 15.01, 33.3, 54.6, 66.67, 99.2, 99.5, 99.99, 100.5, 250)  # in percent


def cases(tier):
    q = tier == "quick"
    for n, ps in PROB.items():
        for i, rho, seed in itertools.product(range(len(ps)), RHO, range(2 if q else 5)):
            for nr, ns in ((400, 60), (37, 5)) if q else ((400, 60), (37, 5), (3000, 300), (1, 1)):
                yield {"n": n, "p": i, "rho": rho, "seed": seed, "nr": nr, "ns": ns}
    for n, p, rho in ((70, 0.3, 0.9), (135, 0.5, 0.95), (300, 0.6, 0.9), (300, 0.97, 0.2)):
        yield {"banks": n, "p": p, "rho": rho}
    for seed in range(3 if q else 12):
        yield {"everything": seed}
    yield {"example": 1}
    yield {"history": 1}


def corr(n, rho):
    return np.array([[1.0 if i == j else rho * (1 - 0.1 * abs(i - j)) for j in range(n)] for i in range(n)])


def slots(prob, C, seed, nr, ns):
    """Probability of each total loss, in percent of one bank's liabilities, rounded up."""
    rng = np.random.RandomState(seed)
    n = len(prob)
    cut = [NormalDist().inv_cdf(p) for p in prob]
    L = [[0.0] * n for _ in range(n)]  # Cholesky
    for i in range(n):
        for j in range(i + 1):
            s = C[i][j] - math.fsum(L[i][k] * L[j][k] for k in range(j))
            L[i][j] = math.sqrt(s) if i == j else s / L[j][j]
    freq = [0] * (n + 1)
    for row in rng.normal(0, 1, size=(nr, n)).tolist():
        freq[sum(math.fsum(L[i][k] * row[k] for k in range(i + 1)) < cut[i] for i in range(n))] += 1
    out = {}
    lgds = [rng.triangular(0.1, 0.55, 1, size=(i + 1, ns)) for i in range(n)]
    for i in range(n):
        for j in range(ns):
            k = math.ceil(float(np.sum(lgds[i][:, j])) * 100)
            out[k] = out.get(k, 0.0) + freq[i + 1] / nr / ns
    return out


def run(case, X):
    C = impl.native.measures.DistressInsurancePremium
    if "example" in case:
        p = np.array(PROB[6][0])
        c = np.array([[1.0, -0.126, -0.637, 0.174, 0.469, 0.283], [-0.126, 1.0, 0.294, 0.674, 0.150, 0.053], [-0.637, 0.294, 1.0, 0.073, -0.658, -0.085],
                      [0.174, 0.674, 0.073, 1.0, 0.248, 0.508], [0.469, 0.150, -0.658, 0.248, 1.0, -0.370], [0.283, 0.053, -0.085, 0.508, -0.370, 1.0]])
        X.state("example")
        X.edge()
        X.trace()
        X.same(C(p, c).estimate(), 0.28657335507, "the documented example", rtol=1e-6)
        return
    if "everything" in case:
        # enough draws for some losses of one bank to round up to all of its liabilities
        seed = case["everything"]
        dist = slots([0.9], [[1.0]], seed, 40, 20000)
        X.true(dist.get(100, 0.0) > 0, "no loss rounds up to everything: choose other seeds", seed=seed)
        for pct in (0, 50, 97.5, 98, 98.5, 99, 99.5, 100, 100.5):
            X.edge(len(dist))
            X.trace()
            X.state("everything", seed, pct)
            want = math.fsum(k * v for k, v in dist.items() if k >= pct - 1e-7) / 100
            X.same(float(C(np.array([0.9]), np.eye(1)).estimate(pct / 100, seed, 40, 20000)), want, "premium of losses of everything", threshold=pct / 100, seed=seed)
        return
    if "history" in case:
        p, c = np.array(PROB[3][0]), corr(3, 0.5)
        p0, c0 = p.copy(), c.copy()
        calls = [(0.15, 0, 300, 40), (0.4, 0, 300, 40), (0.15, 1, 300, 40), (0.15, 0, 100, 10)]
        for h in itertools.product(calls, repeat=2):
            o = C(p, c)
            for a in h:
                X.edge()
                X.trace()
                got = o.estimate(*a)
                X.same(got, C(p0.copy(), c0.copy()).estimate(*a), "an estimate depends on an earlier one", rtol=1e-12, history=h)
            X.state(h)
        X.true((p == p0).all() and (c == c0).all(), "the inputs were modified")
        return
    if "banks" in case:
        n = case["banks"]
        c = np.full((n, n), case["rho"])
        np.fill_diagonal(c, 1.0)
        prob = [case["p"]] * n
        dist = slots(prob, c.tolist(), 0, 150, 4)
        for pct in (0, 5, 15, 15.5, 40, 50, 53.995, 54, 60, 80, 99.9, 100):
            X.edge(len(dist))
            X.trace()
            X.state("banks", n, case["p"], pct)
            want = math.fsum(k * v for k, v in dist.items() if k >= pct * n - 1e-7) / 100
            X.same(float(C(np.array(prob), c).estimate(pct / 100, 0, 150, 4)), want, "distress insurance premium of many banks", threshold=pct / 100, banks=n, probability=case["p"])
        return
    n = case["n"]
    prob, c = PROB[n][case["p"]], corr(n, case["rho"])
    dist = slots(prob, c.tolist(), case["seed"], case["nr"], case["ns"])
    w = np.zeros((2 * n, 2 * n))
    w[::2, ::2] = c
    prev = None
    for pct in sorted(THRESHOLDS):
        X.edge(len(dist))
        X.state(n, case["p"], case["rho"], case["seed"], case["nr"], pct)
        want = math.fsum(k * v for k, v in dist.items() if k >= pct * n - 1e-7) / 100
        mat = c if pct % 3 else np.asfortranarray(c) if pct % 2 else w[::2, ::2]
        got = C(np.array(prob), mat).estimate(pct / 100, case["seed"], case["nr"], case["ns"])
        X.trace()
        X.true(got == got, "the premium is not a number", threshold=pct / 100, banks=n, probabilities=prob)
        X.same(float(got), want, "distress insurance premium", rtol=1e-8, threshold=pct / 100, banks=n, probabilities=prob, rho=case["rho"], seed=case["seed"])
        X.true(prev is None or got <= prev + 1e-12, "the premium increases in the threshold", threshold=pct / 100)
        prev = got
        X.outcome(round(float(got), 9))
    X.sample({"banks": n, "probabilities": prob, "loss_slots": len(dist)})
