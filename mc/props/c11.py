"""SRISK: capital shortfall of each firm and of the system."""
import itertools

import numpy as np

from mc import impl, ref

ID = "C11"
BOUNDS = (
    "every selection and order of 1..3 firms out of 4, and 16 firms, x {k} x {W} x {D} x simulation settings, firm-level and aggregate, C- and "
    "Fortran-ordered panels, and every ordered pair of estimates on one object; oracle: k*D - (1-k)*W*(1-LRMES) with LRMES estimated "
    "separately for each firm, aggregate = sum of the positive shortfalls"
)
W = {"a": 60.0, "b": 100.0, "c": 3.5, "d": 1000.0}
D = {"a": 900.0, "b": 30.0, "c": 90.0, "d": 8000.0}
FIRMS = "abcdefghijklmnop"
for _i, _f in enumerate(FIRMS[4:]):
    W[_f], D[_f] = 40.0 + 7 * _i, 300.0 + 130 * ((_i * 5) % 12)
SETS = [(0.08, 10, 60, -0.05, 42), (0.08, 4, 40, -0.9, 42), (0.055, 3, 50, -0.01, 9), (0.0, 5, 40, -0.02, 1), (1.0, 5, 40, -0.02, 1),
        (0.3, 6, 40, 0.02, 3)]


def cases(tier):
    for v in ("native", "pure"):
        for n in (1, 2, 3):
            for firms in itertools.permutations(FIRMS[:4], n):
                if tier == "quick" and v == "pure" and n == 3:
                    continue
                yield {"v": v, "firms": "".join(firms), "T": (140 if tier == "quick" else 300) if v == "native" else 60}


    # firms with the same balance sheet
    for v in ("native", "pure"):
        for firms in ("ab", "ba", "bca"):
            yield {"v": v, "firms": firms, "T": 140 if v == "native" else 60, "alike": 1}
    # a whole financial sector, and years of days
    yield {"v": "native", "firms": FIRMS, "T": 150}
    yield {"v": "native", "firms": "ca", "T": 2707}


def cost(c):
    return len(c["firms"]) + (5 if c["v"] == "pure" or c["T"] > 1000 else 0)


def panel(T):
    out = {}
    m = ref.pair_series(7, T, 0.5, alpha=0.1, beta=0.8)[1]
    for i, f in enumerate(FIRMS):
        x, _ = ref.pair_series(7, T, (0.3, 0.6, 0.8, -0.2)[i % 4], alpha=(0.05, 0.15, 0.1, 0.02)[i % 4], beta=0.7)
        g = ref.normals(30 + i)
        out[f] = np.array([0.4 * a + 0.5 * b + 0.3 * next(g) for a, b in zip(x, m)]) / 100
    return out, np.array(m) / 100


_cache = {}


def lrmes(case, f, s):
    key = (case["v"], case["T"], f, s)
    if key not in _cache:
        L = impl.variants[case["v"]].measures.LongRunMarginalExpectedShortfall
        p, m = panel(case["T"])
        _cache[key] = float(L(p[f], m).estimate(s[1], s[2], s[3], s[4]))
    return _cache[key]


def run(case, X):
    S = impl.variants[case["v"]].measures.SRISK
    p, m = panel(case["T"])
    firms = case["firms"]
    W, D = globals()["W"], globals()["D"]
    if case.get("alike"):
        W, D = dict.fromkeys(firms, 60.0), dict.fromkeys(firms, 900.0)
    n = len(firms)
    if n == 1:
        ret, w, d = p[firms].copy(), W[firms], D[firms]
    else:
        ret = np.column_stack([p[f] for f in firms])
        w, d = np.array([W[f] for f in firms]), np.array([D[f] for f in firms])

    def want(s):
        k = s[0]
        return [k * D[f] - (1 - k) * W[f] * (1 - lrmes(case, f, s)) for f in firms]

    def check(obj, s, agg, hist):
        got = obj.estimate(k=s[0], lrmes_h=s[1], lrmes_S=s[2], lrmes_C=s[3], lrmes_random_seed=s[4], aggregate_srisk=agg)
        each = want(s)
        X.edge(n)
        X.trace()
        X.state(case["v"], firms, s, agg)
        if agg:
            total = sum(max(e, 0.0) for e in each)
            X.same(float(got), total, "aggregate SRISK", firms=firms, settings=s, history=hist)
            X.outcome(round(total, 6))
        else:
            X.same(np.ravel(got), each, "SRISK of each firm", firms=firms, settings=s, history=hist)
            X.true(np.shape(got) == (() if n == 1 else (n,)), "wrong shape", shape=np.shape(got))
            X.outcome(tuple(np.round(each, 6)))

    sets = SETS if n < 3 else SETS[:3]
    for s in sets:
        for agg in (False, True):
            check(S(ret, m, w, d), s, agg, [])
    o = S(ret, m, w, d)
    for a, b in itertools.permutations([(SETS[0], False), (SETS[0], True), (SETS[2], False)], 2):
        check(o, *a, hist=[])
        check(o, *b, hist=[a])
    if n > 1:
        wide = np.full((2 * len(ret), n + 1), 0.0123)
        wide[::2, 1:] = ret
        for a in (np.asfortranarray(ret), wide[::2, 1:]):
            check(S(a, m, w, d), SETS[0], False, ["layout"])
        X.true((w == np.array([W[f] for f in firms])).all() and (ret == np.column_stack([p[f] for f in firms])).all(),
               "the inputs were modified")
    X.sample({"firms": firms, "settings": sets})
