"""Marginal expected shortfall."""
import itertools
import math

import numpy as np

from mc import impl

ID = "C21"
BOUNDS = (
    "every pair of firm and market return histories of 2..6 (thorough 7) days over {-0.1,-0.02,0,0.03} x {-0.2,-0.05,0,0.01} (ties, constant "
    "markets), 12 quantiles, every array layout; every quantile k/200 and others on histories of 5..253 days at three scales; histories of 250 and 1000 days with the crash on every day; every ordered pair of estimates "
    "on one object; oracle: interpolated percentile and mean over the days strictly below it; order of days irrelevant"
)
FIRM, MKT = (-0.1, -0.02, 0.0, 0.03), (-0.2, -0.05, 0.0, 0.01)
QS = (0.05, 0.0, 0.01, 0.1, 0.2, 0.25, 1 / 3, 0.4, 0.5, 0.75, 0.9, 1.0)


def cases(tier):
    d = 6 if tier == "quick" else 7
    for m in itertools.product(MKT, repeat=2):
        yield {"m": list(m), "depth": d}
    for n in (20, 101, 250, 1000, 5209, 11003):
        yield {"n": n}
    for n in (5, 20, 21, 101, 250, 253):
        yield {"quantiles": n}
    yield {"forms": 1}
    yield {"history": 1}


def percentile(x, q):
    s = sorted(x)
    pos = q * (len(s) - 1)
    k = min(int(math.floor(pos)), len(s) - 2) if len(s) > 1 else 0
    if len(s) == 1:
        return s[0]
    return s[k] + (pos - k) * (s[k + 1] - s[k])


def mes(f, m, q):
    """None where no day is below the percentile, or rounding decides whether a day is."""
    t = percentile(m, q)
    sel = [i for i, x in enumerate(m) if x < t]
    if not sel or any(x != t and abs(x - t) < 1e-9 for x in m):
        return None
    pos = q * (len(m) - 1)
    if t in m and abs(pos - round(pos)) > 1e-9 and sorted(m)[int(pos)] != sorted(m)[min(int(pos) + 1, len(m) - 1)]:
        return None
    if abs(pos - round(pos)) < 1e-9 and pos != round(pos):
        return None
    return math.fsum(f[i] for i in sel) / len(sel)


def run(case, X):
    C = impl.native.measures.MarginalExpectedShortfall
    if "n" in case:
        n = case["n"]
        for day in range(0, n, 1 if n <= 250 else 17 if n <= 1000 else n // 5):
            f = [0.01 * ((i * i * 7 // 3) % 9 - 4) for i in range(n)]
            m = [0.001 * ((i * i * 11 // 3) % 97 - 30) + 1e-5 * (i if n <= 1000 else 0.07 * i) for i in range(n)]
            m[day], f[day] = -0.5, -0.9
            for q in (0.05, 0.01, 0.5):
                want = mes(f, m, q)
                X.edge(n)
                X.state(n, day, q)
                if want is not None:
                    X.trace()
                    X.same(float(C(np.array(f), np.array(m)).estimate(q)), want, "MES", n=n, crash_day=day, q=q)
        return
    if "quantiles" in case:
        n = case["quantiles"]
        qs = sorted({k / 200 for k in range(201)} | {k / 1000 for k in range(0, 1000, 7)} | {0.0125, 0.025, 0.0999, 0.29, 0.555, 1 / 3, 2 / 3, 0.999})
        for sc in (1.0, 1e-4, 50.0):
            f = np.array([sc * (0.01 * ((i * 7) % 9 - 4) + 0.0003 * i) for i in range(n)])
            m = np.array([sc * (0.001 * ((i * 37) % 101 - 30) + 1e-5 * i) for i in range(n)])
            for q in qs:
                want = mes(list(f), list(m), q) if sc != 1e-4 else None
                if want is None and sc == 1e-4:
                    u = mes(list(f / sc), list(m / sc), q)
                    want = None if u is None else u * sc
                X.edge()
                X.state("q", n, sc, q)
                if want is not None:
                    X.trace()
                    X.same(float(C(f, m).estimate(q)), want, "MES", n=n, q=q, scale=sc)
        return
    if "forms" in case:
        for m in itertools.product(MKT, repeat=4):
            f = [0.02, -0.04, -0.3, 0.1]
            want = mes(f, m, 0.5)
            if want is None:
                continue
            w = np.full((8, 3), -9.9)
            w[::2, 0], w[::2, 2] = f, m
            F, M = np.array(f), np.array(m)
            for name, (a, b) in {"strided": (w[::2, 0], w[::2, 2]), "reversed": (F[::-1].copy()[::-1], M[::-1].copy()[::-1]),
                                 "float32": (F.astype(np.float32), M.astype(np.float32))}.items():
                X.trace()
                X.edge()
                X.state("form", m, name)
                if name != "float32" or len(set(m)) == 4:
                    X.same(float(C(a, b).estimate(0.5)), want, "MES", rtol=1e-5 if name == "float32" else 1e-9, market=m, form=name)
        return
    if "history" in case:
        f, m = np.array([0.02, -0.04, -0.3, 0.1, 0.05, -0.01]), np.array([-0.1, 0.02, -0.05, 0.03, 0.001, -0.2])
        f0, m0 = f.copy(), m.copy()
        for hist in itertools.product((0.05, 0.5, 0.25, 0.9), repeat=3):
            o = C(f, m)
            for q in hist:
                X.trace()
                X.edge()
                X.same(float(o.estimate(q)), mes(list(f0), list(m0), q), "MES after other estimates", history=hist, q=q)
            X.state(hist)
        X.true((f == f0).all() and (m == m0).all(), "the returns were modified")
        X.same(float(C(f, m).estimate()), mes(list(f0), list(m0), 0.05), "MES with the default quantile")
        return

    def explore(f, m):
        n = len(m)
        X.edge()
        X.state(tuple(f), tuple(m))
        for q in QS if n <= 4 else (0.05, 0.25, 0.5):
            want = mes(f, m, q)
            if want is None:
                continue
            X.trace()
            got = float(C(np.array(f), np.array(m)).estimate(q))
            X.same(got, want, "MES", firm=f, market=m, q=q)
            X.outcome(round(got, 9))
        if n < case["depth"]:
            if n < 4:
                for a, b in itertools.product(FIRM if n < 3 or case["depth"] > 6 else FIRM[::3], MKT):
                    explore(f + [a], m + [b])
            else:
                # longer: markets in full, firm returns that identify the day
                for b in MKT:
                    explore(f + [0.001 * 3 ** n], m + [b])

    for f in itertools.product(FIRM, repeat=2):
        explore(list(f), list(case["m"]))
    X.sample({"market_starts": case["m"]})
