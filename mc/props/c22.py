"""Systemic expected shortfall."""
import itertools
from fractions import Fraction as Fr

import numpy as np

from mc import impl

ID = "C22"
BOUNDS = (
    "every training sample of 3 and 4 (thorough 5) firms over 5 (MES, leverage) pairs x 3 outcomes, and long samples with one unusual firm at "
    "every position, and samples of 5 around high levels and in small or large units, x 4 current firms; oracle: exact rational least squares with a constant, SES = (b*MES + c*LVG)/(b+c); order of firms "
    "irrelevant; scaling outcomes has no effect"
)
ML = [(Fr(-23, 1000), Fr(18, 10)), (Fr(-7, 100), Fr(15, 10)), (Fr(1, 100), Fr(22, 10)), (Fr(-2, 10), Fr(12)), (Fr(0), Fr(1))]
SES = (Fr(3, 10), Fr(-2, 10), Fr(5, 100))
NOW = [(Fr(4, 100), Fr(17, 10)), (Fr(-1, 10), Fr(30)), (Fr(0), Fr(0)), (Fr(1, 2), Fr(0))]

# level and unit of MES and of leverage
OFFSETS = [(0, 1, 3 * 10**4, 1), (0, Fr(1, 10000), 0, 1), (Fr(1, 2), Fr(1, 10**3), 12, 1), (0, Fr(1, 10), 10**4, 1),
           (0, 1, 0, Fr(1, 10**5)), (-3, Fr(1, 10), -2000, 1), (0, Fr(1, 100), 0, 10**6), (0, Fr(1, 10**7), 0, 1)]


def cases(tier):
    for n in (3, 4) if tier == "quick" else (3, 4, 5):
        for first in itertools.product(range(len(ML)), repeat=2):
            yield {"n": n, "first": list(first)}
    for off in range(len(OFFSETS)):
        yield {"offset": off}
    for n in (20, 150, 1103, 5209):
        yield {"long": n}


def det3(a):
    return (a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
            + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]))


def fit(ml, y):
    """Exact normal equations; None if the firms do not identify the coefficients."""
    rows = [(Fr(1), m, l) for m, l in ml]
    A = [[sum(r[i] * r[j] for r in rows) for j in range(3)] for i in range(3)]
    v = [sum(r[i] * t for r, t in zip(rows, y)) for i in range(3)]
    d = det3(A)
    if d == 0:
        return None
    out = []
    for k in range(3):
        B = [list(r) for r in A]
        for i in range(3):
            B[i][k] = v[i]
        out.append(det3(B) / d)
    return out


def run(case, X):
    C = impl.native.measures.SystemicExpectedShortfall

    def check(ml, y, what, rtol=1e-7, away=Fr(1, 1000)):
        be = fit(ml, y)
        if be is None or abs(be[1] + be[2]) < away * max(abs(be[1]), abs(be[2]), Fr(1, 10**6)):
            return
        a = [np.array([float(v) for v in c]) for c in ([m for m, _ in ml], [l for _, l in ml], y)]
        for m, l in NOW:
            want = float((be[1] * m + be[2] * l) / (be[1] + be[2]))
            X.trace()
            got = float(C(*a, float(m), float(l)).estimate())
            X.same(got, want, "SES", rtol=rtol, atol=1e-9, sample=[[float(p), float(q)] for p, q in ml][:6], ses=[float(v) for v in y][:6], now=[float(m), float(l)], which=what)
            X.outcome(round(got, 9))
        for k in (7, 1e-6, 1e6, -1e-9):
            X.same(float(C(a[0], a[1], k * a[2], 0.04, 1.7).estimate()), float(C(*a, 0.04, 1.7).estimate()), "scaling the outcomes changes SES", rtol=rtol, atol=1e-9, by=k)
        return a

    if "offset" in case:
        a, u, b, w = map(Fr, OFFSETS[case["offset"]])
        for idx in itertools.product(range(4), repeat=5):
            ml = [(a + u * ((3 * k + i * i) % 5), b + w * ((2 * k * k + 5 * i) % 7)) for i, k in enumerate(idx)]
            y = [Fr(1, 10) + 2 * (m - a) / u + (l - b) / w + Fr((i * 3 + k) % 4, 10) for i, (k, (m, l)) in enumerate(zip(idx, ml))]
            X.edge()
            X.state("offset", case["offset"], idx)
            check(ml, y, (case["offset"], idx), 1e-8, Fr(1, 3))
        return
    if "long" in case:
        n = case["long"]
        for pos in range(0, n, 1 if n < 1000 else 211):
            ml = [(Fr((i * 7) % 11 - 5, 100), Fr((i * 3) % 13 + 5, 4)) for i in range(n)]
            y = [Fr((i * 5) % 7 - 3, 10) for i in range(n)]
            ml[pos], y[pos] = (Fr(9, 10), Fr(40)), Fr(-7)
            X.edge()
            X.state(n, pos)
            check(ml, y, pos)
        return
    n = case["n"]
    for rest in itertools.product(range(len(ML)), repeat=n - 2):
        idx = list(case["first"]) + list(rest)
        for y in itertools.product(SES, repeat=n):
            X.edge()
            X.state(tuple(idx), y)
            a = check([ML[i] for i in idx], list(y), idx)
    w = np.full((6, 3), 9.9)
    a = [np.array([-0.023, -0.07, 0.01]), np.array([1.8, 1.5, 2.2]), np.array([0.3, 0.4, -0.2])]
    for j in range(3):
        w[::2, j] = a[j]
    X.same(float(C(w[::2, 0], w[::2, 1], w[::2, 2], 0.04, 1.7).estimate()), float(C(*a, 0.04, 1.7).estimate()), "SES of strided arrays")
    X.sample({"firms": n, "first": case["first"]})
