"""Absorption ratio."""
import itertools
import math

import numpy as np

from mc import impl

ID = "C23"
BOUNDS = (
    "every return panel of 2 assets x 3 days and 3 assets x 2 days over {-1,0,2} (thorough 2 x 4 and 3 x 3), structured panels up to 40 assets "
    "including more assets than days, 14 classes of units (1e-12 to 1e9, flat assets, assets of different size), every fraction k/20 and k/n; every ordered pair of estimates on one object; oracle: eigenvalues of the "
    "sample covariance by characteristic polynomial or Jacobi rotations; value in [0,1], non-decreasing in the fraction, invariant to scale, "
    "to the order of assets and of days"
)


# how the units of the assets differ: (scale of asset i, level added to every return)
UNITS = {
    "all 1e-12": lambda i, n: (1e-12, 0), "all 1e-9": lambda i, n: (1e-9, 0), "all 1e-6": lambda i, n: (1e-6, 0), "all 1e-3": lambda i, n: (1e-3, 0),
    "all 1e6": lambda i, n: (1e6, 0), "all 1e9": lambda i, n: (1e9, 0), "one large": lambda i, n: (50.0 if i == n - 1 else 1.0, 0),
    "one large in small units": lambda i, n: (5e-9 * (20.0 if i == n - 1 else 1.0), 0), "around 1e-8": lambda i, n: (1e-8 * (0.2 + i), 0),
    "flat ones": lambda i, n: (0.0 if i % 2 else 1.0, 0), "flat ones at a level": lambda i, n: (0.0 if i % 2 else 1.0, 3.5),
    "geometric": lambda i, n: (3.0 ** -i, 0), "in percent": lambda i, n: (100.0, 5.0), "dominated": lambda i, n: (1e4 if i == 0 else 1.0, 0),
}


def cases(tier):
    q = tier == "quick"
    for shape in ((2, 3), (3, 2)) if q else ((2, 4), (3, 3), (4, 2)):
        cells = shape[0] * shape[1]
        for head in itertools.product((-1.0, 0.0, 2.0), repeat=3):
            yield {"shape": list(shape), "head": list(head)}
    for n, T in ((60, 1100), (101, 60), (300, 500), (40, 5200)):
        yield {"large": n, "T": T}
        yield {"large": n, "T": T, "decay": 0.8}
    for k in range(len(UNITS)):
        for n, T in ((2, 5), (3, 8), (4, 30), (6, 4), (20, 60)):
            yield {"units": k, "n": n, "T": T}
    for n, T in itertools.product((2, 3, 5, 8, 10, 20, 40), (2, 3, 6, 30, 100)):
        for s in range(2 if q else 6):
            yield {"n": n, "T": T, "s": s}


def large(case, X):
    """Panels of hundreds of assets: the eigenvalues are known by construction."""
    n, T = case["large"], case["T"]
    # orthogonal cosine series of length T, each the return of one group of assets
    g = min(T - 1, n, 40)
    basis = [np.cos(np.pi * (j + 1) * (np.arange(T) + 0.5) / T) for j in range(g)]
    R, power = [], [0.0] * g
    for i in range(n):
        j, a = i % g, 0.01 * (1 + (i * 7) % 5) * case.get("decay", 1.0) ** (i % g)
        R.append(a * basis[j])
        power[j] += a * a
    ev = sorted((p * (T / 2) / (T - 1) for p in power), reverse=True) + [0.0] * (n - g)
    tr = math.fsum(ev)
    for arr in (np.array(R), np.array(R)[::-1], np.asfortranarray(R)):
        o = impl.native.measures.AbsorptionRatio(arr)
        for f in [k / 20 for k in range(21)] + [1 / n, 3 / n, (g - 1) / n, g / n, (n - 1) / n]:
            k = count(f, n)
            X.edge()
            X.trace()
            X.state(n, T, f)
            got = o.estimate(f)
            X.true(not np.iscomplexobj(got), "the ratio is complex", assets=n, days=T, fraction=f)
            if k is not None:
                X.same(float(got), math.fsum(ev[:k]) / tr, "absorption ratio of many assets", rtol=1e-7, atol=1e-8, assets=n, days=T, fraction=f)
            X.outcome(round(float(got), 9))


def cov(R):
    n, T = len(R), len(R[0])
    c = []
    for r in R:
        m = math.fsum(r) / T
        c.append([x - m for x in r])
    return [[math.fsum(a * b for a, b in zip(c[i], c[j])) / (T - 1) for j in range(n)] for i in range(n)]


def jacobi(A):
    """Eigenvalues of a symmetric matrix by cyclic Jacobi rotations."""
    A = np.array(A, dtype=float)
    n = len(A)
    for _ in range(60):
        off = math.sqrt(sum(A[i, j] ** 2 for i in range(n) for j in range(n) if i != j))
        if off <= 1e-14 * (abs(np.trace(A)) + 1e-300):
            break
        for p in range(n - 1):
            for q in range(p + 1, n):
                if A[p, q] == 0:
                    continue
                th = (A[q, q] - A[p, p]) / (2 * A[p, q])
                t = (1 if th >= 0 else -1) / (abs(th) + math.hypot(th, 1)) if abs(th) < 1e150 else 0.0
                c = 1 / math.hypot(t, 1)
                s = t * c
                rp, rq = A[p].copy(), A[q].copy()
                A[p], A[q] = c * rp - s * rq, s * rp + c * rq
                cp, cq = A[:, p].copy(), A[:, q].copy()
                A[:, p], A[:, q] = c * cp - s * cq, s * cp + c * cq
    return sorted(np.diag(A).tolist(), reverse=True)


def count(f, n):
    """Number of eigenvectors; None when rounding of f*n decides."""
    x = f * n
    k = math.floor(x + 0.5)
    return None if 0 < abs(x + 0.5 - round(x + 0.5)) < 1e-9 else k


def check(X, R, fracs, full=True):
    A = impl.native.measures.AbsorptionRatio
    n = len(R)
    C = cov(R)
    tr = math.fsum(C[i][i] for i in range(n))
    if tr <= 0:
        return
    ev = jacobi(C)
    arr = np.array(R)
    o = A(arr)
    prev = 0.0
    for f in sorted(fracs):
        k = count(f, n)
        got = o.estimate(f)
        X.trace()
        X.true(not isinstance(got, complex) and not np.iscomplexobj(got), "the ratio is complex", panel=R[:3], fraction=f)
        got = float(got)
        X.true(-1e-9 <= got <= 1 + 1e-9, "the ratio is not in [0, 1]", panel=R[:3], fraction=f, got=got)
        X.true(got >= prev - 1e-9, "the ratio decreases in the fraction", panel=R[:3], fraction=f)
        prev = got
        if k is not None:
            X.same(got, math.fsum(ev[:k]) / tr, "absorption ratio", rtol=1e-7, atol=1e-8, panel=R[:3], fraction=f)
        X.outcome(round(got, 9))
    X.same(float(o.estimate(1.0)), 1.0, "all eigenvectors do not absorb all variance", rtol=1e-8, panel=R[:3])
    if full:
        f = 0.5 if count(0.5, n) is not None else 0.2
        base = float(A(arr).estimate(f))
        for name, b in {"scaled": 100 * arr, "assets reversed": arr[::-1], "days reversed": arr[:, ::-1], "fortran": np.asfortranarray(arr), "shifted": arr + 3.0 * np.abs(arr).max(),
                        "strided": np.repeat(np.repeat(arr, 2, 0), 2, 1)[::2, ::2]}.items():
            X.trace()
            X.same(float(A(b).estimate(f)), base, "the ratio changes when the panel is %s" % name, rtol=1e-6, atol=1e-7, panel=R[:3])
        X.same(float(A(arr).estimate()), float(A(arr).estimate(0.2)), "default fraction", panel=R[:3])


def run(case, X):
    if "shape" in case:
        n, T = case["shape"]
        for rest in itertools.product((-1.0, 0.0, 2.0), repeat=n * T - 3):
            cells = list(case["head"]) + list(rest)
            R = [cells[i * T:(i + 1) * T] for i in range(n)]
            X.edge()
            X.state(tuple(cells), n)
            check(X, R, [k / n for k in range(n + 1)] + [0.1, 0.2, 0.4, 0.7])
        X.sample(case)
        return
    if "large" in case:
        return large(case, X)
    if "units" in case:
        n, T = case["n"], case["T"]
        name, of = list(UNITS.items())[case["units"]]
        R = [[of(i, n)[1] + of(i, n)[0] * ((((i + 2) * (t + 5) * 7919) % 101) / 50.0 - 1 + 0.5 * (t % 3)) for t in range(T)] for i in range(n)]
        X.edge()
        X.state(name, n, T)
        check(X, R, [k / 10 for k in range(11)] + [k / n for k in range(n + 1)])
        X.sample({"units": name, "n": n, "T": T})
        return
    n, T, s = case["n"], case["T"], case["s"]
    R = [[(((i + 1) * (t + 3 + s) * 7919) % 101) / 50.0 - 1 + (0.8 if s % 2 and t % 3 == 0 else 0.0) * (1 + i % 2) for t in range(T)] for i in range(n)]
    X.edge()
    X.state(n, T, s)
    fr = [k / 20 for k in range(21)] + [k / n for k in range(n + 1)]
    check(X, R, fr, full=True)
    A = impl.native.measures.AbsorptionRatio
    for a, b in itertools.permutations((0.2, 0.5, 0.9), 2):
        o = A(np.array(R))
        o.estimate(a)
        X.same(float(o.estimate(b)), float(A(np.array(R)).estimate(b)), "an estimate depends on an earlier one", fractions=[a, b])
