"""Limit order book slopes and depth difference."""
import itertools
import math

import numpy as np

from mc import impl

ID = "C17"
BOUNDS = (
    "every sequence of 1..4 (thorough 5) quotes over 9 kinds of book (empty levels, empty books, missing quotes, one-sided, wide) with 2, 3, 4, 5, 6 or 10 levels, "
    "array layouts and types; every level in turn made unusual; books of up to 70001 quotes with one unusual quote; oracle: one quote at a time, "
    "missing quotes skipped; mirror symmetry of bid and ask"
)
NAN = float("nan")
# (bid sizes, ask sizes, bid prices, ask prices) for up to 10 levels
def book(b0, a0, step, sizes_b, sizes_a):
    return ([sizes_b(i) for i in range(10)], [sizes_a(i) for i in range(10)], [b0 - step * i for i in range(10)], [a0 + step * i for i in range(10)])


BOOKS = [book(9.9, 10.1, 0.1, lambda i: 100.0 + 10 * i, lambda i: 90.0 - 5 * i), book(9.5, 10.5, 0.25, lambda i: 0.0 if i else 3.0, lambda i: 7.0),
         book(9.99, 10.0, 0.01, lambda i: (i * 37 % 11) * 50.0, lambda i: (i * 29 % 7) * 10.0), book(1.0, 90.0, 0.05, lambda i: 5.0, lambda i: 5.0),
         book(10.0, 10.02, 0.02, lambda i: NAN if i == 2 else 4.0, lambda i: 8.0 + i), book(10.0, 10.02, 0.02, lambda i: 4.0 + i, lambda i: NAN if i == 4 else 8.0),
         book(50.0, 50.5, 0.5, lambda i: 2.0 ** i, lambda i: 3.0 ** (i / 2)), book(9.9, 10.1, 0.1, lambda i: 0.0, lambda i: 20.0),
         book(9.8, 10.2, 0.2, lambda i: 0.0, lambda i: 0.0)]


def cases(tier):
    d = 4 if tier == "quick" else 5
    for i, k in itertools.product(range(len(BOOKS)), (2, 3, 4, 5, 6, 10)):
        yield {"first": i, "k": k, "depth": d - (k < 5)}
    for k in (2, 3, 5, 10):
        yield {"levels": 1, "k": k}
    for n in (100, 257, 2003, 11003, 70001):
        yield {"n": n}


def nanmean(v):
    v = [x for x in v if x == x]
    return math.fsum(v) / len(v) if v else NAN


def arrays(books, k):
    return [np.array([b[j][:k] for b in books], dtype=float) for j in range(4)]


def expected(books, k):
    out = {}
    mid = [(b[2][0] + b[3][0]) / 2 for b in books]
    out["ask_slope"] = nanmean(sum(b[1][:k]) / (b[3][k - 1] - m) for b, m in zip(books, mid))
    out["bid_slope"] = nanmean(sum(b[0][:k]) / abs(b[2][k - 1] - m) for b, m in zip(books, mid))
    for side, s, p in (("bid", 0, 2), ("ask", 1, 3)) if k > 4 else ():
        out[side + "_diff"] = nanmean((b[s][4] - b[s][2]) / abs(b[p][4] - b[p][2]) - (b[s][2] - b[s][0]) / abs(b[p][2] - b[p][0]) for b in books)
    sdd = []
    for b in books:
        x, y = sum(b[0][:k]), sum(b[1][:k])
        sdd.append(2 * (y - x) / (x + y) if x + y else NAN)
    out["sdd"] = nanmean(sdd)  # no depth, no difference
    return out


def observed(bs, as_, bp, ap, mid=None):
    L = impl.native.lob
    if mid is None:
        mid = (bp[:, 0] + ap[:, 0]) / 2
    out = {"ask_slope": L.DGGW_ask_slope(as_, ap[:, -1], mid), "bid_slope": L.DGGW_bid_slope(bs, bp[:, -1], mid), "sdd": L.DGGW_scaled_depth_difference(bs, as_)}
    if bs.shape[1] > 4:  # the differences are between levels 1, 3 and 5
        out.update(bid_diff=L.DGGW_bid_side_slope_difference(bs, bp), ask_diff=L.DGGW_ask_side_slope_difference(as_, ap))
    return out


def layouts(a):
    w = np.full((2 * a.shape[0], 2 * a.shape[1] + 1), 7.7)
    w[::2, 1::2] = a
    return {"array": a, "fortran": np.asfortranarray(a), "strided": w[::2, 1::2], "reversed": a[::-1, ::-1].copy()[::-1, ::-1]}


def check(X, books, k, what, got=None):
    want = expected(books, k)
    arrs = arrays(books, k)
    got = got or observed(*arrs)
    X.trace(5)
    for name in want:
        X.same(float(got[name]), want[name], name, which=what, levels=k, quotes=len(books))
    X.outcome(tuple(round(float(got[n]), 9) for n in sorted(want)))
    return want


def run(case, X):
    if "n" in case:
        n = case["n"]
        for pos in sorted({0, 1, n // 2, n - 1}) if n < 10000 else (n // 3, n - 1):
            for odd in (1, 4, 5, 6, 8) if n < 10000 else (4 + pos % 2,):
                books = [BOOKS[(0, 2, 3)[(i * i // 2 + i // 5) % 3]] for i in range(n)]
                books[pos] = BOOKS[odd]
                X.edge(n)
                X.state("long", n, pos, odd)
                check(X, books, 5, {"unusual_at": pos, "kind": odd})
        return
    k = case["k"]
    if "levels" in case:
        for lvl, j, v in itertools.product(range(k), range(2), (0.0, 1e6, 33.0)):
            b = [list(x) for x in BOOKS[0]]
            b[j][lvl] = v
            X.edge()
            X.state("level", k, lvl, j, v)
            check(X, [tuple(b), BOOKS[2]], k, {"level": lvl, "side": j, "size": v})
        for lvl, j in itertools.product((1, 3) if k > 4 else (k - 1,), (2, 3)):
            b = [list(x) for x in BOOKS[0]]
            b[j][lvl] += 0.03
            check(X, [tuple(b), BOOKS[2]], k, {"level": lvl, "price_of": j})
        return

    def explore(idx):
        books = [BOOKS[i] for i in idx]
        X.edge()
        X.state(k, tuple(idx))
        want = check(X, books, k, idx)
        if len(idx) <= 2:
            arrs = arrays(books, k)
            before = [a.copy() for a in arrs]
            lay = [layouts(a) for a in arrs]
            for name in lay[0]:
                check(X, books, k, [idx, name], observed(*[l[name] for l in lay]))
            for a, b in zip(arrs, before):
                X.true(np.array_equal(a, b, equal_nan=True), "the book was modified")
            if not any(i in (4, 5) for i in idx):
                ints = [b.astype(np.int64) if (b == b.astype(np.int64)).all() else b for b in arrs]
                check(X, books, k, [idx, "integers"], observed(*ints))
        # a mirrored book has mirrored measures
        mir = [(b[1], b[0], [20 - p for p in b[3]], [20 - p for p in b[2]]) for b in books]
        m = observed(*arrays(mir, k))
        for a, b in (("ask_slope", "bid_slope"), ("bid_diff", "ask_diff"))[:2 if k > 4 else 1]:
            X.same(float(m[a]), want[b], "mirrored book: %s" % a, books=idx)
            X.same(float(m[b]), want[a], "mirrored book: %s" % b, books=idx)
        X.same(float(m["sdd"]), -want["sdd"], "mirrored book: scaled depth difference", books=idx)
        if len(idx) < case["depth"]:
            for i in range(len(BOOKS)):
                explore(idx + [i])

    explore([case["first"]])
    X.sample({"first": case["first"], "levels": k})
