"""Kyle's lambda."""
import itertools
import math

import numpy as np
import pandas as pd

from mc import impl

ID = "C18"
BOUNDS = (
    "every sequence of 1..5 (thorough 6) periods over 7 (return, signed volume) pairs, volumes from 1e-6 to 1e9, containers; long samples with "
    "one unusual period at every position; oracle: regression through the origin, 1e6 * sum(xy)/sum(xx); homogeneity in both arguments"
)
P = [(0.01, 100.0), (-0.02, -250.0), (0.0, 30.0), (0.03, -1.0), (-0.001, 0.0), (0.5, 1000.0), (0.0, 0.0)]


def cases(tier):
    d = 5 if tier == "quick" else 6
    for i, s in itertools.product(range(len(P)), (1.0, 1e-6, 1e6)):
        yield {"first": i, "scale": s, "depth": d if s == 1.0 else 3}
    for n in (30, 257, 1201, 11003, 130003):
        yield {"n": n}


def lam(y, x):
    xx = math.fsum(v * v for v in x)
    return 1e6 * math.fsum(a * b for a, b in zip(x, y)) / xx if xx else 0.0


def run(case, X):
    K = impl.native.measures.kyle_lambda
    if "n" in case:
        n = case["n"]
        for pos in range(0, n, 1 if n < 300 else 61 if n < 2000 else n // 3):
            y = [0.01 * ((i * i * 7 // 3) % 5 - 2) for i in range(n)]
            x = [50.0 * ((i * i // 2 + i // 7) % 7 - 3) for i in range(n)]
            y[pos], x[pos] = 0.7, -4000.0
            X.edge(n)
            X.trace()
            X.state(n, pos)
            X.same(float(K(np.array(y), np.array(x))), lam(y, x), "Kyle's lambda", n=n, position=pos)
        return

    def explore(idx):
        y, x = [P[i][0] for i in idx], [P[i][1] * case["scale"] for i in idx]
        want = lam(y, x)
        ay, ax = np.array(y), np.array(x)
        ay.flags.writeable = ax.flags.writeable = False
        X.edge()
        X.trace()
        X.state(tuple(idx), case["scale"])
        X.same(float(K(ay, ax)), want, "Kyle's lambda", returns=y, volume=x)
        X.outcome(round(want, 6))
        if len(idx) <= 3:
            w = np.full((2 * len(y), 2), 9.9)
            w[::2, 0], w[::2, 1] = y, x
            for name, (a, b) in {"list": (y, x), "series": (pd.Series(y, index=range(9, 9 + len(y))), np.array(x)), "strided": (w[::2, 0], w[::2, 1]),
                                 "tuple": (tuple(y), tuple(x))}.items():
                X.trace()
                X.same(float(K(a, b)), want, "Kyle's lambda", returns=y, volume=x, form=name)
            X.same(float(K(3 * ay, ax)), 3 * want, "Kyle's lambda is not linear in returns", returns=y, volume=x)
            X.same(float(K(ay, 4 * ax)), want / 4, "Kyle's lambda is not inverse in volume", returns=y, volume=x)
        if len(idx) < case["depth"]:
            for i in range(len(P)):
                explore(idx + [i])

    explore([case["first"]])
    X.sample(case)
