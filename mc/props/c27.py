"""Bank Z-score."""
import itertools
import math

import numpy as np
import pandas as pd

from mc import impl, ref

ID = "C27"
BOUNDS = (
    "every history of 2..6 (thorough 7) returns on assets over {-0.1,0,0.05,0.2}, 4 current returns x 4 capital ratios, containers; histories of 4 around levels 0..3e4 with deviations 1e-9..1e6; histories of 100 "
    "and 1000 with one unusual period at every position; oracle: (ROA + capital ratio) / population standard deviation; the documented example"
)
A = (-0.1, 0.0, 0.05, 0.2)


def cases(tier):
    for h in itertools.product(A, repeat=2):
        yield {"h": list(h), "depth": 6 if tier == "quick" else 7}
    for n in (100, 1001, 11003, 130003):
        yield {"n": n}
    yield {"example": 1}
    for level in (0.0, 0.01, -0.1, 1.0, 250.0, -3e4):
        yield {"level": level}


def run(case, X):
    z = impl.native.measures.z_score
    if "example" in case:
        X.state("example")
        X.edge()
        X.trace()
        X.same(float(z(roa=0.2, capital_ratio=0.5, past_roas=np.array([0.1, 0.2, 0.15, 0.18, 0.2]))), 18.549962900111296, "the documented example")
        return
    if "level" in case:
        L = case["level"]
        for dev, h in itertools.product((1e-9, 1e-7, 1e-5, 1e-3, 0.1, 7.0, 1e6), itertools.product((-1, 0, 1, 3), repeat=4)):
            h = [L + dev * x for x in h]
            X.edge()
            if len(set(h)) == 1 or dev < 1e-9 * abs(L):
                continue
            mean = math.fsum(h) / 4
            sd = math.sqrt(math.fsum((x - mean) ** 2 for x in h) / 4)
            X.state("level", L, dev, tuple(h))
            for roa, cap in ((0.01, 0.1), (h[-1], 0.08)):
                X.trace()
                X.same(float(z(roa, cap, np.array(h))), (roa + cap) / sd, "Z-score", rtol=1e-9 + 1e-14 * abs(L) / dev, level=L, deviation=dev, history=h)
        return
    if "n" in case:
        n = case["n"]
        for pos in range(0, n, 1 if n == 100 else 13 if n == 1000 else n // 3):
            h = [0.01 * ((i * i * 7 // 3) % 5) for i in range(n)]
            h[pos] = -3.0
            X.edge(n)
            X.trace()
            X.state(n, pos)
            X.same(float(z(0.1, 0.2, np.array(h))), 0.3 / math.sqrt(ref.var(h)), "Z-score", n=n, position=pos)
        return

    def explore(h):
        X.edge()
        X.state(tuple(h))
        v = ref.var(h)
        if v > 1e-15:
            for roa, cap in itertools.product((-0.5, 0.0, 0.01, 0.2), (0.0, 0.05, 0.5, -0.1)) if len(h) <= 4 else ((0.01, 0.05), (-0.5, 0.5)):
                X.trace()
                want = (roa + cap) / math.sqrt(v)
                X.same(float(z(roa, cap, np.array(h))), want, "Z-score", roa=roa, capital=cap, history=h)
                X.outcome(round(want, 9))
            if len(h) <= 4:
                for name, a in {"list": h, "tuple": tuple(h), "strided": np.repeat(np.array(h), 3)[::3], "float32": np.array(h, dtype=np.float32),
                                "series": pd.Series(h), "labelled series": pd.Series(h, index=range(7, 7 + len(h))), "frame column": pd.DataFrame({"a": h, "b": 1.0})["a"], "fortran column": np.asfortranarray(np.tile(np.array(h), (2, 1)).T)[:, 1]}.items():
                    X.trace()
                    X.same(float(z(0.2, 0.5, a)), 0.7 / math.sqrt(v), "Z-score", rtol=1e-4 if name == "float32" else 1e-9, history=h, form=name)
        if len(h) < case["depth"]:
            for a in A:
                explore(h + [a])

    explore(list(case["h"]))
    X.sample(case)
