"""EWMA, backcast, variance bounds and the clamp."""
import itertools
import math

import numpy as np

from mc import impl, ref

ID = "C02"
BOUNDS = (
    "EWMA: all tapes of length 1..6 (thorough 8) over {-2,-0.5,0,1,3} x 4 decay factors x 3 initial values; backcast and variance "
    "bounds: the same tapes and, for every length in 70..80, 150, 300 and 1000 (sampled positions at 2609, 5209 and 12007), a unit spike at every position (the backcast is "
    "linear in squared residuals, so spikes determine it); turbulence of 1..90 days around calms of 40..700 days; clamp: all triples over a lattice of values and bounds including "
    "infinity; {compiled, pure Python}; oracle: scalar reference"
)
ALPHABET = (-2.0, -0.5, 0.0, 1.0, 3.0)
LONG = list(range(70, 81)) + [150, 300, 1000, 2609, 5209, 12007]


def cases(tier):
    d = 6 if tier == "quick" else 8
    for v in ("native", "pure"):
        for lam, first in itertools.product((0.0, 0.5, 0.94, 1.0), ALPHABET):
            yield {"v": v, "ewma": lam, "first": first, "depth": d}
        for first in ALPHABET:
            yield {"v": v, "bounds": 1, "first": first, "depth": d}
        for T in LONG:
            yield {"v": v, "T": T}
        yield {"v": v, "clamp": 1}
        yield {"v": v, "extreme": 1}
        for calm in (40, 150, 250, 400, 700):
            yield {"v": v, "calm": calm}


def run(case, X):
    v = impl.variants[case["v"]]
    G, J = v.alg.GARCHModel, v.alg.GJRGARCHModel
    if "ewma" in case:
        lam = case["ewma"]
        for n in range(1, case["depth"] + 1):
            for rest in itertools.product(ALPHABET, repeat=n - 1):
                tape = (case["first"],) + rest
                for v0 in (0.0, 0.8, 50.0):
                    want = ref.ewma(tape, v0, lam)
                    got = np.asarray(G.ewma(np.array(tape), v0, lam))
                    X.trace()
                    X.edge()
                    X.state(case["v"], lam, v0, n, want[-1], tape[-1])
                    X.same(got, want, "EWMA variance", resids=tape, initial=v0, lam=lam)
                    if lam == 0.94:
                        X.same(np.asarray(J.ewma(np.array(tape), v0)), want, "EWMA variance with the default decay", resids=tape)
                    X.outcome(round(float(got[-1]), 9))
    elif "bounds" in case:
        for n in range(1, case["depth"] + 1):
            for rest in itertools.product(ALPHABET, repeat=n - 1):
                tape = (case["first"],) + rest
                check(X, G, tape, "b")
    elif "T" in case:
        T = case["T"]
        e = np.array([0.6 if t % 3 else -1.1 for t in range(T)])
        check(X, J, e.tolist(), "l")
        for i in range(0, T, 1 if T <= 1000 else T // 20 + 1):
            spike = np.zeros(T)
            spike[i] = -1.0
            got = G.backcast(spike)
            X.trace()
            X.edge()
            X.state(case["v"], "spike", T, i)
            X.same(got, ref.backcast(spike.tolist()), "backcast weight of one residual", T=T, position=i)
            if T <= 150 or i % 50 == 0:
                s2 = e.copy()
                s2[i] = 5.0
                check(X, G, s2.tolist(), "s")
    elif "clamp" in case:
        vals = (0.0, 1e-300, 1e-9, 0.5, 0.999999, 1.0, 1.000001, 2.0, 3.0, 10.0, 1e6, 1e12, 1e300, math.inf)
        for lo, hi in itertools.product((0.0, 1e-12, 0.5, 1.0, 2.0), (0.5, 1.0, 2.0, 3.5, 1e3, 1e13)):
            if lo > hi:
                continue
            prev = -1.0
            for s in vals:
                got = G.bounds_check(s, np.array([lo, hi]))
                X.trace()
                X.edge()
                X.state(case["v"], lo, hi, s)
                X.same(got, ref.clamp(s, lo, hi), "bounded variance", value=s, lower=lo, upper=hi)
                X.true(math.isfinite(got) and got >= lo, "bounded variance not finite or below its bound", value=s)
                X.true(got >= prev - 1e-9 or math.isinf(s), "the bound is not monotone", value=s)
                row = np.array([[9.0, 9.0], [lo, hi], [9.0, 9.0]])[1]
                X.same(J.bounds_check(s, row), got, "bounded variance from a row of a matrix")
                prev = got
    elif "calm" in case:
        # turbulence, then (or after) a calm so long that the global bounds take over
        for hot, big, small in itertools.product((1, 5, 90), (1.0, 40.0, 1e6), (0.0, 1e-9, 1e-3, 0.05)):
            a = [big * (-1) ** i for i in range(hot)]
            b = [small * (1 if i % 3 else -1) for i in range(case["calm"])]
            for tape in (a + b, b + a, b + a + b):
                check(X, G, tape, "c")
                check(X, J, tape, "j")
    else:
        for sc in (1e-8, 1e-4, 1.0, 1e3, 1e6):
            for tape in itertools.product((-1.0, 0.5, 2.0, 0.0), repeat=4):
                if len(set(tape)) > 1:
                    check(X, G, [sc * x for x in tape], "x%g" % sc, scale=sc * sc)
        # one enormous residual at each position: the global upper bound is reached
        for i, big in itertools.product(range(6), (1e5, 1e8)):
            tape = [1e-7] * 6
            tape[i] = big
            check(X, G, tape, "g")


def check(X, cls, tape, tag, scale=1.0):
    e = np.array(tape, dtype=float)
    keep = e.copy()
    bc = cls.backcast(e)
    X.trace()
    X.edge()
    X.state(tag, tuple(tape) if len(tape) < 20 else (len(tape), hash(tuple(tape))))
    X.same(bc, ref.backcast(tape), "backcast", atol=1e-11 * scale, resids=tape[:12], T=len(tape))
    b = np.asarray(cls.variance_bounds(e))
    want = np.array(ref.variance_bounds(tape))
    X.trace()
    X.same(b, want, "variance bounds", atol=1e-12 * scale, resids=tape[:12], T=len(tape))
    X.true((b[:, 0] <= b[:, 1]).all(), "a lower bound above its upper bound", resids=tape[:12])
    if e.var() > 0:
        X.true((b[:, 0] > 0).all() and np.isfinite(b).all(), "bounds are not positive and finite", resids=tape[:12])
    X.true((e == keep).all(), "the residuals were modified")
    X.outcome((round(bc, 9), round(float(np.log10(b[-1, 1] + 1e-300)), 6)))
