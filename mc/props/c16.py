"""Price impact, and the decomposition of the effective spread."""
import itertools
import math

import numpy as np

from mc import impl, trades as T

ID = "C16"
BOUNDS = (
    "every tape of 1..5 (thorough 6) trades over 7 kinds of trade, price units 1e-6..1e5 and volume units 1e-12..1e12, every option and container; every choice of unknown midpoints on every tape of 2..3 trades; tapes of up to 130003 trades; oracle: one "
    "trade at a time, dollar-volume weighted; and, with trade directions, effective spread = realized spread + price impact on every tape, in "
    "percent and in logs"
)


def cases(tier):
    d = 5 if tier == "quick" else 6
    for i, j in itertools.product(range(7), repeat=2):
        yield {"k": "trades", "first": [i, j], "depth": d}
    for i in range(7):
        yield {"k": "one", "i": i}
        yield {"k": "forms", "i": i}
    for i in range(7):
        yield {"k": "units", "i": i}
    for i in range(7):
        yield {"k": "unknown", "i": i}
    for n in (50, 257, 1000, 3001, 11003, 130003):
        yield {"k": "long", "n": n}


def both(X, tape, cols, form, **d):
    S, I = impl.native.spread, impl.native.price_impact
    p, m, l, v, s = cols
    for pct, signed in itertools.product((True, False), repeat=2):
        td = s if signed else None
        X.trace()
        got = float(I.simple_price_impact(p, l, m, v, td, pct_spread=pct))
        X.same(got, T.weighted(tape, lambda t: T.impact(t, signed, pct)), "price impact", trades=tape[:6], signed=signed, pct=pct, form=form, **d)
        if signed:
            e, r = float(S.effective_spread(p, m, v, s, pct_spread=pct)), float(S.realized_spread(p, l, m, v, s, pct_spread=pct))
            X.same(r + got, e, "effective spread is not realized spread plus price impact", rtol=1e-8, atol=1e-9 * (abs(r) + abs(got)),
                   trades=tape[:6], pct=pct, form=form, **d)
        X.outcome(round(got, 9))


def run(case, X):
    k = case["k"]
    if k == "trades":
        def explore(idx):
            tape = [T.TRADES[i] for i in idx]
            X.edge()
            X.state(tuple(idx))
            both(X, tape, T.readonly(T.columns(tape)), "array")
            if len(idx) < case["depth"]:
                for i in range(7):
                    explore(idx + [i])

        explore(list(case["first"]))
        X.sample({"first": case["first"]})
    elif k == "units":
        # the same tapes in other currencies and lot sizes
        for rest in itertools.chain([()], itertools.product(range(7), repeat=1), itertools.product(range(7), repeat=2)):
            base = [T.TRADES[i] for i in (case["i"],) + rest]
            for up, uv in itertools.product((1e-6, 1e-2, 1.0, 1e5), (1e-12, 1e-4, 1.0, 1e9)):
                tape = [(p * up, m * up, l * up, v * uv, s) for p, m, l, v, s in base]
                X.edge()
                X.state("units", case["i"], rest, up, uv)
                both(X, tape, T.columns(tape), "array", price_unit=up, volume_unit=uv)
            # one trade dwarfs the others
            for j, uv in itertools.product(range(len(base)), (1e-12, 1e12)):
                tape = [(p, m, l, v * (uv if i == j else 1.0), s) for i, (p, m, l, v, s) in enumerate(base)]
                X.state("dwarf", case["i"], rest, j, uv)
                both(X, tape, T.columns(tape), "array", volume_unit=uv)
    elif k == "unknown":
        # some midpoints are not known: a simple average is over the others, a weighted one over the others or not known either
        for rest in itertools.chain.from_iterable(itertools.product(range(7), repeat=r) for r in range(3)):
            base = [T.TRADES[i] for i in (case["i"],) + rest]
            for miss, col in itertools.product(itertools.product((0, 1), repeat=len(base)), (1, 2)):
                if not any(miss) or all(miss):
                    continue
                for traded in (0.0, 1.0):
                    tape = [tuple(math.nan if m and c == col else x * traded if c == 3 else x for c, x in enumerate(t)) for t, m in zip(base, miss)]
                    X.edge()
                    X.state("unknown", case["i"], rest, miss, col, traded)
                    p, m, l, v, s = T.readonly(T.columns(tape))
                    for pct, signed in itertools.product((True, False), repeat=2):
                        got = float(impl.native.price_impact.simple_price_impact(p, l, m, v, s if signed else None, pct))
                        known = [t for t in tape if T.impact(t, signed, pct) == T.impact(t, signed, pct)]
                        X.trace()
                        if any(t[3] for t in tape) and not got == got:
                            continue
                        if known and (any(t[3] for t in known) or not any(t[3] for t in tape)):
                            X.same(got, T.weighted(known, lambda t: T.impact(t, signed, pct)), "price impact with unknown midpoints", trades=tape, signed=signed, pct=pct)
    elif k == "one":
        tape = [T.TRADES[case["i"]]]
        X.state(case["i"])
        both(X, tape, T.columns(tape), "array")
    elif k == "forms":
        for rest in itertools.product(range(7), repeat=2):
            tape = [T.TRADES[case["i"]]] + [T.TRADES[r] for r in rest]
            for form, f in T.FORMS.items():
                X.state(case["i"], rest, form)
                X.edge()
                both(X, tape, [f(c) for c in T.columns(tape)], form)
            p, m, l, v, s = T.columns(tape)
            both(X, tape, [p, m, l, v.astype(np.int64), s.astype(np.int64)], "integers")
            for a in range(5):
                cols = T.columns(tape)
                cols[a] = cols[a].tolist()
                both(X, tape, cols, "list in place %d" % a)
            zero = [(t[0], t[1], t[2], 0.0, t[4]) for t in tape]
            both(X, zero, T.columns(zero), "no volume")
    else:
        n = case["n"]
        for pos in sorted({0, 1, n // 2, n - 2, n - 1}):
            tape = T.long_tape(n, pos)
            X.edge(n)
            X.state("long", n, pos)
            both(X, tape, T.readonly(T.columns(tape)), "array", n=n, position=pos)
