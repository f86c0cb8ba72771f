"""Quoted, effective and realized spreads."""
import itertools
import math

import numpy as np

from mc import impl, trades as T

ID = "C15"
BOUNDS = (
    "every tape of 1..5 (thorough 6) trades over 7 kinds of trade (zero volume, zero spread, penny prices, direction 0), price units 1e-6..1e5 and volume units 1e-12..1e12, every option, every "
    "container; every choice of unknown midpoints on every tape of 2..3 trades; every tape of 1..5 quotes over 6; tapes of up to 130003 trades with one unusual trade at each of a set of positions; oracle: "
    "one trade at a time, dollar-volume weighted, simple average if no volume"
)
QUOTES = [(9.98, 10.02), (10.0, 10.0), (1.0, 3.0), (0.0001, 0.0002), (150.5, 150.75), (10.02, 9.98)]


def cases(tier):
    d = 5 if tier == "quick" else 6
    for i, j in itertools.product(range(7), repeat=2):
        yield {"k": "trades", "first": [i, j], "depth": d}
    for i in range(7):
        yield {"k": "one", "i": i}
        yield {"k": "forms", "i": i}
    for i in range(6):
        yield {"k": "quotes", "first": i, "depth": 5 if tier == "quick" else 6}
    for i in range(7):
        yield {"k": "units", "i": i}
    for i in range(7):
        yield {"k": "unknown", "i": i}
    for n in (50, 257, 1000, 3001, 11003, 130003):
        yield {"k": "long", "n": n}


def both(X, tape, cols, form, **d):
    S = impl.native.spread
    p, m, l, v, s = cols
    for pct, signed in itertools.product((True, False), repeat=2):
        td = s if signed else None
        X.trace(2)
        got = S.effective_spread(p, m, v, td, pct_spread=pct)
        X.same(float(got), T.weighted(tape, lambda t: T.effective(t, signed, pct)), "effective spread", trades=tape[:6], signed=signed, pct=pct, form=form, **d)
        got2 = S.realized_spread(p, l, m, v, td, pct_spread=pct)
        X.same(float(got2), T.weighted(tape, lambda t: T.realized(t, signed, pct)), "realized spread", trades=tape[:6], signed=signed, pct=pct, form=form, **d)
        X.outcome((round(float(got), 9), round(float(got2), 9)))


def run(case, X):
    S = impl.native.spread
    k = case["k"]
    if k == "trades":
        def explore(idx):
            tape = [T.TRADES[i] for i in idx]
            X.edge()
            X.state(tuple(idx))
            cols = T.readonly(T.columns(tape))
            both(X, tape, cols, "array")
            if len(idx) < case["depth"]:
                for i in range(7):
                    explore(idx + [i])

        explore(list(case["first"]))
        X.sample({"first": case["first"]})
    elif k == "units":
        # the same tapes in other currencies and lot sizes
        for rest in itertools.chain([()], itertools.product(range(7), repeat=1), itertools.product(range(7), repeat=2)):
            base = [T.TRADES[i] for i in (case["i"],) + rest]
            for up, uv in itertools.product((1e-6, 1e-2, 1.0, 1e5), (1e-12, 1e-4, 1.0, 1e9)):
                tape = [(p * up, m * up, l * up, v * uv, s) for p, m, l, v, s in base]
                X.edge()
                X.state("units", case["i"], rest, up, uv)
                both(X, tape, T.columns(tape), "array", price_unit=up, volume_unit=uv)
            # one trade dwarfs the others
            for j, uv in itertools.product(range(len(base)), (1e-12, 1e12)):
                tape = [(p, m, l, v * (uv if i == j else 1.0), s) for i, (p, m, l, v, s) in enumerate(base)]
                X.state("dwarf", case["i"], rest, j, uv)
                both(X, tape, T.columns(tape), "array", volume_unit=uv)
    elif k == "unknown":
        # some midpoints are not known: a simple average is over the others, a weighted one over the others or not known either
        for rest in itertools.chain.from_iterable(itertools.product(range(7), repeat=r) for r in range(3)):
            base = [T.TRADES[i] for i in (case["i"],) + rest]
            for miss, col in itertools.product(itertools.product((0, 1), repeat=len(base)), (1, 2)):
                if not any(miss) or all(miss):
                    continue
                for traded in (0.0, 1.0):
                    tape = [tuple(math.nan if m and c == col else x * traded if c == 3 else x for c, x in enumerate(t)) for t, m in zip(base, miss)]
                    X.edge()
                    X.state("unknown", case["i"], rest, miss, col, traded)
                    p, m, l, v, s = T.readonly(T.columns(tape))
                    for pct, signed in itertools.product((True, False), repeat=2):
                        d = dict(trades=tape, signed=signed, pct=pct)
                        for name, f, got in ([("effective", T.effective, S.effective_spread(p, m, v, s if signed else None, pct))] if col == 1 else []) + [
                                ("realized", T.realized, S.realized_spread(p, l, m, v, s if signed else None, pct))]:
                            known = [t for t in tape if f(t, signed, pct) == f(t, signed, pct)]
                            X.trace()
                            if any(t[3] for t in tape) and not got == got:
                                continue
                            if known and (any(t[3] for t in known) or not any(t[3] for t in tape)):
                                X.same(float(got), T.weighted(known, lambda t: f(t, signed, pct)), "%s spread with unknown midpoints" % name, **d)
    elif k == "one":
        tape = [T.TRADES[case["i"]]]
        X.state(case["i"])
        both(X, tape, T.columns(tape), "array")
    elif k == "forms":
        for rest in itertools.product(range(7), repeat=2):
            tape = [T.TRADES[case["i"]]] + [T.TRADES[r] for r in rest]
            for form, f in T.FORMS.items():
                X.state(case["i"], rest, form)
                X.edge()
                both(X, tape, [f(c) for c in T.columns(tape)], form)
            p, m, l, v, s = T.columns(tape)
            both(X, tape, [p, m, l, v.astype(np.int64), s.astype(np.int64)], "integers")
            # one container per argument
            for a in range(5):
                cols = T.columns(tape)
                cols[a] = cols[a].tolist()
                both(X, tape, cols, "list in place %d" % a)
            zero = [(t[0], t[1], t[2], 0.0, t[4]) for t in tape]
            both(X, zero, T.columns(zero), "no volume")
    elif k == "quotes":
        def explore(idx):
            tape = [QUOTES[i] for i in idx]
            bid, ask = (np.array(c) for c in zip(*tape))
            X.edge()
            X.state("q", tuple(idx))
            pct = math.fsum((a - b) / ((a + b) / 2) for b, a in tape) / len(tape) * 100
            log = math.fsum(math.log(a) - math.log(b) for b, a in tape) / len(tape)
            for form, f in (("array", lambda x: x), ("list", lambda x: x.tolist()), ("series", T.FORMS["series"]), ("strided", T.strided)):
                if form != "array" and len(idx) > 3:
                    break
                X.trace(2)
                X.same(float(S.quoted_spread(f(bid), f(ask))), pct, "quoted spread", quotes=tape, form=form)
                X.same(float(S.quoted_spread(f(bid), f(ask), pct_spread=False)), log, "quoted log spread", quotes=tape, form=form)
            X.same(float(S.quoted_spread(f(bid), ask.tolist())), pct, "quoted spread", quotes=tape)
            X.outcome(round(pct, 9))
            if len(idx) < case["depth"]:
                for i in range(6):
                    explore(idx + [i])

        explore([case["first"]])
    else:
        n = case["n"]
        for pos in sorted({0, 1, n // 2, n - 2, n - 1}):
            tape = T.long_tape(n, pos)
            X.edge(n)
            X.state("long", n, pos)
            both(X, tape, T.readonly(T.columns(tape)), "array", n=n, position=pos)
            q = [QUOTES[(i * i // 2 + i // 9) % 5] for i in range(n)]
            q[pos] = (1.0, 9.0)
            want = math.fsum((a - b) / ((a + b) / 2) for b, a in q) / n * 100
            X.same(float(S.quoted_spread(*(np.array(c) for c in zip(*q)))), want, "quoted spread", n=n, position=pos)
