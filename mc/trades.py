"""Trade and quote tapes, and one-trade-at-a-time reference spreads, for C15 and C16."""
import itertools
import math

import numpy as np
import pandas as pd

# price, midpoint, midpoint later, volume, direction
TRADES = [(10.0, 9.98, 9.9, 100.0, 1.0), (10.1, 10.2, 10.25, 0.0, -1.0), (9.5, 9.5, 9.7, 30.0, 1.0), (20.0, 19.0, 25.0, 1.0, -1.0),
          (0.01, 0.012, 0.011, 1e6, -1.0), (9.9, 10.0, 10.0, 250.0, 0.0), (300.0, 299.5, 301.0, 7.0, 1.0)]


def effective(t, signed, pct):
    p, m, _, _, d = t
    x = (p - m) / m * 100 if pct else math.log(p) - math.log(m)
    return 2 * (d * x if signed else abs(x))


def realized(t, signed, pct):
    p, m, l, _, d = t
    x = (p - l) / m * 100 if pct else math.log(p) - math.log(l)
    return 2 * (d * x if signed else abs(x))


def impact(t, signed, pct):
    _, m, l, _, d = t
    x = (l - m) / m * 100 if pct else math.log(l) - math.log(m)
    return 2 * (d * x if signed else abs(x))


def weighted(tape, f):
    """Dollar-volume weighted; simple average if nothing was traded."""
    w = [t[0] * t[3] for t in tape]
    v = [f(t) for t in tape]
    if all(x == 0 for x in w):
        return math.fsum(v) / len(v)
    return math.fsum(a * b for a, b in zip(w, v)) / math.fsum(w)


def columns(tape):
    return [np.array(c, dtype=float) for c in zip(*tape)]


def strided(a):
    w = np.full((2 * len(a), 3), -7.7)
    w[::2, 1] = a
    return w[::2, 1]


FORMS = {
    "array": lambda a: a,
    "list": lambda a: a.tolist(),
    "tuple": lambda a: tuple(a.tolist()),
    "series": lambda a: pd.Series(a, index=range(50, 50 + len(a))),
    "strided": strided,
    "reversed": lambda a: a[::-1].copy()[::-1],
}


def readonly(cols):
    for c in cols:
        c.flags.writeable = False
    return cols


def long_tape(n, k):
    """A long tape with one unusual trade at position k."""
    t = [TRADES[k if k != 1 else 0] for k in ((i * i // 3 + i // 11) % 7 for i in range(n))]
    t[k] = (55.0, 50.0, 70.0, 900.0, -1.0)
    return t
