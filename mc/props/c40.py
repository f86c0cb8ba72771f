"""Array arguments count by their values: neither how they lie in memory nor what they share it with matters."""
import copy
import itertools

import numpy as np
import pandas as pd

from mc import impl
from mc.props import c28

ID = "C40"
BOUNDS = (
    "every public function, constructor and method that takes arrays, in both implementations, on several sets of arguments x every representation of its array arguments (C, Fortran, strided, reversed, column, record field, "
    "unaligned, other byte order, read-only, in read-only bytes, without stride, subclass), of each alone and of all at once, every combination of two (thorough: of up to three arrays; estimations: one and all); all arrays adjacent in one buffer, in either "
    "order, and interleaved; every pair of arrays as the same object, two views of the same memory, and as every two of seven parts (halves, lagged, every other, reversed) of one buffer; frames whose columns are built in 9 ways; "
    "oracle: the call with separate contiguous copies of the same values; buffers around the arguments unchanged"
)
CASE_TIMEOUT = 3000.0


class Sub(np.ndarray):
    pass


def garbage(a):
    return np.array(np.nan if a.dtype.kind == "f" else 77).astype(a.dtype)


def strided(a):
    buf = np.full([2 * n + 1 for n in a.shape], garbage(a))
    v = buf[tuple(slice(1, None, 2) for _ in a.shape)]
    v[...] = a
    return v, buf


def turned(a):
    buf = np.full([n + 2 for n in a.shape], garbage(a))
    v = buf[tuple(slice(n, 0, -1) for n in a.shape)]
    v[...] = a
    return v, buf


def column(a):
    buf = np.full(a.shape + (3,), garbage(a))
    buf[..., 1] = a
    return buf[..., 1], buf


def field(a):
    buf = np.zeros(a.shape, [("tag", "u1"), ("x", a.dtype), ("y", "i2")])
    buf["x"] = a
    return buf["x"], buf


def unaligned(a):
    buf = np.zeros(a.nbytes + 1, np.uint8)
    v = buf[1:].view(a.dtype).reshape(a.shape)
    v[...] = a
    return v, buf


def swapped(a):
    v = a.astype(a.dtype.newbyteorder())
    return v, v


def readonly(a):
    v = a.copy()
    v.flags.writeable = False
    return v, v


def in_bytes(a):
    v = np.frombuffer(a.tobytes(), a.dtype).reshape(a.shape)
    return v, v


def subclass(a):
    v = a.copy().view(Sub)
    return v, v


def fortran(a):
    v = a.copy(order="F")
    return (v, v) if a.ndim > 1 else None


def strideless(a):
    if not a.size or not all((a[i] == a[0]).all() for i in range(len(a))):
        return None
    v = np.broadcast_to(a[0].copy(), a.shape)
    return v, v


def contiguous(a):
    v = a.copy()
    return v, v


REPS = {"contiguous": contiguous, "fortran": fortran, "strided": strided, "reversed": turned, "column": column, "field": field, "unaligned": unaligned, "byte order": swapped,
        "read-only": readonly, "bytes": in_bytes, "subclass": subclass, "no stride": strideless}


PARTS = {"first half": lambda n: slice(n), "second half": lambda n: slice(n, None), "lagged": lambda n: slice(1, n + 1), "every other": lambda n: slice(None, None, 2),
         "first half reversed": lambda n: slice(n - 1, None, -1), "from the end": lambda n: slice(None, n - 1, -1), "every other from the end": lambda n: slice(None, None, -2)}


def places(o, at=()):
    """Where the arrays are in nested arguments."""
    if isinstance(o, np.ndarray):
        return [at] if o.ndim and o.dtype.kind in "fi" else []
    if isinstance(o, (list, tuple)):
        return [p for i, x in enumerate(o) for p in places(x, at + (i,))]
    return []


def get(o, at):
    for i in at:
        o = o[i]
    return o


def put(o, at, x):
    if not at:
        return x
    items = list(o)
    items[at[0]] = put(o[at[0]], at[1:], x)
    return tuple(items) if isinstance(o, tuple) else items


def fresh(args):
    return [copy.deepcopy(a) for a in args]


def more(v):
    """Calls with arrays that the families lack."""
    out = {}
    A, M = v.alg, v.measures
    s = c28.series
    for k in (1, 5000):  # series on one scale, and on very different ones

        def ccc(x, y, p):
            m = A.GARCHModel_CCC(x, y)
            b = [(u.backcast(u.returns), u.variance_bounds(u.returns)) for u in (m.model1, m.model2)]
            return m.loglikelihood_model(p, b[0][0], b[1][0], b[0][1], b[1][1])

        out["ccc likelihood, scale %d" % k] = (ccc, [s(40), s(40, 1) * k, np.array([0.1, 0.1, 0.1, 0.7, 0.2 * k, 0.3 * k * k, 0.1, 0.5, 0.4])])
        for n, C, U in (("dcc", A.GARCHModel_DCC, A.GARCHModel), ("gjr dcc", A.GJRGARCHModel_DCC, A.GJRGARCHModel)):
            out["%s starting correlations, scale %d" % (n, k)] = (lambda x, y, C=C, U=U: [c28.correlations(C, U, x, y), [[u.backcast_value, u.var_bounds] for u in (U(x), U(y)) if [u.preparation()]]], [s(40), s(40, 1) * k])
            if v is impl.native:
                out["%s of margins, scale %d, fit" % (n, k)] = (lambda x, y, C=C, U=U: vars(C(U(x), U(y)).fit()), [s(60), s(60, 1) * k])
    if v is impl.native:
        out["ccc of two scales fit"] = (lambda x, y: vars(A.GARCHModel_CCC(x, y).fit()), [s(60), s(60, 1) * 5000])
    else:
        return {"%s %s" % (v, k): x for k, x in out.items()}
    fs = np.array([[-0.5], [0.4]])
    p = [0.01, 10, 0.66, 5, 0.7, 0.5, 0.66, 0.2, 0.005, 0.002, 0.5]
    out["modified merton shocks"] = (v.mod_merton.mod_merton_computation, [fs, np.array(p), 2, 20, s(20, 1, 6)])
    out["single cohort shocks"] = (v.single.mod_single_cohort_computation, [fs, np.array(p), 4, 20, s(20, 1, 4)])
    out["options of arrays"] = (lambda *a: np.array(M.blsprice(*a)), [np.array([[0.8, 1.0, 1.3]] * 3), np.array([[1.0], [1.1], [0.7]]) * np.ones((1, 3)), s(9).reshape(3, 3) / 50, np.full((3, 3), 2.0), np.abs(s(9, 1).reshape(3, 3)) + 0.1])
    out["payoffs of arrays"] = (v.loan_payoff.loan_payoff, [np.abs(s(9, 2).reshape(3, 3)) + 0.3, s(9).reshape(3, 3) / 3, s(9, 1).reshape(3, 3) / 3, 0.5, 0.2, 10])
    grid = [np.ascontiguousarray(g) for g in np.meshgrid([-0.3, 0.2], [0.15, 0.25], [0.01, 0.02], [0.6, 0.7], indexing="ij")]
    out["look-up table"] = (v.mod_lookup.mod_merton_create_lookup, [0.005, 0.002, 10, 5, 0.6, 0.5, 0.66, grid[0], grid[2], grid[3], grid[1], 2, 20])
    c1, c2 = np.array([20, 35, 18, 60, 22]), np.array([25, 21, 55, 20, 24])
    out["pin of floats"] = (lambda b, s, p, m: getattr(M.PIN(b, s), "loglikelihood_" + m)(p), [c1 + 0.0, c2 + 0.0, np.array([0.4, 0.5, 20.0, 22.0, 30.0]), "EHO2010"])
    n = 30
    price = 10 + s(n) / 10
    trades = [price, price + s(n, 1) / 50, price + s(n, 2) / 50, np.floor(np.abs(s(n, 3)) * 100), np.sign(s(n, 4))]
    for k, f in (("price impact", v.price_impact.simple_price_impact), ("realized spread", v.spread.realized_spread)):
        out[k + " of whole numbers"] = (f, [(1000 * x).astype(np.int64) if i < 3 else x.astype(np.int64) for i, x in enumerate(trades)])
        out[k + " of many trades"] = (f, trades)
    out["effective spread of many trades"] = (v.spread.effective_spread, [trades[0]] + trades[2:])
    out["mes of whole numbers"] = (lambda f, m: M.MarginalExpectedShortfall(f, m).estimate(0.2), [np.round(s(40) * 9).astype(np.int64), np.round(s(40, 1) * 9).astype(np.int64)])
    return {"%s %s" % (v, k): x for k, x in out.items()}


def sets(v, name):
    if name in (m := more(v)):
        return m[name][0], [m[name][1]]
    return c28.family(v, name)


SLOW = ("fit", "lrmes", "srisk", "pin")


def slow(name):
    return name.endswith(" pin") or any(name.endswith(" " + w) for w in ("fit", "lrmes", "srisk"))


def cost(case):
    return 10 if case.get("of", 1) > 1 else 1


def cases(tier):
    q = tier == "quick"
    for k in ("native", "pure"):
        v = impl.variants[k]
        for n in list(c28.families(v)) + list(more(v)):
            fn, argsets = sets(v, n)
            with_arrays = [i for i, a in enumerate(argsets) if places(list(a))]
            if slow(n) and q:
                with_arrays = with_arrays[:1]
            parts = 7 if n.endswith(" pin") else 2 if n.endswith("table") else 1
            for i, p in itertools.product(with_arrays, range(parts)):
                yield {"v": k, "call": n, "args": i, "part": p, "of": parts}
    for fs in range(3):
        yield {"frames": fs}


def norm(o):
    """Results by their values."""
    if isinstance(o, np.ndarray):
        if not o.ndim:
            return o.item()
        return np.array(o, dtype=o.dtype.newbyteorder("="), order="C", subok=False)
    if isinstance(o, dict):
        return {k: norm(x) for k, x in o.items()}
    if isinstance(o, (list, tuple)):
        return [norm(x) for x in o]
    return o.item() if isinstance(o, np.generic) else o


def answer(fn, args):
    with np.errstate(all="ignore"):
        got = c28.attempt(lambda *a: norm(fn(*a)), args)
    return got if got[0] == "value" else got[:2]


def same(name, a, b):
    return a == b or (c28.close(a, b, rtol=1e-3, atol=1e-5) if any(w in name for w in SLOW) else c28.close(a, b))


def frames(case, X):
    """Equal frames, built in different ways."""
    forest = impl.native.iforest.anomaly_scores
    n = 24
    x = c28.series(n, case["frames"], 3).round(1 + case["frames"])
    s = [["x", "yy", "z", "xz"][i % 4] for i in range(n)]
    cols = {"a": x[:, 0].copy(), "s": np.array(s, dtype=object), "b": x[:, 1].copy(), "k": np.arange(n) % 5, "c": x[:, 2].copy()}
    index = pd.Index([3 * i for i in range(n)])

    def plain():
        return pd.DataFrame({k: c.copy() for k, c in cols.items()}, index=index)

    def inserted():
        df = pd.DataFrame(index=index)
        for k in ("c", "b", "s", "k", "a"):
            df[k] = cols[k].copy()
        return df[list(cols)]

    def larger():
        big = pd.concat([plain(), plain() * 2], keys=[0, 1])
        return big.loc[0]

    def every_other():
        df = plain()
        big = pd.DataFrame({k: np.repeat(df[k].to_numpy(), 2) for k in cols}, index=np.repeat(index, 2))
        return big.iloc[::2]

    def blocks():
        num = pd.DataFrame(np.asfortranarray(x), columns=["a", "b", "c"], index=index)
        return num.assign(s=cols["s"], k=cols["k"])[list(cols)]

    def rows():
        return pd.DataFrame([list(r) for r in zip(*cols.values())], columns=list(cols), index=index)

    def back():
        return plain().iloc[::-1].iloc[::-1]

    def frozen():
        df = pd.DataFrame({k: c.copy() for k, c in cols.items()}, index=index, copy=False)
        for k in df:
            a = df[k].to_numpy()
            if a.flags.writeable:
                a.flags.writeable = False
        return df

    def other_strings():
        df = plain()
        df["s"] = ["".join(list(t)) for t in s]  # equal strings that are other objects
        return df

    ways = [plain, inserted, larger, every_other, blocks, rows, back, frozen, other_strings]
    for size, tree, seed in itertools.product((1, 30), (4, 16, 24), (1, 7)):
        want = None
        for w in ways:
            got = c28.attempt(lambda df: forest(df, forest_size=size, tree_size=tree, random_seed=seed), [w()])
            want = want or got
            X.edge()
            X.true(want[0] == "value" and got == want, "scores depend on how a frame was built", frame=w.__name__, size=size, tree=tree, seed=seed, got=str(got)[:300], expected=str(want)[:300])
            X.state("frames", case["frames"], w.__name__, size, tree, seed)
        X.trace()
        X.outcome(want)


def run(case, X):
    if "frames" in case:
        return frames(case, X)
    v, name = impl.variants[case["v"]], case["call"]
    fn, argsets = sets(v, name)
    base = list(argsets[case["args"]])
    at = places(base)
    arrays = [get(base, p) for p in at]
    quick, long = X.tier == "quick", slow(name)
    want = answer(fn, fresh(base))
    X.outcome(want)
    X.sample({"call": name, "arrays": [list(a.shape) for a in arrays], "result": str(want)[:100]})

    turn = itertools.count()

    def check(reps, expected, what, *how):
        if next(turn) % case["of"] != case["part"]:
            return
        args = fresh(base)
        expected = expected() if callable(expected) else expected
        bufs = []
        for p, (view, buf) in zip(at, reps):
            args = put(args, p, view)
            bufs.append((buf, buf.tobytes()))
        args = list(args)
        got = answer(fn, args)
        X.edge()
        X.trace()
        X.state(name, case["args"], how)
        X.true(same(name, got, expected), what, call=name, how=list(how), got=str(got)[:300], expected=str(expected)[:300])
        X.true(all(b.tobytes() == w for b, w in bufs), "a call changed memory of its caller", call=name, how=list(how))

    # how arrays lie in memory
    k = len(arrays)
    combos = {tuple("contiguous" if i != j else r for i in range(k)) for j in range(k) for r in REPS} | {(r,) * k for r in REPS}
    if not long and k <= (2 if quick else 3):
        combos |= set(itertools.product(REPS, repeat=k))
    elif not long:
        for i, j in itertools.combinations(range(k), 2):
            if quick and j != i + 1:
                continue
            combos |= {tuple(r if n == i else s if n == j else "contiguous" for n in range(k)) for r, s in itertools.product(REPS, repeat=2)}
    for combo in sorted(combos):
        reps = [REPS[r](a) for r, a in zip(combo, arrays)]
        if None not in reps:
            check(reps, want, "a result depends on how an array lies in memory", *combo)

    # one buffer for all arrays
    for order in ((1, -1) if k > 1 else ()):
        buf = np.empty(sum(a.size for a in arrays))
        reps, n = {}, 0
        for i in range(k)[::order]:
            a = arrays[i]
            if a.dtype.itemsize != 8:
                break
            view = buf[n:n + a.size].view(a.dtype).reshape(a.shape)
            view[...] = a
            reps[i] = (view, buf)
            n += a.size
        if len(reps) == k:
            check([reps[i] for i in range(k)], want, "a result depends on arrays sharing a buffer", "adjacent", order)
    for i, j in itertools.combinations(range(k), 2):
        a, b = arrays[i], arrays[j]
        if a.shape != b.shape or a.dtype != b.dtype:
            continue

        def pair(x, y, rest=None):
            r = [contiguous(z) for z in arrays]
            r[i], r[j] = x, y
            return r

        buf = np.stack([a, b], axis=-1)
        check(pair((buf[..., 0], buf), (buf[..., 1], buf)), want, "a result depends on arrays sharing a buffer", "interleaved", i, j)
        buf = np.stack([a, b])
        check(pair((buf[0], buf), (buf[1], buf)), want, "a result depends on arrays sharing a buffer", "rows", i, j)
        # equal values
        for x in (a, b):
            args = put(put(fresh(base), at[i], x.copy()), at[j], x.copy())
            equal = lambda: answer(fn, list(args))
            one = x.copy()
            check(pair((one, one), (one, one)), equal, "a result depends on two arrays being one object", "same", i, j)
            check(pair((one, one), (one[:], one)), equal, "a result depends on two arrays being views of the same memory", "views", i, j)
        # overlapping values: any two parts of one buffer
        n = len(a)
        for buf in (np.concatenate([a, b]), np.concatenate([b, a])):
            ways = list(itertools.permutations(PARTS, 2))
            if long:
                ways = [("first half", w) for w in PARTS if w != "first half"]
            for x, y in ways:
                x_, y_ = (buf[PARTS[w](n)] for w in (x, y))
                args = put(put(fresh(base), at[i], x_.copy()), at[j], y_.copy())
                check(pair((x_, buf), (y_, buf)), lambda: answer(fn, list(args)), "a result depends on two arrays overlapping", x, y, i, j)
