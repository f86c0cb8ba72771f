"""Isolation forest interface: rows, columns, seeds."""
import itertools

import numpy as np
import pandas as pd

from mc import impl

ID = "C14"
BOUNDS = (
    "every frame layout of a grid (1..9 and 40, 300 rows; every order and subset of numeric and string columns; every excluded subset; 5 "
    "kinds of index; dtypes) x forest sizes x tree sizes below, at and above the number of rows x seeds; every pair of seeds differing in "
    "one bit up to 2^31-1; 500009 rows, 340 columns, 2100 trees, strings of 70000 characters; oracle: relations between runs (row alignment, excluded columns absent, duplicates equal, order-preserving "
    "transformations, repeatability, distinct seeds), scores in (0,1], input untouched, rows and trees partitioned without gaps"
)


def cases(tier):
    for n in (1, 2, 3, 5, 8, 9, 17, 40):
        yield {"k": "index", "n": n}
        yield {"k": "columns", "n": n}
        yield {"k": "dups", "n": n}
        yield {"k": "monotone", "n": n}
    yield {"k": "index", "n": 300}
    for bit in range(31):
        yield {"k": "seeds", "bit": bit}
    for n in (1, 2, 3, 4, 7, 15, 16, 17, 63, 64, 65):
        yield {"k": "sizes", "n": n}
    for m in range(0, 9):
        yield {"k": "strings", "m": m}
    for kind in ("rows", "columns", "trees", "deep", "300", "70000", "more rows"):
        yield {"k": "large", "kind": kind}


def cost(c):
    return c["k"] == "large"


def scores(df, forest=5, tree=8, seed=3, **kw):
    return impl.native.iforest.anomaly_scores(df, forest_size=forest, tree_size=tree, random_seed=seed, **kw)


def vec(df, **kw):
    return scores(df, **kw).iloc[:, 0].to_numpy()


def table(n):
    i = np.arange(n)
    return {
        "a": ((i * 37) % 11).astype(float), "b": np.where(i % 5 == 3, np.nan, ((i * 13) % 7) / 4.0), "c": (i * 7) % 5,
        "s": np.array([("x" * (k % 3)) + "qazwsx"[k % 6] for k in i], dtype=object),
        "u": np.array([["", "long string", "m", "zz"][k % 4] for k in i], dtype=object),
    }


def run(case, X):
    getattr(impl, "native").iforest
    globals()["k_" + case["k"]](case, X)


def ok_range(X, v, n, **d):
    X.true(len(v) == n, "one score per row expected", **d)
    X.true(all(np.isfinite(v)) and all(0 < x <= 1 for x in v), "a score is not in (0, 1]", scores=v, **d)


def k_index(case, X):
    n = case["n"]
    d = table(n)
    base = pd.DataFrame(d)
    for forest, tree, seed in itertools.product((1, 3, 9), (2, 8, 64), (1, 5)):
        want = vec(base, forest=forest, tree=tree, seed=seed)
        ok_range(X, want, n, forest=forest, tree=tree)
        for name, idx in {"range": range(n), "offset": range(100, 100 + n), "strings": ["k%d" % (n - i) for i in range(n)],
                          "dates": pd.date_range("2020-01-01", periods=n)[::-1], "repeated": [7] * n,
                          "multi": pd.MultiIndex.from_tuples([(i // 2, -i) for i in range(n)], names=["p", "q"])}.items():
            df = pd.DataFrame(d)
            df.index = idx
            copy = df.copy()
            out = scores(df, forest=forest, tree=tree, seed=seed, name="zz")
            X.trace()
            X.edge(n)
            X.state(n, forest, tree, seed, name)
            X.true(list(out.columns) == ["zz"] and out.index.equals(df.index), "result is not indexed like the data", index=name)
            X.same(out["zz"].to_numpy(), want, "scores depend on the index", rtol=1e-12, index=name)
            X.true(df.equals(copy), "the data were modified", index=name)
        X.outcome(tuple(np.round(want, 9)))
        # values in other containers
        for name, df in {"float32 or int": base.astype({"c": np.int8}), "fortran": pd.DataFrame({k: pd.Series(list(v)) for k, v in d.items()}),
                         "sliced": pd.DataFrame({k: np.repeat(v, 2) for k, v in d.items()}).iloc[::2]}.items():
            X.trace()
            X.same(vec(df, forest=forest, tree=tree, seed=seed), want, "scores depend on how the columns are stored", rtol=1e-12, kind=name)
        # no subset of another length: rows are reordered together with their scores when one tree sees all rows
    X.sample({"n": n})


def k_columns(case, X):
    n = case["n"]
    d = table(n)
    for keep in itertools.chain.from_iterable(itertools.combinations("abcsu", r) for r in range(1, 6)):
        if not set(keep) & set("abc"):
            continue
        base = pd.DataFrame({k: d[k] for k in keep})
        want = vec(base)
        ok_range(X, want, n, columns=keep)
        drop = [k for k in "abcsu" if k not in keep]
        X.edge()
        X.state(n, keep)
        for how in (drop, tuple(drop), np.array(drop, dtype=object)):
            X.trace()
            X.same(vec(pd.DataFrame(d), exclude_cols=list(how)), want, "excluded columns still matter", rtol=1e-12, excluded=drop)
        junk = dict(d)
        for k in drop:
            junk[k] = np.arange(n)[::-1] * 3.0 if k in "abc" else np.array(["y%d" % i for i in range(n)], dtype=object)
        X.same(vec(pd.DataFrame(junk), exclude_cols=drop), want, "the content of an excluded column matters", rtol=1e-12, excluded=drop)
        X.same(vec(base, exclude_cols=None), want, "no exclusion", rtol=1e-12)
        # interleaving string and numeric columns does not matter
        mixed = sorted(keep, key=lambda k: (k not in "su", k))
        X.same(vec(pd.DataFrame({k: d[k] for k in mixed})), want, "the place of string columns among numeric ones matters", rtol=1e-12)
        X.outcome(tuple(np.round(want, 9)))
    # names carry no meaning: a column named like the result, columns sharing a name, labels that are not strings
    for keep in ("ab", "abs", "acu", "bcsu"):
        base = pd.DataFrame({k: d[k] for k in keep})
        want = vec(base)
        labels = {"like the result": ["AnomalyScore"] + list(keep[1:]), "one twice": [keep[0]] * 2 + list(keep[2:]), "all the same": ["x"] * len(keep), "numbers": list(range(len(keep))),
                  "pairs": [("k", c) for c in keep], "empty": [""] + list(keep[1:]), "like a method": ["values", "index", "T", "shape"][:len(keep)]}
        for how, names in labels.items():
            df = base.copy()
            df.columns = names
            X.trace()
            X.edge()
            X.state(n, keep, how)
            X.same(vec(df), want, "the names of the columns matter", rtol=1e-12, names=names)
            out = scores(df, name=names[0])
            X.true(list(out.columns) == [names[0]], "the result is not named as asked", names=names)
            X.same(out.iloc[:, 0].to_numpy(), want, "the names of the columns matter", rtol=1e-12, names=names, result=names[0])
        two = base.assign(extra=1.0, more="q")
        two.columns = list(keep) + ["AnomalyScore", "AnomalyScore"]
        X.same(vec(two, exclude_cols=["AnomalyScore"]), want, "excluded columns still matter", rtol=1e-12, excluded="two of one name")
    two = list("ab")
    lst = list(two)
    scores(pd.DataFrame(d), exclude_cols=lst)
    X.true(lst == two, "the list of excluded columns was modified")


def k_dups(case, X):
    n = case["n"]
    d = table(n)
    base = pd.DataFrame(d)
    for forest, tree, seed in itertools.product((1, 4), (2, 4, 16, 256), (1, 2, 3)):
        both = pd.concat([base, base.iloc[::-1]], ignore_index=True)
        v = vec(both, forest=forest, tree=tree, seed=seed)
        X.trace()
        X.edge(n)
        X.state(n, forest, tree, seed)
        ok_range(X, v, 2 * n)
        X.same(v[:n], v[n:][::-1], "identical rows got different scores", rtol=1e-12, forest=forest, tree=tree)
        const = pd.DataFrame({"a": [4.0] * n, "b": [np.nan] * n, "s": ["same"] * n})
        w = vec(const, forest=forest, tree=tree, seed=seed)
        X.same(w, [w[0]] * n, "identical rows got different scores", rtol=1e-12)
        X.same(vec(both, forest=forest, tree=tree, seed=seed), v, "the same call twice gives different scores", rtol=0, atol=0)
        X.outcome(tuple(np.round(v, 9)))


def k_monotone(case, X):
    n = case["n"]
    d = table(n)
    nums = pd.DataFrame({k: d[k].astype(float) for k in "abc"})
    for forest, tree, seed in itertools.product((1, 6), (2, 8, 64), (1, 2)):
        want = vec(nums, forest=forest, tree=tree, seed=seed)
        for name, f in {"scaled": lambda x: 1e6 * x + 3, "tiny": lambda x: 1e-9 * x, "exp": np.exp, "cube": lambda x: (x - 2.5) ** 3,
                        "negative": lambda x: x - 1e5, "infinite": lambda x: np.where(x == np.nanmax(x), np.inf, x)}.items():
            X.trace()
            X.edge()
            X.state(n, forest, tree, seed, name)
            X.same(vec(nums.apply(f), forest=forest, tree=tree, seed=seed), want, "an order-preserving transformation changes scores", rtol=1e-12,
                   transformation=name)
        X.outcome(tuple(np.round(want, 9)))


def k_seeds(case, X):
    d = pd.DataFrame(table(40))
    seen = {}
    for base in (0, 1, 2, 1021, 2**20 + 5, 2**31 - 1):
        for seed in (base, base ^ (1 << case["bit"])):
            if not 0 <= seed < 2**31:
                continue
            v = tuple(vec(d, forest=3, tree=16, seed=seed))
            X.trace()
            X.state(seed)
            X.edge()
            X.outcome(v)
            for s, w in seen.items():
                X.true(s == seed or w != v, "two seeds select the same forest", seeds=[s, seed])
            X.true(tuple(vec(d, forest=3, tree=16, seed=seed)) == v, "one seed gives two different forests", seed=seed)
            seen[seed] = v


def k_sizes(case, X):
    """Every number of rows and trees is covered: no row and no tree is left out or counted twice."""
    n = case["n"]
    df = pd.DataFrame({"a": np.arange(n, dtype=float), "s": ["r%d" % (i % 3) for i in range(n)]})
    for forest in list(range(1, 20)) + [31, 32, 33, 64, 65]:
        for tree in (2, 3, 16, 17, n, n + 1, 2 * n + 5):
            if tree < 2:
                continue
            v = vec(df, forest=forest, tree=tree, seed=9)
            X.trace()
            X.edge()
            X.state(n, forest, tree)
            ok_range(X, v, n, forest=forest, tree=tree)
            X.outcome(tuple(np.round(v, 9)))
    if n > 1:
        # with one tree per forest and all rows in each tree, a score is 2^(-path/c); averages lie between the extremes
        one = [vec(df, forest=1, tree=max(n, 2), seed=s) for s in range(30)]
        lo, hi = np.min(one), np.max(one)
        many = vec(df, forest=40, tree=max(n, 2), seed=1)
        X.true((many >= lo - 1e-12).all() and (many <= hi + 1e-12).all() or n > 17, "a forest's score lies outside those of single trees")


def k_strings(case, X):
    """Strings of every length up to the longest of the column."""
    m = case["m"]
    for reps in itertools.product(("a", "b", "ab"), repeat=2):
        col = [reps[0] * m, reps[1] * m, (reps[0] * (m + 1))[:m] or "", "z" * m, "", reps[0]]
        other = ["q" * (3 * k + 1) for k in range(6)]
        df = pd.DataFrame({"n": [1.0] * 6, "s": col})
        for seed in range(8):
            v = vec(df, forest=3, tree=8, seed=seed)
            X.trace()
            X.edge()
            X.state(m, reps, seed)
            ok_range(X, v, 6)
            for i, j in itertools.combinations(range(6), 2):
                if col[i] == col[j]:
                    X.same(v[i], v[j], "equal strings got different scores", column=col)
            # renaming values in an order-preserving way does not matter: rank by (length, alphabet)
            ranks = {s: k for k, s in enumerate(sorted(set(col), key=lambda s: (len(s), s)))}
            same = pd.DataFrame({"n": [1.0] * 6, "s": ["ABCDEFGH"[ranks[s]] for s in col]})
            X.same(vec(same, forest=3, tree=8, seed=seed), v, "an order-preserving renaming of strings changes scores", column=col)
            # nor does a wider neighbouring column of the array
            wide = pd.DataFrame({"n": [1.0] * 6, "s": col, "t": other})
            dup = pd.DataFrame({"n": [1.0] * 6, "s": ["ABCDEFGH"[ranks[s]] for s in col], "t": list("ABCDEF")})
            X.same(vec(wide, forest=3, tree=8, seed=seed), vec(dup, forest=3, tree=8, seed=seed), "the width of another column matters", column=col)


def k_large(case, X):
    """Frames as large as the real ones: 70000 rows, hundreds of columns or trees, very long strings."""
    kind = case["kind"]
    if kind == "rows":
        n, kw = 70001, dict(forest=24, tree=256)
        i = np.arange(n)
        d = {"a": ((i * 7919) % 10007).astype(float), "b": np.where(i % 50 == 3, np.nan, ((i * 13) % 701) / 4.0), "s": np.array(["k%d" % (k % 9) for k in i], dtype=object)}
    elif kind == "more rows":
        n, kw = 500009, dict(forest=4, tree=32)
        i = np.arange(n)
        d = {"a": ((i * 7919) % 10007).astype(float), "b": ((i * 13) % 701) / 4.0}
    elif kind == "columns":
        n, kw = 200, dict(forest=150, tree=64)
        i = np.arange(n)
        d = {"c%d" % k: (((i + 3) * (k + 7) * 7919) % 1009).astype(float) for k in range(300)}
        d.update({"t%d" % k: np.array(["%d" % (j * (k + 3) % 13) for j in i], dtype=object) for k in range(40)})
    elif kind == "trees":
        n, kw = 65, dict(forest=2100, tree=16)
        d = table(n)
    elif kind == "deep":
        n, kw = 3000, dict(forest=5, tree=5000)
        d = table(n)
    else:
        n, kw = 40, dict(forest=9, tree=16)
        L = {"300": 300, "70000": 70000}[kind]
        i = np.arange(n)
        d = {"a": i * 1.0 % 7, "s": np.array([("x" * (L - k % 3)) + "abc"[k % 3] for k in i], dtype=object)}
        # the same order by length, then alphabet
        short = {v: "ABCDEFGHIJ"[k] for k, v in enumerate(sorted(set(d["s"]), key=lambda v: (len(v), v)))}
    base = pd.DataFrame(d)
    for seed in (1, 2**31 - 1):
        v = vec(base, seed=seed, **kw)
        X.trace()
        X.edge(n)
        X.state(kind, seed)
        ok_range(X, v, n, kind=kind)
        X.true(len(set(v)) > 1, "all rows have one score", kind=kind)
        X.outcome(tuple(np.round(v[:50], 9)))
        X.same(vec(base, seed=seed, **kw), v, "the same call twice gives different scores", rtol=0, atol=0)
        nums = [c for c in base if base[c].dtype != object]
        trans = base.copy()
        for c in nums:
            trans[c] = trans[c] * 3.0 - 7
        X.same(vec(trans, seed=seed, **kw), v, "an order-preserving transformation changes scores", rtol=1e-12, kind=kind)
        extra = base.copy()
        extra["zz"], extra["ww"] = np.arange(n) * 1.0, "w"
        X.same(vec(extra, seed=seed, exclude_cols=["zz", "ww"], **kw), v, "excluded columns still matter", rtol=1e-12, kind=kind)
        if kind in ("300", "70000"):
            ren = base.copy()
            ren["s"] = [short[s] for s in base["s"]]
            X.same(vec(ren, seed=seed, **kw), v, "an order-preserving renaming of long strings changes scores", rtol=1e-12, length=L)
        group = pd.Series(v).groupby([base[c].fillna(-1e99).to_numpy() if c in nums else base[c].to_numpy() for c in base])
        apart = (group.transform("max") - group.transform("min")).to_numpy()
        X.true((apart < 1e-12).all(), "identical rows got different scores", kind=kind, row=int(apart.argmax()))
        both = pd.concat([base, base.iloc[::-1]], ignore_index=True)
        w = vec(both, seed=seed, **kw)
        X.same(w[:n], w[n:][::-1], "identical rows got different scores", rtol=1e-12, kind=kind)
    X.sample({"kind": kind, "rows": n, **kw})
