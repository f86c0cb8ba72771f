"""Isolation forest scores: every result is one that the documented tree construction can produce."""
import functools
import itertools
import math

import numpy as np
import pandas as pd

from mc import impl

ID = "C13"
BOUNDS = (
    "every frame of 2..4 (thorough 5) rows over a numeric column of {1,2,missing} (and with a second numeric or a string column; and over long strings that differ late and numbers that differ little or are infinite; single trees of a column of 12..300 rows and of samples of up to 70000), tree "
    "sizes 2, 3, 4, 8, forests of 1..3 trees, 12 (thorough 60) seeds each; oracle: nondeterministic reference model of isolation trees, "
    "all of whose outcomes (samples, attributes, split rows) are enumerated; every likely outcome of each row is reached over 800 seeds"
)
NUM = (1.0, 2.0, None)
STR = ("", "b", "a", "aa", "zz")
# strings that differ late, in case, or in punctuation; values that differ little or are extreme
STR2 = ("common_prefix_0000000000000000001", "common_prefix_0000000000000000002", "common_prefix_000000000000000000!", "COMMON_PREFIX_0000000000000000001")
VAL = (1.0, 1.0 + 1e-12, -1e300, float("inf"), float("-inf"), None)


def frames(n, kind):
    if kind == "num":
        for a in itertools.product((1.0, 2.0, -3.5, None), repeat=n):
            yield [list(a)], []
    elif kind == "num2":
        for a in itertools.product(NUM, repeat=n):
            yield [list(a), [0.5 * i - (i == 2) * 3 for i in range(n)]], []
    elif kind == "val":
        for a in itertools.product(VAL, repeat=n):
            if len(set(a)) == n or n < 4:
                yield [list(a)], []
    elif kind == "str2":
        for s in itertools.product(STR2, repeat=n):
            yield [], [list(s)]
    else:
        for s in itertools.product(STR, repeat=n):
            yield [[1.0, 1.0, 2.0, None, 2.0][:n]], [list(s)]


def cases(tier):
    q = tier == "quick"
    for kind in ("num", "num2", "str", "str2", "val"):
        for n in (2, 3, 4) if q else (2, 3, 4, 5):
            allf = list(frames(n, kind))
            for k in range(0, len(allf), 24):
                # frames are checked in chunks; every frame of the space is in one
                yield {"kind": kind, "n": n, "from": k, "to": min(k + 24, len(allf)), "seeds": 12 if q else 60}
    for kind, n in itertools.product(("num", "num2", "str", "str2", "val", "case"), (3, 4, 5)):
        for t in (2, 4, 8):
            yield {"reach": kind, "n": n, "tree": t}


    for n, t in ((12, 16), (33, 40), (64, 64), (120, 128), (160, 161), (300, 1000), (1000, 1024)):
        yield {"rows": n, "tree": t, "seeds": 40 if n < 100 else 20 if n < 300 else 6 if n < 1000 else 1}
    for n, t in ((301, 16), (5003, 64), (70001, 256), (70001, 3), (500009, 64)):
        yield {"steps": n, "tree": t}
    for n, t in ((21, 20), (40, 33), (90, 70), (300, 257), (400, 399), (600, 599), (900, 600), (1400, 1100), (5003, 4999), (9001, 6000)):
        yield {"sampled": n, "tree": t, "seeds": 12 if n < 2000 else 3}


def cost(c):
    return 200 if c.get("rows", 0) > 99 else 100 if "n" not in c or "reach" in c else c["n"]


def c_(n):
    return 2 * (math.log(n - 1) + 0.57721566490153286) - 2 * (n - 1) / n


def before(x, v):
    """x goes to the left of the split value v."""
    if isinstance(v, str):
        return (len(x), x) < (len(v), v)
    if v is None:
        return x is None
    return x is None or x < v


class Model:
    def __init__(self, nums, strs, tree):
        self.attrs = nums + strs
        self.n = len(self.attrs[0])
        self.tree = tree
        self.limit = math.ceil(math.log2(tree))

    @functools.lru_cache(None)
    def grow(self, S, Q, h):
        """All {path lengths of the rows Q} of a subtree grown from the rows S, with probabilities."""
        if len(S) <= 1 or h >= self.limit:
            return {tuple((h + (c_(len(S)) if len(S) > 1 else 0.0)) for _ in Q): 1.0}
        out = {}
        pos = {q: i for i, q in enumerate(Q)}
        w = 1.0 / len(self.attrs) / len(S)
        for a in self.attrs:
            for s in S:
                L = tuple(i for i in S if before(a[i], a[s]))
                R = tuple(i for i in S if not before(a[i], a[s]))
                QL = tuple(i for i in Q if before(a[i], a[s]))
                QR = tuple(i for i in Q if not before(a[i], a[s]))
                for (pl, wl), (pr, wr) in itertools.product(self.grow(L, QL, h + 1).items(), self.grow(R, QR, h + 1).items()):
                    v = [0.0] * len(Q)
                    for q, x in zip(QL, pl):
                        v[pos[q]] = x
                    for q, x in zip(QR, pr):
                        v[pos[q]] = x
                    v = tuple(v)
                    out[v] = out.get(v, 0.0) + w * wl * wr
        return out

    def outcomes(self):
        Q = tuple(range(self.n))
        out = {}
        subsets = list(itertools.combinations(Q, min(self.tree, self.n)))
        for S in subsets:
            for p, w in self.grow(S, Q, 0).items():
                out[p] = out.get(p, 0.0) + w / len(subsets)
        return out

    def score(self, avg):
        return 2 ** (-avg / c_(self.tree))


def frame(nums, strs):
    d = {"n%d" % i: [float("nan") if v is None else v for v in c] for i, c in enumerate(nums)}
    d.update({"s%d" % i: c for i, c in enumerate(strs)})
    return pd.DataFrame(d)


def scores(df, forest, tree, seed):
    return impl.native.iforest.anomaly_scores(df, forest_size=forest, tree_size=tree, random_seed=seed).iloc[:, 0].tolist()


def key(v):
    return tuple(round(x, 9) for x in v)


def run(case, X):
    for k, f in (("reach", reach), ("rows", whole), ("steps", steps), ("sampled", sampled)):
        if k in case:
            return f(case, X)
    allf = list(frames(case["n"], case["kind"]))[case["from"]:case["to"]]
    for (nums, strs), tree in itertools.product(allf, (2, 3, 4, 8)):
        M = Model(nums, strs, tree)
        paths = list(M.outcomes())
        X.edge(len(paths))
        df = frame(nums, strs)
        allowed = {key(M.score(p) for p in v) for v in paths}
        for seed in range(case["seeds"]):
            got = scores(df, 1, tree, seed)
            X.trace()
            X.state(nums, strs, tree, key(got))
            X.true(key(got) in allowed, "no isolation tree of the data gives these scores", nums=nums, strs=strs, tree=tree, seed=seed,
                   scores=got, examples=sorted(allowed)[:4])
            X.outcome((tree, key(got)))
        if len(paths) <= 60:
            two = {key(M.score((a + b) / 2) for a, b in zip(u, v)) for u in paths for v in paths}
            three = None
            if len(paths) <= 16:
                three = {key(M.score((a + b + c) / 3) for a, b, c in zip(u, v, w)) for u in paths for v in paths for w in paths}
            for seed in range(case["seeds"] // 4):
                for f, ok in ((2, two), (3, three)):
                    if ok:
                        got = scores(df, f, tree, seed)
                        X.trace()
                        X.true(key(got) in ok, "the scores of a forest are not those of the average path over its trees", nums=nums,
                               strs=strs, tree=tree, seed=seed, forest=f, scores=got)
    X.sample({"frame": [nums, strs], "tree": tree, "model_outcomes": len(paths)})


def decode(n, limit):
    """{path length: (depth, rows of the leaf)} for trees grown from all n rows."""
    out = {round(float(h), 7): (h, 1) for h in range(1, limit + 1)}
    out.update({round(limit + c_(m), 7): (limit, m) for m in range(2, n + 1)})
    return out


def whole(case, X):
    """One tree of all rows of a long numeric column: the path lengths, in the order of the column, are those of a binary tree.

    A row alone in its node is a leaf; a node of several rows splits at one of them, into the rows before it (perhaps none) and the others,
    until the depth limit. So a run of rows can be the subtree of a node at every depth up to a greatest one, or at none.
    """
    n, tree = case["rows"], case["tree"]
    limit = math.ceil(math.log2(tree))
    table = decode(n, limit)
    for seed in range(case["seeds"]):
        col = [float((7919 * (i + 1) * (seed + 1)) % 10007) + i * 1e-5 for i in range(n)]
        if seed % 3 == 2:
            names, s = sorted(("v%d" % i for i in range(n)), key=lambda v: (len(v), v)), sorted(range(n), key=lambda i: col[i])
            text = [None] * n
            for r, i in enumerate(s):
                text[i] = names[r]
            df = frame([], [text])
        else:
            df = frame([[None if seed % 3 == 1 and v == min(col) else v for v in col]], [])
        got = scores(df, 1, tree, seed + 3)
        X.trace()
        X.edge(n)
        order = sorted(range(n), key=lambda i: col[i])
        leaves, i = [], 0
        while i < n:
            path = -math.log2(got[order[i]]) * c_(tree)
            leaf = table.get(round(path, 7)) or table.get(round(path + 1e-7, 7)) or table.get(round(path - 1e-7, 7))
            X.true(leaf is not None, "a path length is not a depth plus the correction for the rows of a leaf", rows=n, tree=tree, seed=seed, path=path)
            run = order[i:i + leaf[1]]
            X.true(len(run) == leaf[1] and all(abs(got[r] - got[order[i]]) < 1e-12 for r in run), "a leaf holds another number of rows than its path length says", rows=n, tree=tree,
                   seed=seed, leaf=leaf)
            leaves.append(leaf)
            i += leaf[1]
        k = len(leaves)
        X.state("whole", n, tree, tuple(leaves))
        X.outcome(tuple(h for h, _ in leaves[:20]))
        # top[i][j]: the greatest depth at which leaves i..j can be a whole subtree
        top = np.full((k, k), -1)
        for i in range(k):
            top[i, i] = leaves[i][0]
        for span in range(1, k):
            for i in range(k - span):
                j = i + span
                left, right = top[i, i:j].copy(), top[i + 1:j + 1, j].copy()
                # a single row is a leaf at its own depth only
                if leaves[i][1] == 1 and left[0] > right[0]:
                    left[0] = -1
                if leaves[j][1] == 1 and right[-1] > left[-1]:
                    right[-1] = -1
                top[i, j] = max(-1, np.minimum(left, right).max() - 1)
        X.true(top[0, k - 1] >= 0, "no binary tree has these leaves", rows=n, tree=tree, seed=seed, depths=[h for h, _ in leaves][:40])
    X.sample(case)


def steps(case, X):
    """One tree of a sample of a very long numeric column: scores are a step function of the column."""
    n, tree = case["steps"], case["tree"]
    limit = math.ceil(math.log2(tree))
    ok = {round(M, 7) for h in range(limit + 1) for M in (h, ) } | {round(limit + c_(m), 7) for m in range(2, tree + 1)}
    for seed in range(6):
        col = ((np.arange(n) * 7919 * (seed + 1)) % 1000003).astype(float)
        got = np.array(scores(frame([col.tolist()], []), 1, tree, seed))
        s = got[np.argsort(col, kind="stable")]
        path = -np.log2(s) * c_(tree)
        pieces = [0] + (np.nonzero(np.abs(np.diff(path)) > 1e-9)[0] + 1).tolist()
        X.trace()
        X.edge(n)
        X.state("steps", n, tree, seed)
        X.true(len(pieces) <= 2 ** limit, "one tree separates more groups of rows than it has leaves", rows=n, tree=tree, seed=seed, groups=len(pieces))
        X.true(len(pieces) > 1 or tree == 2, "one tree separates no rows", rows=n, tree=tree, seed=seed)
        for p in pieces:
            X.true(round(float(path[p]), 7) in ok or round(float(path[p]) + 1e-7, 7) in ok or round(float(path[p]) - 1e-7, 7) in ok,
                   "a path length is not a depth plus the correction for the rows of a leaf", rows=n, tree=tree, path=float(path[p]))
        X.outcome(tuple(np.round(path[pieces], 6)))


def sampled(case, X):
    """One tree of a sample, without replacement, of most rows: a leaf of k sampled rows holds k rows at least, and all leaves hold the sample."""
    n, tree = case["sampled"], case["tree"]
    limit = math.ceil(math.log2(tree))
    table = {round(float(h), 6): 0 for h in range(limit + 1)}
    table.update({round(limit + c_(m), 6): m for m in range(2, tree + 1)})
    for seed in range(case["seeds"]):
        col = [float((7919 * (i + 1) * (seed + 1)) % 10007) + i * 1e-5 for i in range(n)]
        if seed % 3 == 2:
            names, s = sorted(("v%d" % i for i in range(n)), key=lambda v: (len(v), v)), sorted(range(n), key=lambda i: col[i])
            text = [None] * n
            for r, i in enumerate(s):
                text[i] = names[r]
            df = frame([], [text])
        else:
            df = frame([col], [])
        got = np.array(scores(df, 1, tree, seed + 5))[np.argsort(col)]
        path = -np.log2(got) * c_(tree)
        X.trace()
        X.edge(n)
        cuts = [0] + (np.nonzero(np.abs(np.diff(path)) > 1e-9)[0] + 1).tolist() + [n]
        least = most = 0
        for i, j in zip(cuts, cuts[1:]):
            p = float(path[i])
            k = next((table[round(p + e, 6)] for e in (0, 1e-6, -1e-6) if round(p + e, 6) in table), None)
            X.true(k is not None, "a path length is not a depth plus the correction for the rows of a leaf", rows=n, tree=tree, seed=seed, path=p)
            X.true(j - i >= k, "a leaf of fewer rows than were sampled into it", rows=n, tree=tree, seed=seed, sampled=k, leaf=j - i)
            least += k
            most += (j - i) // k * k if k else j - i
        X.true(least <= tree <= most, "the leaves of a tree cannot hold its sample", rows=n, tree=tree, seed=seed, least=least, most=most)
        X.state("sampled", n, tree, seed)
        X.outcome((tuple(cuts[:20]), tuple(np.round(path[cuts[:-1][:20]], 6))))
    X.sample(case)


def reach(case, X):
    n = case["n"]
    nums, strs = {"num": ([[3.0, 1.0, None, 2.0, 9.0][:n]], []), "num2": ([[3.0, 1.0, 2.0, 7.0, 9.0][:n], [1.0, 5.0, 4.0, 0.0, None][:n]], []),
                  "str2": ([], [["common_prefix_000000000000000000%d" % (7 * i % 5) for i in range(n)]]),
                  "val": ([[1.0, 1.0 + 1e-12, float("-inf"), 1.0 - 1e-12, -1e300][:n]], []),
                  "case": ([], [["b", "B", "a", "~", "0"][:n]]),
                  "str": ([[3.0, 1.0, 2.0, 2.0, 5.0][:n]], [["b", "", "aa", "c", "a"][:n]])}[case["reach"]]
    M = Model(nums, strs, case["tree"])
    out = M.outcomes()
    df = frame(nums, strs)
    seen = [set() for _ in range(n)]
    allowed = {key(M.score(p) for p in v) for v in out}
    for seed in range(800):
        got = scores(df, 1, case["tree"], seed)
        X.trace()
        X.true(key(got) in allowed, "no isolation tree of the data gives these scores", nums=nums, strs=strs, tree=case["tree"], seed=seed, scores=got)
        for i, s in enumerate(got):
            seen[i].add(round(s, 9))
    for i in range(n):
        marg = {}
        for v, w in out.items():
            s = round(M.score(v[i]), 9)
            marg[s] = marg.get(s, 0.0) + w
        X.edge(len(marg))
        X.state(case["reach"], n, case["tree"], i)
        for s, w in marg.items():
            X.true(w < 0.03 or s in seen[i], "a likely outcome of a row never occurs over 800 seeds", row=i, score=s, probability=w,
                   nums=nums, strs=strs, tree=case["tree"])
