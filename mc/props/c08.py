"""Histories of estimation calls on shared model objects."""
import collections
import copy
import itertools

import numpy as np

from mc import impl, ref

ID = "C08"
BOUNDS = (
    "breadth-first search to a fixpoint (or 8, thorough 12 operations) over every sequence of operations on a pool of two univariate models, a DCC built on "
    "them, a DCC built on arrays, and a CCC: fit, refit, likelihood evaluations elsewhere, conditional correlations, starting values; "
    "{GARCH, GJR} x {compiled, pure}; oracle: estimates of fresh, separately fitted models, never None, never changed by later calls"
)


def cases(tier):
    depth = 8 if tier == "quick" else 12
    firsts = ["u", "w", "dcc", "dcc2", "ccc", "corr", "start", "ll_u", "ll_dcc", "ll_ccc"]
    for m, v in (("garch", "native"), ("gjr", "native"), ("garch", "pure"), ("gjr", "pure")):
        for f in firsts:
            yield {"m": m, "v": v, "first": f, "depth": depth, "T": 70 if v == "native" else 40}


def cost(c):
    return 1 if c["v"] == "pure" else 0


class Pool:
    """The objects under test; operations replay on a fresh pool."""

    def __init__(self, case):
        A = impl.variants[case["v"]].alg
        self.U, self.D = (A.GARCHModel, A.GARCHModel_DCC) if case["m"] == "garch" else (A.GJRGARCHModel, A.GJRGARCHModel_DCC)
        x, y = ref.pair_series(3, case["T"], 0.5, alpha=0.15, beta=0.7, omega=0.2)
        self.x, self.y = np.array(x), np.array(y)
        self.u, self.w = self.U(self.x), self.U(self.y)
        self.dcc = self.D(self.u, self.w)
        self.dcc2 = self.D(self.x, self.y)
        self.ccc = A.GARCHModel_CCC(self.x, self.y)

    def do(self, op):
        if op == "u":
            return ("P", "u", self.u.fit())
        if op == "w":
            return ("P", "w", self.w.fit())
        if op == "dcc":
            return ("P", "dcc", self.dcc.fit())
        if op == "dcc2":
            return ("P", "dcc", self.dcc2.fit())
        if op == "ccc":
            return ("P", "ccc", self.ccc.fit())
        if op == "corr":
            return ("A", "corr", np.array(self.dcc.conditional_correlations(0.05, 0.9)))
        if op == "start":
            self.u.fit(), self.w.fit()
            return ("A", "start", np.array(self.dcc.starting_values()))
        if op == "ll_u":
            self.u.preparation()
            p = [0.1, 0.3, 0.1, 0.6] if self.U is not impl_gjr(self) else [0.1, 0.3, 0.1, 0.1, 0.5]
            return ("A", "ll_u", np.array([self.u.loglikelihood_model(np.array(p), 1.0, self.u.var_bounds)]))
        if op == "ll_dcc":
            self.u.fit(), self.w.fit()
            return ("A", "ll_dcc", np.array([self.dcc.loglikelihood_model([0.2, 0.3])]))
        q = np.array([0.0, 0.1, 0.1, 0.8, 0.0, 0.2, 0.3, 0.4, 0.3])
        return ("A", "ll_ccc", np.array([self.ccc.loglikelihood_model(q, 0.0, 0.0, None, None)]))


def impl_gjr(pool):
    for v in impl.variants.values():
        if pool.U is v.alg.GJRGARCHModel:
            return pool.U
    return None


OPS = ["u", "w", "dcc", "dcc2", "ccc", "corr", "start", "ll_u", "ll_dcc", "ll_ccc"]


def values(P):
    return np.array([getattr(P, f) for f in P.__dataclass_fields__], dtype=float)


def run(case, X):
    fresh = {}
    for op in OPS:
        p = Pool(case)
        fresh[op] = p.do(op)
        if fresh[op][0] == "P":
            X.true(fresh[op][2] is not None, "%s returned nothing" % op)
            fresh[op] = ("P", op, values(fresh[op][2]))

    def step(pool, hist, op):
        kind, key, got = pool.do(op)
        if kind == "P":
            X.true(got is not None, "an estimation call returned nothing", history=hist + [op])
            got = values(got)
        X.true(got is not None, "a call returned nothing", history=hist + [op])
        X.same(got, fresh[op][2], "the result of '%s' depends on earlier calls" % op, rtol=1e-6, atol=1e-8, history=hist + [op])
        if not hist:
            return
        for o, name in ((pool.u, "u"), (pool.w, "w"), (pool.dcc, "dcc"), (pool.dcc2, "dcc2"), (pool.ccc, "ccc")):
            if o.estimation_success:
                X.same(values(o.parameters), fresh[name][2], "the estimates of a fitted model changed", rtol=1e-6, atol=1e-8,
                       model=name, history=hist + [op])
        X.true((pool.x == x0).all() and (pool.y == y0).all(), "the returns were modified", history=hist + [op])

    def canon(o, depth=0):
        """Everything an object holds, rounded."""
        if isinstance(o, (np.ndarray, list, tuple)) and depth < 6:
            try:
                a = np.asarray(o, dtype=float)
                return (a.shape, tuple(float("%.5g" % v) if v == v else None for v in a.ravel().tolist()))
            except (TypeError, ValueError):
                return tuple(canon(v, depth + 1) for v in o)
        if isinstance(o, dict) and depth < 6:
            return tuple(sorted((str(k), canon(v, depth + 1)) for k, v in o.items()))
        if isinstance(o, float):
            return float("%.5g" % o) if o == o else None
        if hasattr(o, "__dict__") and depth < 6 and not callable(o):
            return canon(vars(o), depth + 1)
        return o if isinstance(o, (int, str, bool, type(None))) else type(o).__name__

    p0 = Pool(case)
    x0, y0 = p0.x.copy(), p0.y.copy()
    step(p0, [], case["first"])
    seen = {canon(p0)}
    frontier = collections.deque([(p0, [case["first"]])])
    last = {}
    while frontier:
        pool, hist = frontier.popleft()
        for op in OPS:
            p = copy.deepcopy(pool)
            step(p, hist, op)
            X.edge()
            k = canon(p)
            X.state(case["m"], case["v"], k)
            if k not in seen:
                seen.add(k)
                last[len(hist) + 1] = hist + [op]
                X.outcome(k)
                if len(hist) + 1 < case["depth"]:
                    frontier.append((p, hist + [op]))
                else:
                    X.count("frontier_at_depth_bound")
    # the snapshots stand for real histories: the deepest ones are run again from scratch
    for hist in list(last.values())[-2:]:
        pool = Pool(case)
        for i, op in enumerate(hist):
            step(pool, hist[:i], op)
        X.trace()
    X.maximum("depth", max(last, default=1))
    X.sample({"deepest_history": last.get(max(last, default=1)), "states": len(seen)})
