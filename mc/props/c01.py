"""Conditional variance paths of GARCH and GJR-GARCH, and GJR variance forecasts."""
import itertools

import numpy as np

from mc import impl, ref

ID = "C01"
BOUNDS = (
    "all residual tapes of length 1..5 (thorough 7) over {-2,-0.5,0,1,3} x 7 parameter vectors x 2 backcasts x 6 kinds of "
    "variance bounds x {GARCH, GJR} x {compiled, pure Python}; all spike positions of tapes around and beyond length 75; "
    "tapes of length 1..4 in 7 scales (1e-9 to 1e6); array layouts and types; oracle: one-step-at-a-time reference recursion"
)
ALPHABET = (-2.0, -0.5, 0.0, 1.0, 3.0)
PARAMS = [(0.1, 0.1, 0.05, 0.8), (1e-6, 0.0, 0.0, 0.0), (0.5, 1.0, 0.4, 0.0), (0.02, 0.0, 0.3, 0.98), (0.3, 0.25, 0.0, 0.5),
          (0.01, 0.05, 1.0, 0.45), (2.0, 0.6, 0.3, 0.3)]
BACKCASTS = (0.7, 4.0)
SCALES = (1e-9, 1e-6, 1e-4, 1e-2, 30.0, 1e3, 1e6)
KINDS = ("wide", "low", "high", "daily", "inf", "more")


def bounds(kind, T):
    if kind == "wide":
        return [(1e-12, 1e12)] * T
    if kind == "low":
        return [(1.7, 1e9)] * T
    if kind == "high":
        return [(1e-9, 0.6)] * T
    if kind == "daily":
        return [(0.05 * (t + 1), 0.9 + 0.35 * t) for t in range(T)]
    if kind == "inf":
        return [(1e-3, 2.0 + t) for t in range(T)]
    return [(0.01 * (t + 1), 1.5 + 0.2 * t) for t in range(T + 3)]


def model(v, name):
    return v.alg.GARCHModel if name == "garch" else v.alg.GJRGARCHModel


def par(p, name):
    return [p[0], p[1], p[3]] if name == "garch" else list(p)


def cases(tier):
    depth = 5 if tier == "quick" else 7
    for name, var in itertools.product(("garch", "gjr"), ("native", "pure")):
        for i, kind in itertools.product(range(len(PARAMS)), KINDS):
            yield {"m": name, "v": var, "p": i, "kind": kind, "depth": depth if kind != "inf" else 4}
        for T in (30, 74, 75, 76, 77, 128, 257, 1000, 2503, 5209, 12007, 17001):
            yield {"m": name, "v": var, "long": T}
        yield {"m": name, "v": var, "layouts": 1}
        for sc in SCALES:
            yield {"m": name, "v": var, "scale": sc}
    for var in ("native", "pure"):
        yield {"forecast": 1, "v": var, "depth": depth}


def call(cls, p, e, bc, bd):
    return np.asarray(cls.compute_variance(p, np.array(e, dtype=float), bc, np.array(bd, dtype=float)))


def run(case, X):
    v = impl.variants[case["v"]]
    if "forecast" in case:
        return forecast(case, X, v)
    cls = model(v, case["m"])
    if "long" in case:
        return long(case, X, cls)
    if "layouts" in case:
        return layouts(case, X, cls)
    if "scale" in case:
        return scaled(case, X, cls)
    p = par(PARAMS[case["p"]], case["m"])
    kind = case["kind"]
    alpha = ALPHABET if kind != "inf" else (-1e200, -2.0, 0.0, 1e200, 1.0)
    if kind == "inf" and 0.0 in p[1:-1]:
        alpha = ALPHABET  # 0 * inf has no agreed value
    for bc in BACKCASTS:
        # depth-first over tapes; a state is (parameters, bounds, day, variance, residual of that day)
        def explore(tape, path):
            if tape:
                T = len(tape)
                bd = bounds(kind, T)
                got = call(cls, p, tape, bc, bd)
                X.trace()
                X.same(got, path, "conditional variance", params=p, resids=tape, backcast=bc, bounds=bd)
                for t in range(1, T):
                    X.true(got[t] >= bd[t][0] * (1 - 1e-12), "variance below that day's lower bound", resids=tape)
                X.outcome(round(float(got[-1]), 9) if got[-1] < 1e100 else "inf")
                if T == case["depth"]:
                    return
            for e in alpha:
                t = len(tape)
                if t == 0:
                    nxt = ref.garch_first(p, bc)
                else:
                    lo, hi = bounds(kind, t + 1)[t]
                    nxt = ref.clamp(ref.garch_step(p, tape[-1], path[-1]), lo, hi)
                X.edge()
                X.state(case["m"], case["v"], case["p"], kind, bc, t, nxt, e)
                explore(tape + (e,), path + [nxt])

        explore((), [])
    X.sample({"params": p, "bounds": kind, "alphabet": alpha, "depth": case["depth"]})


def long(case, X, cls):
    """Long tapes: a spike at every position, and mixed patterns."""
    T = case["long"]
    p = par(PARAMS[0], case["m"])
    for i in range(0, T, 1 if T <= 257 else 97 if T <= 2500 else 1301):
        for base, spike in ((0.5, -4.0), (0.0, 2.0)):
            e = [base if (t % 3) else -base for t in range(T)]
            e[i] = spike
            bd = [(1e-3 * (1 + t % 5), 3.0 + (t % 7)) for t in range(T)]
            want = ref.garch_path(p, e, 1.3, bd)
            got = call(cls, p, e, 1.3, bd)
            X.trace()
            X.edge(T)
            X.state(case["m"], case["v"], "long", T, i, base)
            X.same(got, want, "conditional variance of a long series", T=T, spike_at=i)
    g = ref.normals(T)
    e = [1.3 * next(g) for _ in range(T)]
    bd = ref.variance_bounds(e)
    got = call(cls, p, e, ref.backcast(e), bd)
    X.trace()
    X.edge(T)
    X.same(got, ref.garch_path(p, e, ref.backcast(e), bd), "conditional variance of a long series", T=T)


def scaled(case, X, cls):
    """The same tapes in other units: residuals times s, variances, omega and bounds times s squared."""
    s, s2 = case["scale"], case["scale"] ** 2
    for pr, kind in itertools.product((PARAMS[0], PARAMS[4], PARAMS[6]), ("wide", "low", "high", "daily")):
        p = par((pr[0] * s2,) + pr[1:], case["m"])
        for n in range(1, 5):
            for tape in itertools.product(ALPHABET, repeat=n):
                e = [x * s for x in tape]
                bd = [(lo * s2, hi * s2 if n % 2 else hi) for lo, hi in bounds(kind, n)]
                want = ref.garch_path(p, e, 0.7 * s2, bd)
                X.trace()
                X.edge(n)
                X.state(case["m"], case["v"], s, pr, kind, tape)
                X.same(call(cls, p, e, 0.7 * s2, bd), want, "conditional variance of small or large numbers", rtol=1e-9,
                       atol=1e-14 * s2, resids=e, bounds=bd)
                X.outcome(want[-1])


def layouts(case, X, cls):
    """The same numbers in every memory layout, and as parameters of every kind."""
    for tape in itertools.product((-2.0, 0.0, 1.0, 3.0), repeat=4):
        T = len(tape)
        for name, pr in (("list", PARAMS[0]), ("b", PARAMS[5])):
            p = par(pr, case["m"])
            bd = bounds("daily", T)
            want = ref.garch_path(p, tape, 0.7, bd)
            e = np.array(tape)
            B = np.array(bd)
            wide = np.full((2 * T, 3), 7.77)
            wide[::2, 1] = e
            wb = np.full((T, 5), 9.9)
            wb[:, 1], wb[:, 3] = B[:, 0], B[:, 1]
            ro = e.copy()
            ro.flags.writeable = False
            es = {"c": e, "strided": wide[::2, 1], "reversed": e[::-1].copy()[::-1], "readonly": ro, "int": e.astype(np.int64),
                  "float32": e.astype(np.float32)}
            bs = {"c": B, "fortran": np.asfortranarray(B), "columns": wb[:, 1::2], "reversed": B[::-1].copy()[::-1]}
            ps = {"list": p, "tuple": tuple(p), "array": np.array(p), "strided": np.array(p + p)[: len(p)]}
            for (en, ev), (bn, bv) in itertools.product(es.items(), bs.items()):
                before = (ev.copy(), bv.copy())
                got = np.asarray(cls.compute_variance(p, ev, 0.7, bv))
                X.trace()
                X.edge()
                X.state(case["m"], case["v"], "layout", tape, en, bn, name)
                tol = 1e-5 if en == "float32" else 1e-8
                X.same(got, want, "conditional variance of the same numbers laid out differently", rtol=tol, resids=en, bounds=bn)
                X.true((ev == before[0]).all() and (bv == before[1]).all(), "an input array was modified", resids=en)
            for pn, pv in ps.items():
                got = np.asarray(cls.compute_variance(pv, e, 0.7, B))
                X.trace()
                X.same(got, want, "conditional variance with parameters given as %s" % pn)


def forecast(case, X, v):
    cls = v.alg.GJRGARCHModel
    for pr in PARAMS:
        P = cls.Parameters(mu=0.3, omega=pr[0], alpha=pr[1], gamma=pr[2], beta=pr[3])
        for v0 in (0.4, 3.0):
            def explore(tape):
                if tape:
                    want = ref.forecast_path(pr, tape, v0)
                    got = np.asarray(cls.forecast_variance(P, np.array(tape), v0))
                    X.trace()
                    X.same(got, want, "forecast variance", params=pr, resids=tape, initial=v0)
                    if all(x == int(x) for x in tape):
                        X.same(cls.forecast_variance(P, np.array(tape, dtype=int), v0), want,
                               "forecast variance of integer residuals", params=pr, resids=tape)
                    if len(tape) == case["depth"]:
                        return
                for e in ALPHABET:
                    X.edge()
                    X.state(case["v"], "forecast", pr, v0, tape, e)
                    explore(tape + (e,))

            explore(())
    for sc, pr in itertools.product(SCALES, PARAMS[:2] + PARAMS[4:]):
        q = (pr[0] * sc * sc,) + pr[1:]
        P = cls.Parameters(mu=0.3 * sc, omega=q[0], alpha=q[1], gamma=q[2], beta=q[3])
        for tape in itertools.product(ALPHABET, repeat=3):
            e = [x * sc for x in tape]
            X.trace()
            X.edge()
            X.state(case["v"], "forecast", sc, pr, tape)
            X.same(np.asarray(cls.forecast_variance(P, np.array(e), 0.4 * sc * sc)), ref.forecast_path(q, e, 0.4 * sc * sc),
                   "forecast variance of small or large numbers", rtol=1e-9, atol=1e-14 * sc * sc, params=q, resids=e)
