"""Malformed arguments are refused, and refusing leaves no trace; degenerate samples are reported as not estimated; a missing value never gives a number."""
import contextlib
import itertools
import os
import sys

import numpy as np

from mc import impl
from mc.props import c28

ID = "C38"
BOUNDS = (
    "every measure and model of several arrays: each combination, over all array arguments, of nine shapes (right, one longer, one shorter, one element, none, column, row, two rows, a number) for 1, 2 and 5 observations, that does not line up; "
    "quantile fractions, methods and versions outside the documented ones, unimplemented variants, books with one level, horizons and numbers of draws that are not counts, probabilities outside (0, 1), correlations that are not positive definite; "
    "samples with a missing or infinite return at each position, or without variation, for every model in both implementations, and with such a return or a total loss on the firm's, the market's or both sides of a long-run measure (each firm of three of the aggregate); "
    "every one and every two places of a missing value in the numeric arguments of fifteen measures; after each refusal the same object still gives what a fresh one gives; oracle: an exception (or, for a sample, success reported as False without estimates; for a missing value, no finite number)"
)
CASE_TIMEOUT = 1500.0
SHAPES = ("right", "longer", "shorter", "one", "none", "column", "row", "rows", "number")


def bend(a, how):
    if how == "right":
        return a
    if how == "longer":
        return np.concatenate([a, a[-1:]])
    return {"shorter": a[:-1], "one": a[:1], "none": a[:0], "column": a[:, None], "row": a[None], "rows": np.stack([a, a]), "number": a.reshape(-1)[0]}[how]


def aligned(v):
    """name -> (function of arrays that must have equal shapes, number of arrays)"""
    M = v.measures
    L = v.lob
    return {
        "quoted spread": (lambda b, a: v.spread.quoted_spread(b, a + 0.1), 2),
        "effective spread": (lambda p, m, w: v.spread.effective_spread(p, m, w), 3),
        "effective spread of signed trades": (lambda p, m, w, d: v.spread.effective_spread(p, m, w, d), 4),
        "realized spread": (lambda p, n, m, w: v.spread.realized_spread(p, n, m, w), 4),
        "realized spread of signed trades": (lambda p, n, m, w, d: v.spread.realized_spread(p, n, m, w, d), 5),
        "price impact": (lambda p, n, m, w: v.price_impact.simple_price_impact(p, n, m, w), 4),
        "price impact of signed trades": (lambda p, n, m, w, d: v.price_impact.simple_price_impact(p, n, m, w, d), 5),
        "mes": (lambda f, m: M.MarginalExpectedShortfall(f, m).estimate(0.9), 2),
        "ses": (lambda a, b, c: M.SystemicExpectedShortfall(a, b, c, 0.1, 2.0).estimate(), 3),
        "pin": (lambda b, s: M.PIN(np.asarray(b), np.asarray(s)).loglikelihood_EHO2010([0.4, 0.5, 3.0, 4.0, 5.0]), 2),
        "lrmes": (lambda f, m: M.LongRunMarginalExpectedShortfall(f / 100, m / 100) and 1, 2),
        "ask slope": (lambda p, m: L.DGGW_ask_slope(np.ones((np.shape(m) or (1,))[:1] + (5,)), p + 9.0, m), 2),
        "bid slope": (lambda p, m: L.DGGW_bid_slope(np.ones((np.shape(m) or (1,))[:1] + (5,)), p - 9.0, m), 2),
        "quotes of ask slope": (lambda s, m: L.DGGW_ask_slope(levels(s), m + 1.0, m), 2),
        "quotes of bid slope": (lambda s, m: L.DGGW_bid_slope(levels(s), m - 1.0, m), 2),
        "bid difference": (lambda s, p: L.DGGW_bid_side_slope_difference(wide(s), wide(p)), 2),
        "ask difference": (lambda s, p: L.DGGW_ask_side_slope_difference(wide(s), wide(p)), 2),
        "depth difference": (lambda a, b: L.DGGW_scaled_depth_difference(wide(a), wide(b)), 2),
    }


def wide(s):
    """A book of five levels with as many quotes as s has."""
    s = np.asarray(s)
    return np.multiply.outer(s, np.arange(1.0, 6.0))


def levels(s):
    if np.ndim(s) != 1:
        raise ValueError("the harness makes books of vectors only")
    return np.outer(s, np.ones(5))


def refused(v):
    """name -> (make an object, bad calls, a good call)"""
    M, A = v.measures, v.alg
    S = c28.series
    r1, r2 = S(40), S(40, 1)
    out = {}
    nat = v is impl.native
    for n, C in (("ccc", A.GARCHModel_CCC), ("dcc", A.GARCHModel_DCC), ("gjr dcc", A.GJRGARCHModel_DCC)):
        for what, x, y in (("shorter", r1, r2[:-1]), ("longer", r1[:-1], r2), ("one", r1, r2[:1]), ("first one", r1[:1], r2), ("none", r1, r2[:0]), ("first none", r1[:0], r2), ("half", r1[::2].copy(), r2)):
            out["%s of series of different lengths, %s" % (n, what)] = (lambda: None, [lambda o, C=C, x=x, y=y: C(x, y).fit()], None)
    if not nat:
        return out
    gg, jj = (lambda: A.GARCHModel(S(40))), (lambda: A.GJRGARCHModel(S(40)))
    for what, x, y in (("first", jj, gg), ("second", gg, jj), ("first of array", jj, lambda: r2), ("second of array", lambda: r1, jj), ("both", jj, jj)):
        out["dcc of gjr margins, %s" % what] = (lambda: None, [lambda o, x=x, y=y: A.GARCHModel_DCC(x(), y()).fit()], None)
    for what, x, y in (("first", gg, jj), ("second", jj, gg), ("first of array", gg, lambda: r2), ("second of array", lambda: r1, gg), ("both", gg, gg), ("list", lambda: list(r1), jj), ("second list", jj, lambda: list(r2)), ("nothing", lambda: None, jj), ("text", jj, lambda: "x")):
        out["gjr dcc of other margins, %s" % what] = (lambda: None, [lambda o, x=x, y=y: A.GJRGARCHModel_DCC(x(), y()).fit()], None)
    for what, x, y in (("list", lambda: list(r1), gg), ("second list", gg, lambda: list(r2)), ("nothing", lambda: None, gg), ("text", gg, lambda: "x")):
        out["dcc of other margins, %s" % what] = (lambda: None, [lambda o, x=x, y=y: A.GARCHModel_DCC(x(), y()).fit()], None)
    out["mes fraction"] = (lambda: M.MarginalExpectedShortfall(r1, r2), [lambda o, q=q: o.estimate(q) for q in (-0.1, -1e-9, 1 + 1e-9, 1.1, 2, 5, 50, 95.0, float("nan"), float("inf"), -1, None, "0.05")], lambda o: o.estimate(0.2))
    out["ses version"] = (lambda: M.SystemicExpectedShortfall(S(8, 1), S(8, 2), S(8, 3) + 3, 0.1, 2.5), [lambda o, q=q: o.estimate(q) for q in ("APPR2017", "bflv2012", "BFLV", "", None, 1, "APPR2010", "BFLV2012 ")], lambda o: o.estimate())
    c1, c2 = np.array([35, 20, 80]), np.array([25, 60, 40])
    out["pin method"] = (lambda: M.PIN(c1, c2), [lambda o, q=q: o.estimate(q) for q in ("EHO", "LK", "eho2010", "lk2011", "", None, 1, "LK2011 ")], lambda o: [o.loglikelihood_LK2011([0.4, 0.5, 20.0, 22.0, 30.0]), o.estimation_success])
    out["pin of lists"] = (lambda: None, [lambda o: M.PIN([1, 2], [3, 4]), lambda o: M.PIN(np.array([1, 2]), [3, 4]), lambda o: M.PIN([1, 2], np.array([3, 4]))], None)
    fr = np.array([r1, r2]).T / 100
    W, D = np.array([1.0, 2.0]), np.array([20.0, 3.0])
    bad = [(fr, r1 / 100, x, y) for x, y in itertools.product((W, W[:1], np.append(W, 1.0), W[None], W[:, None], 1.0, [1.0, 2.0]), repeat=2) if not (x is W and y is W)]
    bad += [(fr, m, W, D) for m in (r1[:-1], np.append(r1, 0.1), r1[:1], r1[:0])] + [(fr[:, :1], r1 / 100, W[:1], D[:1])]
    bad += [(fr[:, 0], m, 1.0, 2.0) for m in (r1[:-1], np.append(r1, 0.1), r1[:1], r1[:, None], r1[None], fr)]
    bad += [(fr[:, 0], r1 / 100, x, y) for x, y in itertools.product((1.0, W, W[:1], [1.0], "1"), repeat=2) if not (isinstance(x, float) and isinstance(y, float))]
    out["srisk"] = (lambda: None, [lambda o, a=a: M.SRISK(*a) for a in bad], None)
    out["lrmes"] = (lambda: M.LongRunMarginalExpectedShortfall(r1 / 100, r2 / 100), [lambda o, a=a: o.estimate(*a) for a in ((-1, 10), (2.5, 10), ("3", 10), (None, 10), (3, 2.5), (3, "10"), (3, None))], lambda o: o.estimate(3, 20, 0.5))
    eye, p = np.eye(3), np.array([0.1, 0.2, 0.5])
    for what, q, c in (("zero", [0.0, 0.2, 0.5], eye), ("one", [0.1, 0.2, 1.0], eye), ("above", [0.1, 1.2, 0.5], eye), ("below", [-0.1, 0.2, 0.5], eye), ("fewer", [0.1, 0.2], eye), ("more", [0.1, 0.2, 0.3, 0.4], eye), ("larger", p, np.eye(4)), ("smaller", p, np.eye(2)),
                       ("wide", p, np.ones((3, 4))), ("flat", p, np.ones(3)), ("not positive definite", p, np.array([[1, 0.9, -0.9], [0.9, 1, 0.9], [-0.9, 0.9, 1.0]])), ("beyond one", p, np.array([[1, 2.0, 0], [2.0, 1, 0], [0, 0, 1]]))):
        out["dip %s" % what] = (lambda q=q, c=c: M.DistressInsurancePremium(np.array(q, dtype=float), c), [lambda o: o.estimate(0.15, 0, 100, 20)], None)
    out["dip counts"] = (lambda: M.DistressInsurancePremium(p, eye), [lambda o, a=a: o.estimate(0.15, 0, *a) for a in ((-1, 20), (100, -1), (2.5, 20), ("100", 20), (None, 20))] + [lambda o: o.estimate(float("nan"), 0, 100, 20), lambda o: o.estimate(0.15, -1, 100, 20)], lambda o: o.estimate(0.15, 0, 100, 20))
    out["smoothing"] = (lambda: None, [lambda o, n=n, w=w: v.fftsmooth.fftsmooth(S(n), w) for n, w in itertools.product(range(1, 12), range(1, 14)) if n % 2 or w % 2], None)
    L = v.lob
    m = np.array([10.0, 10.1])
    out["unimplemented slopes"] = (lambda: None, [lambda o, f=f: getattr(L, f)() for f in ("NS2006_bid_slope", "NS2006_ask_slope", "GN2019_slope", "HS2001_quote_slope", "HS2001_log_quote_slope")], None)
    out["one level"] = (lambda: None, [lambda o, b=b, f=f, s=s: f(b, m + s, m) for b in (np.ones((2, 1)), np.ones(2), np.ones((2, 0))) for f, s in ((L.DGGW_ask_slope, 1), (L.DGGW_bid_slope, -1))]
                        + [lambda o, k=k, f=f: f(np.ones((2, k)), np.ones((2, k))) for k in range(5) for f in (L.DGGW_bid_side_slope_difference, L.DGGW_ask_side_slope_difference)], None)
    out["absorption fraction"] = (lambda: M.AbsorptionRatio(S(40, 3, 4).T.copy()), [lambda o, q=q: o.estimate(q) for q in (float("nan"), float("inf"), None, "0.2")], lambda o: o.estimate(0.5))
    out["garch of nothing"] = (lambda: None, [lambda o, C=C, x=x: C(x).fit() for C in (A.GARCHModel, A.GJRGARCHModel) for x in (r1[:0], r1[:, None], "x", None, 1.0)], None)
    out["kyle"] = (lambda: None, [lambda o, x=x, y=y: M.kyle_lambda(x, y) for x, y in ((r1[:-1], r2), (r1, r2[:-1]), (r1[:1], r2), (r1, r2[:1]), (r1[:0], r2), (r1, 1.0))], None)
    out["forest"] = (lambda: c28.frame(), [lambda o: v.iforest.anomaly_scores(o, exclude_cols=["nothing"]), lambda o: v.iforest.anomaly_scores(o, exclude_cols="nothing"), lambda o: v.iforest.anomaly_scores(o, "x"), lambda o: v.iforest.anomaly_scores(o, 5, None), lambda o: v.iforest.anomaly_scores(None)],
                     lambda o: v.iforest.anomaly_scores(o, 5, 4, ["skip"]))
    return out


def samples(T):
    """Samples nothing can be estimated from."""
    S = c28.series
    for bad in (float("nan"), float("inf"), -float("inf")):
        for i in sorted({0, 1, 2, T // 2, T - 2, T - 1}):
            r = S(T, 3)
            r[i] = bad
            yield ("%s at %d" % (bad, i), r)
    yield ("all missing", np.full(T, float("nan")))
    for c in (0.0, 1.0, -0.5, 100.0):
        yield ("always %s" % c, np.full(T, c))


MISSING = {  # family of calls: positions of the arguments a missing value spoils
    "quoted spread": (0, 1), "effective spread": (0, 1, 2, 3), "realized spread": (0, 1, 2, 3, 4), "price impact": (0, 1, 2, 3, 4), "kyle": (0, 1), "pin likelihood": (0, 1, 2), "pin": (0, 1),
    "loan payoff": (0, 1, 2, 3, 4, 5), "promised yield": (0, 1, 2, 3, 4, 5, 6), "mes": (1,), "ses": (0, 1, 2, 3, 4), "absorption ratio": (0,), "options": (0, 1, 2, 3, 4, 5), "cca": (0, 1, 2, 3, 4), "z-score": (0, 1, 2), "smoothing": (0,),
}


@contextlib.contextmanager
def quiet():
    """Without what LAPACK prints about missing values."""
    sys.stdout.flush()
    keep = [os.dup(1), os.dup(2)]
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1), os.dup2(null, 2)
    try:
        yield
    finally:
        sys.stdout.flush()
        os.dup2(keep[0], 1), os.dup2(keep[1], 2)
        for f in (null, *keep):
            os.close(f)


def places(args, at):
    """Every (argument, element) that is a number."""
    return [(i, j) for i in at for j in range(np.size(args[i]))]


def spoil(args, where):
    out = list(args)
    for i, j in where:
        if np.ndim(out[i]):
            kind = type(out[i])
            a = np.array(out[i], dtype=float)
            a.flat[j] = float("nan")
            out[i] = a if kind is np.ndarray else kind(a.tolist())
        else:
            out[i] = float("nan")
    return out


def numbers(got):
    """The finite numbers in a result."""
    if isinstance(got, (bool, str)) or got is None:
        return []
    if isinstance(got, dict):
        return [x for y in got.values() for x in numbers(y)]
    if isinstance(got, (list, tuple)):
        return [x for y in got for x in numbers(y)]
    if isinstance(got, np.ndarray) and got.ndim:
        return numbers(list(got.ravel()))
    if hasattr(got, "__dict__"):
        return numbers(vars(got))
    return [float(got)] if np.isfinite(got) else []


def answer(f, *args):
    """What a call answers: the finite numbers in it, or that it raised."""
    try:
        with quiet(), np.errstate(all="ignore"), c28.warnings.catch_warnings():
            c28.warnings.simplefilter("ignore")
            return numbers(f(*args))
    except Exception as e:
        return type(e).__name__


def spoiled(T, few):
    """(name, place, return) for the ways a series can go bad, and a series without any return."""
    for what, x in (("missing", float("nan")), ("infinite", float("inf")), ("minus infinity", -float("inf")), ("total loss", -1.0), ("more than all", -1.5)):
        for i in (0, T - 1) if few else sorted({0, 1, T // 2, T - 2, T - 1}):
            yield what, i, x
    yield "always zero", None, 0.0
    yield "all missing", None, float("nan")


def cases(tier):
    for n in MISSING:
        yield {"missing": n}
    for v in ("native", "pure"):
        for T in (10, 40, 150) if tier != "quick" else (10, 40) if v == "native" else (10,):
            for side in ("firm", "market", "both"):
                yield {"long run": side, "v": v, "T": T}
            for i in range(3):
                yield {"shortfall of firm": i, "v": v, "T": T}
            yield {"shortfall of firm": None, "v": v, "T": T}
    for n, (f, k) in aligned(impl.native).items():
        for T in (1, 2, 5) if tier == "quick" else (1, 2, 3, 5, 9):
            for first in SHAPES if k == 5 else (None,):
                yield {"aligned": n, "T": T, "first": first}
    for v in ("native", "pure"):
        for n in refused(impl.variants[v]):
            yield {"refused": n, "v": v}
        for m in ("garch", "gjr", "ccc", "dcc", "gjr dcc"):
            for T in (10, 40) if tier == "quick" else (10, 40, 120):
                for j in (0,) if m in ("garch", "gjr") else (0, 1):
                    yield {"model": m, "v": v, "T": T, "place": j}


def run(case, X):
    if "aligned" in case:
        f, k = aligned(impl.native)[case["aligned"]]
        T = case["T"]
        base = [np.arange(1.0, T + 1) * (i + 2) + i * i for i in range(k)]
        for hows in itertools.product(SHAPES, repeat=k) if case["first"] is None else ((case["first"],) + h for h in itertools.product(SHAPES, repeat=k - 1)):
            args = [bend(a, h) for a, h in zip(base, hows)]
            if len({np.shape(a) for a in args}) == 1:
                if np.shape(args[0]) != (T,):
                    continue
                got = c28.attempt(f, args)
                X.true(got[0] == "value", "a well-formed call raises", function=case["aligned"], got=got, T=T)
                X.outcome(got)
            else:
                got = c28.attempt(f, args)
                X.true(got[0] == "raised", "arguments that do not line up are accepted", function=case["aligned"], shapes=[list(np.shape(a)) for a in args], got=got)
                X.outcome(got[:2])
            X.trace()
            X.edge()
            X.state(case["aligned"], T, hows)
        X.sample({"function": case["aligned"], "arrays": k})
    elif "missing" in case:
        fn, args, _ = c28.families(impl.native)["native " + case["missing"]]
        slots = places(args, MISSING[case["missing"]])
        sets = [(s,) for s in slots]
        if case["missing"] != "pin":
            sets += [w for w in itertools.combinations(slots, 2) if len(slots) < 40 or (w[0][1] + w[1][1]) % 7 == 0 or X.tier != "quick"]
        good = answer(fn, *args)
        X.true(isinstance(good, list) and len(good) > 0, "a complete call gives no number", function=case["missing"], got=good)
        for where in sets:
            got = answer(fn, *spoil(args, where))
            X.true(got == [] or isinstance(got, str), "a missing value gives a number", function=case["missing"], places=where, got=got)
            X.trace()
            X.edge()
            X.state(case["missing"], where)
        X.outcome((case["missing"], len(sets)))
        X.sample({"function": case["missing"], "places": len(slots), "sets": len(sets)})
    elif "long run" in case or "shortfall of firm" in case:
        v, T = impl.variants[case["v"]], case["T"]
        M = v.measures
        for what, i, x in spoiled(T, case["v"] == "pure" or (T > 10 and X.tier == "quick")):
            def bad(r, yes=True):
                r = r / 100
                if yes and i is None:
                    r[:] = x
                elif yes:
                    r[i] = x
                return r
            f, m = c28.series(T, 3), c28.series(T, 4)
            if "long run" in case:
                side = case["long run"]
                o = M.LongRunMarginalExpectedShortfall(bad(f, side != "market"), bad(m, side != "firm"))
                got = [answer(lambda: o.estimate(3, 20, -0.02)), answer(lambda: o.estimate(h=2, S=10, C=0.5))]
            else:
                k = case["shortfall of firm"]
                rs = np.array([bad(c28.series(T, 5 + j), j == k) for j in range(3)]).T
                o = M.SRISK(rs, bad(m, k is None), np.array([1.0, 2.0, 3.0]), np.array([20.0, 3.0, 9.0]))
                got = []
                for agg in (True, False):
                    g = answer(lambda: float(o.estimate(0.08, 3, 20, -0.02, 42, True)) if agg else np.asarray(o.estimate(0.08, 3, 20, -0.02, 42))[slice(None) if k is None else slice(k, k + 1)])
                    got.append(g)
            for g in got:
                X.true(g == [] or isinstance(g, str), "returns nothing can be estimated from give a number", case=case, series=what, at=i, got=got)
                X.trace()
                X.edge()
            X.state(case["v"], case.get("long run"), case.get("shortfall of firm"), T, what, i)
            X.outcome(str(got))
        X.sample(case)
    elif "refused" in case:
        make, bad, good = refused(impl.variants[case["v"]])[case["refused"]]
        want = c28.attempt(lambda: good(make()), ()) if good else None
        for i, b in enumerate(bad):
            o = make()
            got = c28.attempt(lambda: b(o), ())
            X.trace()
            X.edge()
            X.state(case["v"], case["refused"], i)
            X.true(got[0] == "raised", "a malformed call is accepted", call=case["refused"], number=i, got=got)
            X.outcome((case["refused"], i, got[1]))
            if good:
                again = c28.attempt(lambda: good(o), ())
                X.true(again == want or c28.close(again, want), "a refused call changed the object", call=case["refused"], number=i, got=again, fresh=want)
                for j, b2 in enumerate(bad):
                    c28.attempt(lambda: b2(o), ())
                    again = c28.attempt(lambda: good(o), ())
                    X.edge(2)
                    X.state(case["v"], case["refused"], i, j)
                    X.true(again == want or c28.close(again, want), "refused calls changed the object", call=case["refused"], numbers=[i, j], got=again, fresh=want)
                    if j > 2:
                        break
        X.sample({"refused": case["refused"], "calls": len(bad)})
    else:
        v = impl.variants[case["v"]]
        A = v.alg
        T, uni = case["T"], case["model"] in ("garch", "gjr")
        C = {"garch": A.GARCHModel, "gjr": A.GJRGARCHModel, "ccc": A.GARCHModel_CCC, "dcc": A.GARCHModel_DCC, "gjr dcc": A.GJRGARCHModel_DCC}[case["model"]]
        other = c28.series(T, 5)
        for what, r in samples(T):
            if case["v"] == "pure" and "always" not in what and not what.endswith(("at 0", "at %d" % (T // 2), "missing")):
                continue
            if uni:
                makes = [lambda: C(r), lambda: C(r, True)]
            else:
                makes = [lambda: C(*((r, other) if case["place"] == 0 else (other, r)))]
            for i, make in enumerate(makes):
                if i == 1 and "always" in what and what != "always 0.0":
                    continue  # taken as it is, a constant has a second moment
                m = make()
                before = np.array(r)
                p = c28.attempt(m.fit, ())
                X.trace()
                X.edge()
                X.state(case["v"], case["model"], T, case["place"], what, i)
                X.true(not m.estimation_success, "a fit of a sample that determines nothing is reported as a success", model=case["model"], sample=what, zero_mean=bool(i), got=str(p)[:300])
                if p[0] == "value":
                    ll = m.parameters.loglikelihood
                    X.true(not np.isfinite(ll), "a failed fit reports a likelihood", model=case["model"], sample=what, zero_mean=bool(i), got=str(p)[:300])
                X.true(np.array_equal(before, r, equal_nan=True), "the sample was changed", model=case["model"], sample=what)
                # a good sample afterwards
                X.outcome((what, p[0]))
            if uni and what in ("nan at 0", "always 1.0"):
                got, want = c28.attempt(lambda: vars(C(other).fit()), ()), c28.alone(lambda: vars(C(other).fit()), ())
                X.true(got == want or c28.close(got, want), "a failed fit changes later ones", model=case["model"], got=str(got)[:300], fresh=str(want)[:300])
        X.sample({"model": case["model"], "T": T})
