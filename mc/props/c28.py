"""Purity of the public interface: what a call returns depends on its arguments only, and it changes nothing but its result."""
import decimal
import gc
import itertools
import locale
import logging
import os
import pickle
import random
import signal
import sys
import threading
import warnings

import numpy as np
import pandas as pd

from mc import impl

ID = "C28"
BOUNDS = (
    "a catalogue of calls covering every public model, measure and dataset, in both implementations where there are two; every ordered pair (thorough: every ordered triple, PIN estimations only in pairs) of calls in one process, "
    "every ordered pair of calls of one function with 12, 30 and 320 (thorough: also 101 and 1300) observations, rows, firms, draws or names, "
    "each under one of three states of the global generators, numpy error handling and working directory; oracle: the result of the same call alone in a fresh process; arguments, "
    "generators, error handling, warning filters, working directory, environment, threads, print options, pandas options, signal handlers, locale, hooks of the interpreter and garbage collection as before"
)


def series(n, seed=0, k=1):
    """Deterministic returns without any generator."""
    a = np.empty((n, k))
    x = 0.3 + 0.11 * seed
    for i in range(n):
        for j in range(k):
            x = 3.9 * x * (1 - x)
            a[i, j] = (x - 0.5) * (1.5 + (0.8 if (i // 9) % 2 else 0.0)) + (0.4 * a[i, 0] if j else 0)
    return a if k > 1 else a[:, 0].copy()


def frame():
    r = series(12, 1, 2)
    return pd.DataFrame({"a": r[:, 0], "b": r[:, 1].round(2), "s": ["x", "yy", "z"] * 4, "skip": range(12)}, index=[10 * i for i in range(12)])


def obj(*names):
    """The named attributes of an estimate."""
    return lambda o: [getattr(o, n) for n in names]


def calls(v):
    """name -> (arguments, function of the arguments)."""
    A, M = v.alg, v.measures
    nat = v is impl.native
    long, two, three = series(60), series(60, 2, 2), series(60, 3, 3)
    bounds = np.array([[0.01, 50.0]] * 60)
    pg, pj = [0.01, 0.05, 0.1, 0.8], [0.01, 0.05, 0.1, 0.05, 0.8]
    out = {}

    def add(name, fn, *args):
        out["%s %s" % (v, name)] = (args, fn)

    for n, C, p in (("garch", A.GARCHModel, pg), ("gjr", A.GJRGARCHModel, pj)):
        add(n + " variance", lambda p, e, b, C=C: C.compute_variance(p[1:], e, 0.3, b), p, long, bounds)
        add(n + " likelihood", lambda r, p, C=C: likelihood(C, r, p), long, np.array(p))
        add(n + " backcast", lambda e, C=C: [C.backcast(e), C.variance_bounds(e), C.ewma(e, 0.3, 0.9)], long)
        if nat:
            add(n + " fit", lambda r, C=C: vars(C(r).fit()), long)
            add(n + " zero-mean fit", lambda r, C=C: vars(C(r, True).fit()), long)
    for n, C in (("dcc", A.GARCHModel_DCC), ("gjr dcc", A.GJRGARCHModel_DCC)):
        U = A.GARCHModel if n == "dcc" else A.GJRGARCHModel
        add(n + " correlations", lambda a, b, C=C, U=U: correlations(C, U, a, b), two[:, 0].copy(), two[:, 1].copy())
    if nat:
        add("ccc fit", lambda a, b: vars(A.GARCHModel_CCC(a, b).fit()), two[:, 0].copy(), two[:, 1].copy())
        add("gjr dcc fit", lambda a, b: vars(A.GJRGARCHModel_DCC(A.GJRGARCHModel(a), A.GJRGARCHModel(b)).fit()), two[:, 0].copy(), two[:, 1].copy())
        add("lrmes", lambda a, b: M.LongRunMarginalExpectedShortfall(a, b).estimate(h=3, S=40, C=0.5, random_seed=42), two[:, 0] / 100, two[:, 1] / 100)
        add("srisk", lambda r, E, D: srisk(M, r, E, D), three, np.array([1.0, 2.0]), np.array([20.0, 3.0]))
        add("forest", lambda df: v.iforest.anomaly_scores(df, forest_size=7, tree_size=5, exclude_cols=["skip"], random_seed=3), frame())
        add("forest of other seed", lambda df: v.iforest.anomaly_scores(df, forest_size=20, tree_size=6, random_seed=4), frame())
        add("dataset", lambda: v.datasets.StockReturns.stocks_us.iloc[:50])
    else:
        add("simulated path", lambda e: path(v, e), series(6, 4, 2))
        return out
    tr = [np.array(x) for x in ([10.0, 10.2, 10.1, 10.4], [9.9, 10.1, 10.05, 10.3], [10.1, 10.3, 10.2, 10.5], [100.0, 50.0, 10.0, 5.0], [1.0, -1.0, 1.0, -1.0])]
    add("simulated path", lambda e: v.measures_ext.simulation(e, 0.5, 2.0, 1.0, -1.0, 0.5, 0.05, 0.9, 0.4, np.eye(2), 0.05, 0.2, 0.1, 0.1, 0.8, 0.02, 0.1, 0.05, 0.15, 0.85), series(6, 4, 2))
    for pc in (True, False):
        add("quoted spread %s" % pc, lambda b, a, pc=pc: v.spread.quoted_spread(b, a, pct_spread=pc), tr[1], tr[2])
        add("price impact %s" % pc, lambda p, n, m, w, d, pc=pc: v.price_impact.simple_price_impact(p, n, m, w, d, pct_spread=pc), tr[0], tr[2], (tr[1] + tr[2]) / 2, tr[3], tr[4])
        add("effective spread %s" % pc, lambda p, m, w, d, pc=pc: v.spread.effective_spread(p, m, w, d, pct_spread=pc), tr[0], (tr[1] + tr[2]) / 2, tr[3], tr[4])
        add("realized spread %s" % pc, lambda p, m, n, w, d, pc=pc: v.spread.realized_spread(p, m, n, w, d, pct_spread=pc), tr[0], (tr[1] + tr[2]) / 2, tr[2], tr[3], tr[4])
    add("kyle", M.kyle_lambda, series(9), series(9, 5) * 1e5)
    pin = [np.array([20, 35, 18, 60, 22.0]), np.array([25, 21, 55, 20, 24.0])]
    for m in ("EHO2010", "LK2011"):
        add("pin " + m, lambda b, s, m=m: M.PIN(b, s).estimate(m), *pin)
    book = np.abs(series(3, 6, 6)) + 0.1
    add("bid slope", lambda s, p, m: v.lob.DGGW_bid_slope(s, p, m), book, np.array([9.0, 9.5, 9.2]), np.array([10.0, 10.1, 9.9]))
    add("ask slope", lambda s, p, m: v.lob.DGGW_ask_slope(s, p, m), book, np.array([11.0, 11.5, 10.2]), np.array([10.0, 10.1, 9.9]))
    add("depth difference", lambda a, b: v.lob.DGGW_scaled_depth_difference(a, b), book, book[::-1] * 2)
    add("loan payoff", v.loan_payoff.loan_payoff, 0.7, np.array([[0.1, -0.2], [0.0, 0.3]]), 0.1, 0.5, 0.2, 10)
    add("promised yield", v.face.find_face_value_indiv, 0.02, 0.8, 0.0, 0.2, 10.0, 0.01, 0.005)
    add("merton equations", v.merton.merton_solution, np.array([-0.2, 0.3]), 0.01, 0.7, 0.01, 0.002, 5.0, 0.6)
    add("mes", lambda a, b: M.MarginalExpectedShortfall(a, b).estimate(0.1), two[:, 0].copy(), two[:, 1].copy())
    add("ses", lambda *a: M.SystemicExpectedShortfall(*a).estimate(), series(8, 1), series(8, 2), series(8, 3) + 3, 0.1, 2.5)
    add("absorption ratio", lambda r: M.AbsorptionRatio(r).estimate(0.4), three.T.copy())
    add("options", lambda S, s: np.array(M.blsprice(S, 1.0, 0.01, 2.0, s)), np.array([0.8, 1.0, 1.3]), np.array([0.2, 0.3, 0.4]))
    add("cca", lambda: M.ContingentClaimAnalysis().estimate(5, 1.2, 0.01, 10, 1, 1.5))
    add("dip", lambda p, c: M.DistressInsurancePremium(p, c).estimate(0.15, 0, 200, 30), np.array([0.02, 0.1, 0.5]), np.array([[1, 0.3, 0.1], [0.3, 1, 0.2], [0.1, 0.2, 1.0]]))
    add("dip of other seed", lambda p, c: M.DistressInsurancePremium(p, c).estimate(0.15, 9, 200, 30), np.array([0.02, 0.1, 0.5]), np.eye(3))
    add("z-score", lambda h: M.z_score(0.1, 0.02, h), series(8))
    add("smoothing", v.fftsmooth.fftsmooth, series(20), 4)
    for n, f in (("cohorts", lambda fs, p: v.mod_merton.mod_merton_computation(fs, p, 2, 20)), ("single cohort", lambda fs, p: v.single.mod_single_cohort_computation(fs, p, 4, 20, None, 5))):
        add("modified merton " + n, lambda fs, p, f=f: f(fs, p), np.array([[-0.5], [0.4]]), [0.01, 10, 0.66, 5, 0.7, 0.5, 0.66, 0.2, 0.005, 0.002, 0.5])
    return out


def families(v):
    """name -> (function, arguments, {position: other values}): calls of one function that differ in one argument."""
    A, M, nat = v.alg, v.measures, v is impl.native
    T = 40
    r1, r2, r3, r4 = series(T), series(T, 1), series(T, 2) * 0.5, series(T, 3) + 0.2
    b1, b2 = np.array([[0.01, 50.0]] * T), np.array([[0.45, 0.46]] * T)
    out = {}

    def fam(name, fn, args, **other):
        out["%s %s" % (v, name)] = (fn, args, {int(k[1:]): x for k, x in other.items()})

    for n, C, p, q in (("garch", A.GARCHModel, [0.05, 0.1, 0.8], [0.2, 0.3, 0.1]), ("gjr", A.GJRGARCHModel, [0.05, 0.1, 0.05, 0.8], [0.2, 0.1, 0.4, 0.1])):
        fam(n + " variance", C.compute_variance, [p, r1, 0.3, b1], _0=[q, np.array(q)], _1=[r2, r1[:20], r1[::-1].copy()], _2=[0.9], _3=[b2])
        fam(n + " likelihood", lambda r, p, C=C: likelihood(C, r, p), [r1, np.array([0.1] + p)], _0=[r2, r1[:25]], _1=[np.array([0.1] + q), np.array([-0.4] + p)])
        fam(n + " backcast", C.backcast, [r1], _0=[r2, r1[:9]])
        fam(n + " bounds", C.variance_bounds, [r1], _0=[r2, r1[:9]])
        fam(n + " ewma", C.ewma, [r1, 0.3, 0.9], _0=[r2], _1=[0.8], _2=[0.5])
        fam(n + " starting values", lambda r, C=C: C(r).preparation(), [r1], _0=[r2, r1[:25]])
        if nat:
            fam(n + " fit", lambda r, zm, C=C: vars(C(r, zm).fit()), [r1, False], _0=[r2, r3], _1=[True])
    fam("forecast", lambda p, e, s: A.GJRGARCHModel.forecast_variance(A.GJRGARCHModel.Parameters(*p), e, s), [[0.1, 0.05, 0.1, 0.05, 0.8], r1, 0.4],
        _0=[[0.1, 0.2, 0.1, 0.4, 0.1]], _1=[r2, r1[:9]], _2=[1.4])
    for n, C, U in (("dcc", A.GARCHModel_DCC, A.GARCHModel), ("gjr dcc", A.GJRGARCHModel_DCC, A.GJRGARCHModel)):
        fam(n + " correlations", lambda x, y, a, b, C=C, U=U: correlations(C, U, x, y, a, b), [r1, r2, 0.05, 0.9], _0=[r3], _1=[r4, r1], _2=[0.3], _3=[0.5])
        if nat:
            fam(n + " fit", lambda x, y, C=C: vars(C(x, y).fit()), [r1, r2], _0=[r3], _1=[r4])
    if nat:
        fam("ccc fit", lambda x, y: vars(A.GARCHModel_CCC(x, y).fit()), [r1, r2], _0=[r3], _1=[r4])
        fam("lrmes", lambda f, m, h, S, C, s: M.LongRunMarginalExpectedShortfall(f, m).estimate(h, S, C, s), [r1 / 100, r2 / 100, 3, 30, 0.5, 42],
            _0=[r3 / 100], _1=[r4 / 100], _2=[4], _3=[31], _4=[-0.001], _5=[43])
        fam("srisk", lambda f, m, W, D, *a: M.SRISK(np.array([f, m[::-1]]).T, m, W, D).estimate(*a), [r1 / 100, r2 / 100, np.array([1.0, 2.0]), np.array([20.0, 3.0]), 0.08, 3, 20, 0.5, 42, False],
            _0=[r3 / 100], _2=[np.array([5.0, 2.0])], _3=[np.array([30.0, 3.0])], _4=[0.12], _5=[4], _6=[21], _7=[-0.001], _8=[43], _9=[True])
        f1, f2 = frame(), frame()
        f2["a"] = f2["a"][::-1].to_numpy()
        f3 = f1.rename(columns={"a": "z"})
        fam("forest", lambda df, n, t, s, x: v.iforest.anomaly_scores(df, forest_size=n, tree_size=t, random_seed=s, exclude_cols=x), [f1, 7, 5, 3, ["skip"]],
            _0=[f2, f3, f1.iloc[:9], f1.iloc[::-1]], _1=[8], _2=[6], _3=[4], _4=[["skip", "b"]])
    else:
        fam("simulated path", lambda e: path(v, e), [series(6, 4, 2)], _0=[series(6, 5, 2), series(4, 4, 2)])
        return out
    sim = [series(6, 4, 2), 0.5, 2.0, 1.0, -1.0, 0.5, 0.05, 0.9, 0.4, np.eye(2), 0.05, 0.2, 0.1, 0.1, 0.8, 0.02, 0.1, 0.05, 0.15, 0.85]
    fam("simulated path", v.measures_ext.simulation, sim, _0=[series(6, 5, 2), series(4, 4, 2)], _9=[np.array([[1.0, 0.5], [0.5, 1.0]])],
        **{"_%d" % i: [sim[i] * 0.7] for i in range(20) if i not in (0, 9)})
    tr = [np.array(x) for x in ([10.0, 10.2, 10.1, 10.4], [10.1, 10.3, 10.2, 10.5], [10.0, 10.2, 10.125, 10.4], [100.0, 50.0, 10.0, 5.0], [1.0, -1.0, 1.0, -1.0])]
    alt = [tr[0] * 1.01, tr[1] * 1.02, tr[2] * 0.99, tr[3][::-1].copy(), tr[4][::-1].copy()]
    fam("quoted spread", v.spread.quoted_spread, [tr[0], tr[1], True], _0=[alt[0]], _1=[alt[1]], _2=[False])
    fam("price impact", v.price_impact.simple_price_impact, tr + [True], _0=[alt[0] * [1, 2, 1, 1]], _1=[alt[1]], _2=[alt[2]], _3=[alt[3]], _4=[alt[4], None], _5=[False])
    fam("realized spread", v.spread.realized_spread, tr + [True], _0=[alt[0]], _1=[alt[1]], _2=[alt[2]], _3=[alt[3]], _4=[alt[4], None], _5=[False])
    fam("effective spread", v.spread.effective_spread, [tr[0]] + tr[2:] + [True], _0=[alt[0]], _1=[alt[2]], _2=[alt[3]], _3=[alt[4], None], _4=[False])
    fam("kyle", M.kyle_lambda, [series(9), series(9, 5) * 1e5], _0=[series(9, 1)], _1=[series(9, 4) * 1e5])
    c1, c2 = np.array([20, 35, 18, 60, 22]), np.array([25, 21, 55, 20, 24])
    fam("pin of other days", lambda bs, p, m: getattr(M.PIN(*bs), "loglikelihood_" + m)(p), [(c1, c2), [0.4, 0.5, 20.0, 22.0, 30.0], "LK2011"], _0=[(c1[:3], c2[:3]), (np.tile(c1, 3), np.tile(c2, 3))], _2=["EHO2010"])
    fam("pin likelihood", lambda b, s, p, m: getattr(M.PIN(b, s), "loglikelihood_" + m)(p), [c1, c2, [0.4, 0.5, 20.0, 22.0, 30.0], "LK2011"], _0=[c1 + 3], _1=[c2 + 3],
        _2=[[0.3, 0.5, 20.0, 22.0, 30.0], [0.4, 0.5, 20.0, 22.0, 31.0]], _3=["EHO2010"])
    fam("pin", lambda b, s, m: M.PIN(b, s).estimate(m), [c1[:3], c2[:3], "LK2011"], _0=[c1[:3] + 3], _1=[c2[:3] + 3], _2=["EHO2010"])
    book, mid = np.abs(series(3, 6, 6)) + 0.1, np.array([10.0, 10.1, 9.9])
    fam("bid slope", v.lob.DGGW_bid_slope, [book, mid - 1, mid], _0=[book * [1, 2, 1, 3, 1, 1]], _1=[mid - 2], _2=[mid + 0.1])
    fam("ask slope", v.lob.DGGW_ask_slope, [book, mid + 1, mid], _0=[book * [1, 2, 1, 3, 1, 1]], _1=[mid + 2], _2=[mid - 0.1])
    prices = np.outer(np.ones(3), np.arange(1.0, 7.0))
    fam("bid difference", v.lob.DGGW_bid_side_slope_difference, [book, 10 - prices], _0=[book * np.array([[1], [2], [3]]) * [1, 2, 1, 3, 1, 1]], _1=[10 - prices * 2])
    fam("ask difference", v.lob.DGGW_ask_side_slope_difference, [book, 10 + prices], _0=[book * np.array([[1], [2], [3]]) * [1, 2, 1, 3, 1, 1]], _1=[10 + prices * 2])
    fam("depth difference", v.lob.DGGW_scaled_depth_difference, [book, book[::-1] * 2], _0=[book * 3], _1=[book * 3])
    fam("loan payoff", v.loan_payoff.loan_payoff, [0.7, 0.1, 0.1, 0.5, 0.2, 10], _0=[0.8], _1=[0.2, np.array([0.1, 0.2])], _2=[0.2], _3=[0.6], _4=[0.3], _5=[9])
    fam("promised yield", v.face.find_face_value_indiv, [0.02, 0.8, 0.0, 0.2, 10.0, 0.01, 0.005], _0=[0.03], _1=[0.9], _2=[0.1], _3=[0.3], _4=[9.0], _5=[0.02], _6=[0.0])
    fam("merton equations", v.merton.merton_solution, [np.array([0.9, 0.3]), 0.2, 0.7, 0.01, 0.002, 5.0, 0.6], _0=[np.array([1.1, 0.3]), np.array([0.9, 0.2]), np.array([-0.9, 0.2])],
        _1=[0.3], _2=[0.8], _3=[0.02], _4=[0.0], _5=[4.0], _6=[0.5])
    fam("mes", lambda f, m, q: M.MarginalExpectedShortfall(f, m).estimate(q), [r1, r2, 0.1], _0=[r3], _1=[r4], _2=[0.3])
    fam("ses", lambda *a: M.SystemicExpectedShortfall(*a).estimate(), [series(8, 1), series(8, 2), series(8, 3) + 3, 0.1, 2.5], _0=[series(8, 5)], _1=[series(8, 6)], _2=[series(8, 7)], _3=[0.2], _4=[2.0])
    fam("absorption ratio", lambda r, q: M.AbsorptionRatio(r).estimate(q), [series(T, 3, 4).T.copy(), 0.25], _0=[series(T, 4, 4).T.copy(), series(T, 3, 3).T.copy()], _1=[0.5])
    fam("options", v.measures.blsprice, [0.8, 1.0, 0.01, 2.0, 0.2, 0.0], _0=[0.9, np.array([0.8, 1.1])], _1=[1.1], _2=[0.02], _3=[3.0], _4=[0.3], _5=[0.01])
    fam("cca", lambda *a: M.ContingentClaimAnalysis().estimate(*a), [5, 1.2, 0.01, 10, 1, 1.5], _0=[6], _1=[1.1], _2=[0.02], _3=[11], _4=[2], _5=[1.6, 200])
    fam("dip", lambda p, c, *a: M.DistressInsurancePremium(p, c).estimate(*a), [np.array([0.02, 0.1, 0.5]), np.eye(3), 0.15, 0, 100, 20], _0=[np.array([0.3, 0.1, 0.5])],
        _1=[np.array([[1, 0.3, 0.1], [0.3, 1, 0.2], [0.1, 0.2, 1.0]])], _2=[0.4], _3=[1], _4=[101], _5=[21])
    fam("z-score", M.z_score, [0.1, 0.02, series(8)], _0=[0.2], _1=[0.03], _2=[series(8, 1), series(8)[::-1] * 2])
    fam("smoothing", v.fftsmooth.fftsmooth, [series(20), 4], _0=[series(20, 1), series(24)], _1=[6, 8, 10])
    p = [0.01, 10, 0.66, 5, 0.7, 0.5, 0.66, 0.2, 0.005, 0.002, 0.5]
    fs = np.array([[-0.5], [0.4]])
    w4, w2 = series(20, 1, 6), series(20, 2, 6)
    for n, f, N, w in (("cohorts", v.mod_merton.mod_merton_computation, 2, (series(20, 1, 6), series(20, 2, 6))), ("single cohort", v.single.mod_single_cohort_computation, 4, (series(20, 1, 3), series(20, 2, 3)))):
        ps = [p[:i] + [p[i] * 1.1] + p[i + 1:] for i in range(len(p)) if i not in (1, 3)]
        fam("modified merton " + n, f, [fs, p, N, 20, None, 5], _0=[fs + 0.1], _1=ps, _3=[40], _5=[6, 7])
    return out


def family(v, name):
    """The calls of a family: the first differs from each other one in one argument."""
    fn, args, other = families(v)[name]
    out = [args]
    for i, vals in sorted(other.items()):
        out += [args[:i] + [x] + args[i + 1:] for x in vals]
    return fn, out


SIZES = {"quick": (12, 30, 320), "thorough": (12, 30, 101, 320, 1300)}


def sized(v, N):
    """name -> (function, arguments of N observations, rows, draws or names): calls of the sizes of real use."""
    A, M, nat = v.alg, v.measures, v is impl.native
    out = {}

    def add(name, fn, *args):
        out[name] = (fn, args)

    r1, r2, r3 = series(N), series(N, 1), series(N, 2)
    b = np.array([[0.01, 50.0]] * N)
    for n, C, p in (("garch", A.GARCHModel, [0.05, 0.1, 0.8]), ("gjr", A.GJRGARCHModel, [0.05, 0.1, 0.05, 0.8])):
        add(n + " variance", lambda e, b, C=C, p=p: C.compute_variance(p, e, 0.3, b), r1, b)
        add(n + " likelihood", lambda r, C=C, p=p: likelihood(C, r, np.array([0.1] + p)), r1)
        add(n + " starting values", lambda r, C=C: C(r).preparation(), r1)
        if nat and N >= 30:
            add(n + " fit", lambda r, C=C: vars(C(r).fit()), r1)
    add("forecast", lambda e: A.GJRGARCHModel.forecast_variance(A.GJRGARCHModel.Parameters(0.1, 0.05, 0.1, 0.05, 0.8), e, 0.4), r1)
    for n, C, U in (("dcc", A.GARCHModel_DCC, A.GARCHModel), ("gjr dcc", A.GJRGARCHModel_DCC, A.GJRGARCHModel)):
        add(n + " correlations", lambda x, y, C=C, U=U: correlations(C, U, x, y), r1, r2)
        if nat and N >= 30:
            add(n + " fit", lambda x, y, C=C: vars(C(x, y).fit()), r1, r2)
    if not nat:
        if N < 400:
            add("simulated path", lambda e: path(v, e), series(N, 4, 2))
        return out
    if N >= 30:
        add("ccc fit", lambda x, y: vars(A.GARCHModel_CCC(x, y).fit()), r1, r2)
        add("lrmes", lambda f, m: M.LongRunMarginalExpectedShortfall(f, m).estimate(22, 4 * N, 0.5, 42), r1 / 100, r2 / 100)
        if N <= 320:
            add("srisk", lambda f, m, W, D: M.SRISK(np.array([f, m[::-1]]).T, m, W, D).estimate(0.08, 22, N, 0.5, 42, False), r1 / 100, r2 / 100, np.array([1.0, 2.0]), np.array([20.0, 3.0]))
    add("simulated path", lambda e: v.measures_ext.simulation(e, 0.5, 2.0, 1.0, -1.0, 0.5, 0.05, 0.9, 0.4, np.eye(2), 0.05, 0.2, 0.1, 0.1, 0.8, 0.02, 0.1, 0.05, 0.15, 0.85), series(N, 4, 2))
    f = pd.DataFrame({"a": r1, "b": r2.round(2), "s": (["x", "yy", "z", "w"] * N)[:N], "skip": range(N)}, index=[10 * i for i in range(N)])
    add("forest", lambda df: v.iforest.anomaly_scores(df, forest_size=30, tree_size=min(N, 64), random_seed=3, exclude_cols=["skip"]), f)
    w = pd.DataFrame(series(12, 5, min(N, 320)), columns=["c%d" % i for i in range(min(N, 320))])
    add("forest of many columns", lambda df: v.iforest.anomaly_scores(df, forest_size=10, tree_size=8, random_seed=3), w)
    P = 10 + r1 / 50
    Pm, Pa, Pb, vol, sgn = P + 0.01, P + 0.05, P - 0.05, 100 * np.abs(r2) + 1, np.where(r3 > 0, 1.0, -1.0)
    for pc in (True, False):
        add("quoted spread %s" % pc, lambda b, a, pc=pc: v.spread.quoted_spread(b, a, pct_spread=pc), Pb, Pa)
        add("price impact %s" % pc, lambda p, n, m, w, d, pc=pc: v.price_impact.simple_price_impact(p, n, m, w, d, pct_spread=pc), P, Pm + r3 / 50, Pm, vol, sgn)
        add("effective spread %s" % pc, lambda p, m, w, d, pc=pc: v.spread.effective_spread(p, m, w, d, pct_spread=pc), P, Pm, vol, sgn)
        add("realized spread %s" % pc, lambda p, m, n, w, d, pc=pc: v.spread.realized_spread(p, m, n, w, d, pct_spread=pc), P, Pm, Pm + r3 / 50, vol, sgn)
    add("kyle", M.kyle_lambda, r1, r2 * 1e5)
    buys, sells = np.round(20 + 9 * r1), np.round(24 + 9 * r2)
    for m in ("EHO2010", "LK2011"):
        add("pin likelihood " + m, lambda b, s, m=m: getattr(M.PIN(b, s), "loglikelihood_" + m)([0.4, 0.5, 20.0, 22.0, 30.0]), buys, sells)
    book = np.abs(series(N, 6, 6)) + 0.1
    prices = np.outer(np.ones(N), np.arange(1.0, 7.0))
    add("bid slope", v.lob.DGGW_bid_slope, book, P - 1, P)
    add("ask slope", v.lob.DGGW_ask_slope, book, P + 1, P)
    add("bid difference", v.lob.DGGW_bid_side_slope_difference, book, 20 - prices)
    add("ask difference", v.lob.DGGW_ask_side_slope_difference, book, 20 + prices)
    add("depth difference", v.lob.DGGW_scaled_depth_difference, book, book[::-1] * 2)
    add("loan payoff", v.loan_payoff.loan_payoff, 0.7, r1 / 5, 0.1, 0.5, 0.2, 10)
    add("promised yield", lambda f: [v.face.find_face_value_indiv(0.02, 0.8, x, 0.2, 10.0, 0.01, 0.005) for x in f[:40]], r1 / 5)
    add("mes", lambda f, m: M.MarginalExpectedShortfall(f, m).estimate(0.1), r1, r2)
    add("ses", lambda *a: M.SystemicExpectedShortfall(*a).estimate(), r1, r2, r3 + 3, 0.1, 2.5)
    k = min(N, 60)
    add("absorption ratio", lambda r: M.AbsorptionRatio(r).estimate(0.2), series(N + 70, 3, k).T.copy())
    add("dip", lambda p, c: M.DistressInsurancePremium(p, c).estimate(0.15, 0, 5 * N, 3), 0.02 + 0.01 * np.abs(series(min(N, 30))), 0.7 * np.eye(min(N, 30)) + 0.3)
    add("dip of many draws", lambda p, c: M.DistressInsurancePremium(p, c).estimate(0.15, 0, 50, 10 * N), np.array([0.02, 0.1, 0.5]), np.eye(3))
    add("options", lambda S, s: np.array(v.measures.blsprice(S, 10.0, 0.01, 2.0, s)), P, 0.1 + np.abs(r2) / 10)
    add("z-score", M.z_score, 0.1, 0.02, r1)
    add("smoothing", v.fftsmooth.fftsmooth, series(2 * N), N // 2 * 2)
    fs = (np.arange(k // 3)[:, None] / 10 - 0.6)
    p = [0.01, 10, 0.66, 5, 0.7, 0.5, 0.66, 0.2, 0.005, 0.002, 0.5]
    S2 = 20 * max(1, N // 100)
    add("modified merton cohorts", lambda fs: v.mod_merton.mod_merton_computation(fs, p, 2, S2, None, 5), fs)
    add("modified merton single cohort", lambda fs: v.single.mod_single_cohort_computation(fs, p, 4, S2, None, 5), fs)
    return out


def sizes(case, X):
    """Every ordered pair of calls of one function with few, some and many observations."""
    v = impl.variants[case["v"]]
    at = {N: sized(v, N).get(case["sized"]) for N in SIZES[case["tier"]]}
    at = {N: c for N, c in at.items() if c}
    base = {N: alone(*c) for N, c in at.items()}
    cwd = os.getcwd()
    try:
        for k, hist in enumerate(itertools.product(at, repeat=2)):
            world(WORLDS[k % 3])
            for N in hist:
                fn, args = at[N]
                before, around = plain(list(args)), surroundings()
                got = attempt(fn, args)
                X.edge()
                X.true(got[0] != "raised", "a well-formed call failed", call=case["sized"], size=N, got=str(got)[:300])
                X.true(got == base[N] or close(got, base[N]), "the result of a call differs from the same call alone", call=case["sized"], history=hist, got=str(got)[:300], alone=str(base[N])[:300])
                X.true(plain(list(args)) == before, "a call modified its arguments", call=case["sized"], size=N)
                for what, val in surroundings().items():
                    X.true(val == around[what], "a call changed " + what, call=case["sized"], size=N, history=hist)
            X.trace()
            X.state(case["v"], case["sized"], hist)
        X.outcome(list(base.values()))
    finally:
        os.chdir(cwd)
        np.seterr(divide="ignore", over="ignore", under="ignore", invalid="ignore")


def likelihood(C, r, p):
    m = C(r)
    m.resids = r
    m.preparation() if hasattr(m, "preparation") else None
    m.backcast_value, m.var_bounds = C.backcast(r), C.variance_bounds(r)
    return m.loglikelihood_model(p, C.backcast(r), C.variance_bounds(r))


def correlations(C, U, a, b, p=0.05, q=0.9):
    ms = []
    for x in (a, b):
        m = U(x)
        m.resids, m.sigma2, m.estimation_success = x, np.abs(x) + 0.5, True
        ms.append(m)
    return C(*ms).conditional_correlations(p, q)


def path(v, e):
    L = v.measures.LRMES(series(6) / 100, series(6, 1) / 100)
    for m, p in ((L.firm_model, (0.05, 0.2, 0.1, 0.1, 0.8)), (L.market_model, (0.02, 0.1, 0.05, 0.15, 0.85))):
        m.parameters = type(m.parameters)(*p)
    return L.simulation(innovation=e, C=0.5, firm_var=2.0, mkt_var=1.0, firm_resid=-1.0, mkt_resid=0.5, a=0.05, b=0.9, rho=0.4, Q_bar=np.eye(2))


def srisk(M, r, E, D):
    return M.SRISK(r[:, :2] / 100, r[:, 2] / 100, E, D).estimate(lrmes_h=3, lrmes_S=30, lrmes_C=0.5)


CAT, BASE = None, {}


def plain(o, depth=0):
    """Something that compares bit for bit."""
    if isinstance(o, np.ndarray):
        return ("a", o.shape, str(o.dtype), o.tobytes() if o.dtype != object else repr(o.tolist()))
    if isinstance(o, (pd.DataFrame, pd.Series)):
        return ("df", list(map(repr, o.index)), list(map(repr, getattr(o, "columns", []))), [plain(np.asarray(o[c])) for c in o.columns] if isinstance(o, pd.DataFrame) else plain(o.values))
    if isinstance(o, dict):
        return tuple((str(k), plain(x, depth + 1)) for k, x in sorted(o.items(), key=lambda t: str(t[0])))
    if isinstance(o, (list, tuple)):
        return tuple(plain(x, depth + 1) for x in o)
    if isinstance(o, (float, np.floating)):
        return float(o).hex()
    if isinstance(o, (int, np.integer, bool, np.bool_, str, type(None))):
        return repr(o)
    if hasattr(o, "__dataclass_fields__") or hasattr(o, "__dict__"):
        return (type(o).__name__, plain(dict(vars(o)), depth + 1)) if depth < 4 else type(o).__name__
    return repr(type(o))


def close(a, b, rtol=1e-6, atol=1e-9):
    """Equal but for the last digits, which may depend on where arrays lie in memory."""
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        if len(a) == 4 and a[0] == "a" and b[0] == "a" and a[1:3] == b[1:3] and a[2] == "float64":
            return np.allclose(np.frombuffer(a[3]), np.frombuffer(b[3]), rtol=rtol, atol=atol, equal_nan=True)
        return all(close(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list):
        return close(tuple(a), tuple(b), rtol, atol)
    if isinstance(a, str) and isinstance(b, str) and "0x" in a and "0x" in b:
        try:
            x, y = float.fromhex(a), float.fromhex(b)
        except ValueError:
            return False
        return abs(x - y) <= atol + rtol * abs(y)
    return False


def attempt(fn, args):
    try:
        return ("value", plain(fn(*args)))
    except Exception as e:
        return ("raised", type(e).__name__, str(e)[:200])


def alone(fn, args):
    """The result of one call in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            with os.fdopen(w, "wb") as f, np.errstate(all="ignore"):
                pickle.dump(attempt(fn, args), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("died",)


def prepare(tier):
    """The result of each call alone, in a process of its own."""
    global CAT
    warnings.simplefilter("ignore")
    CAT = {}
    for v in (impl.native, impl.pure):
        CAT.update(calls(v))
    for name, (args, fn) in CAT.items():
        BASE[name] = alone(fn, args)


def cases(tier):
    names = sorted(set(calls(impl.native)) | set(calls(impl.pure)))
    for n in names:
        yield {"first": n, "depth": 2 if tier == "quick" else 3}
    for v in ("native", "pure"):
        for n in families(impl.variants[v]):
            yield {"family": n, "v": v, "depth": 2 if tier == "quick" else 3}
        for n in sized(impl.variants[v], 30):
            yield {"sized": n, "v": v, "tier": tier}


CASE_TIMEOUT = 3000.0


def LONG(name):
    """Calls that take a second: only in histories of two calls."""
    return " pin " in name and "likelihood" not in name


WORLDS = ("plain", "seeded", "raising")


def world(k):
    if k == "plain":
        np.random.seed(1)
        random.seed(1)
        np.seterr(divide="ignore", over="ignore", under="ignore", invalid="ignore")
        os.chdir(os.path.dirname(os.path.abspath(__file__)))
    elif k == "seeded":
        np.random.seed(987654)
        np.random.normal(size=7)
        random.seed("x")
        np.seterr(divide="warn", over="warn", under="ignore", invalid="warn")
        os.chdir("/")
    else:
        np.random.seed(5)
        np.random.normal()  # leaves half a pair in the generator
        np.seterr(divide="ignore", over="warn", under="ignore", invalid="ignore")


def surroundings():
    g = np.random.get_state()
    return {
        "numpy's global generator": (g[0], g[1].tobytes(), g[2:]), "the global generator": random.getstate(), "numpy error handling": np.geterr(), "warning filters": list(warnings.filters),
        "the working directory": os.getcwd(), "the environment": dict(os.environ), "numpy print options": np.get_printoptions(), "the number of threads": threading.active_count(),
        "the module search path": list(sys.path), "the recursion limit": sys.getrecursionlimit(), "the options of pandas": repr(pd.options.d), "numpy's error callback": np.geterrcall(),
        "garbage collection": (gc.isenabled(), gc.get_threshold()), "the handlers of signals": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
        "the output streams": (sys.stdout, sys.stderr, sys.stdin), "the logging level": (logging.getLogger().level, logging.root.manager.disable), "the decimal context": (decimal.getcontext().prec, decimal.getcontext().rounding),
        "the locale": locale.setlocale(locale.LC_ALL), "the hooks of the interpreter": (sys.excepthook, sys.displayhook, sys.gettrace(), sys.getprofile(), warnings.showwarning),
        "the switch interval": sys.getswitchinterval(),
    }


def relatives(case, X):
    """Histories of calls of one function, whose arguments differ in one place; also in the very same arrays."""
    fn, sets = family(impl.variants[case["v"]], case["family"])
    base = [alone(fn, a) for a in sets]
    X.true(("died",) not in base, "a call ends the process")

    def check(got, i, hist, what):
        X.edge()
        X.true(got == base[i] or close(got, base[i]), what, function=case["family"], history=hist, got=str(got)[:400], alone=str(base[i])[:400])

    # every cyclic order first, so that each call meets each other one
    for d in range(2, case["depth"] + 1):
        for hist in itertools.product(range(len(sets)), repeat=d):
            if d > 2 and len(sets) > 9 and 0 not in hist:
                continue
            for k, i in enumerate(hist):
                check(attempt(fn, sets[i]), i, hist[: k + 1], "the result of a call depends on an earlier one that differs in an argument")
            X.trace()
            X.state(case["family"], hist)
    # the same objects, filled with other numbers
    for i in range(1, len(sets)):
        pos = [k for k in range(len(sets[0])) if sets[i][k] is not sets[0][k]]
        x, y = sets[0][pos[0]], sets[i][pos[0]]
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.shape == y.shape and x.dtype == y.dtype:
            buf = x.copy()
            args = list(sets[0])
            args[pos[0]] = buf
            for src, want in ((x, 0), (y, i), (x, 0)):
                buf[...] = src
                check(attempt(fn, args), want, [pos[0], i], "the result does not follow the contents of an array")
            X.trace()
            X.state(case["family"], "refilled", i)
        elif isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
            buf = list(x)
            args = list(sets[0])
            args[pos[0]] = buf
            for src, want in ((x, 0), (y, i), (x, 0)):
                buf[:] = src
                check(attempt(fn, args), want, [pos[0], i], "the result does not follow the contents of a list")
            X.trace()
    X.outcome(base)


def run(case, X):
    if "family" in case:
        return relatives(case, X)
    if "sized" in case:
        return sizes(case, X)
    names = sorted(CAT)
    cwd = os.getcwd()
    try:
        long = [n for n in names if not LONG(n)]
        pairs = [(n,) for n in names if LONG(n) or LONG(case["first"]) or case["depth"] == 2]
        for rest in pairs + ([] if LONG(case["first"]) or case["depth"] == 2 else list(itertools.product(long, repeat=case["depth"] - 1))):
            hist = (case["first"],) + rest
            world(WORLDS[sum(map(len, hist)) % 3])
            for k, name in enumerate(hist):
                args, fn = CAT[name]
                before, around = plain(list(args)), surroundings()
                got = attempt(fn, args)
                X.edge()
                X.true(got == BASE[name] or close(got, BASE[name]), "the result of a call differs from the same call alone", call=name, history=hist[:k + 1], got=str(got)[:400], alone=str(BASE[name])[:400])
                X.true(plain(list(args)) == before, "a call modified its arguments", call=name)
                for what, val in surroundings().items():
                    X.true(val == around[what], "a call changed " + what, call=name, history=hist[:k + 1])
            X.trace()
            X.state(hist)
        X.outcome(BASE[case["first"]])
    finally:
        os.chdir(cwd)
    X.sample({"first": case["first"], "result": str(BASE[case["first"]])[:120]})
