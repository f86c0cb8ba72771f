"""Calling conventions: positional, keyword and omitted arguments mean the same."""
import itertools

import numpy as np

from mc import impl
from mc.props import c28

ID = "C37"
BOUNDS = (
    "every public function, constructor and method, in both implementations: every set of optional arguments left at its documented default, every split into positional and keyword arguments, both orders of the keywords, "
    "and every scalar argument given as every kind of Python and numpy number that holds the value; oracle: the same call with every argument named and given explicitly; and every documented name importable from its documented place"
)
CASE_TIMEOUT = 3000.0
REQ = object()
SLOW = ("srisk estimate", "lrmes estimate", "pin estimate")  # all positional or all named
OTHER_NAMES = {
    "frds.algorithms": ["GARCHModel", "GJRGARCHModel", "GARCHModel_CCC", "GARCHModel_DCC", "GJRGARCHModel_DCC"],
    "frds.measures": ["AbsorptionRatio", "ContingentClaimAnalysis", "DistressInsurancePremium", "LernerIndex", "LongRunMarginalExpectedShortfall", "LRMES", "MarginalExpectedShortfall", "PIN", "SRISK", "SystemicExpectedShortfall", "blsprice", "kyle_lambda", "z_score"],
    "frds.measures.spread": ["quoted_spread", "effective_spread", "realized_spread"],
    "frds.measures.price_impact": ["simple_price_impact"],
    "frds.measures.lob_slope": ["DGGW_ask_slope", "DGGW_bid_slope", "DGGW_bid_side_slope_difference", "DGGW_ask_side_slope_difference", "DGGW_scaled_depth_difference"],
    "frds.algorithms.isolation_forest": ["anomaly_scores"],
    "frds.datasets": ["StockReturns"],
}


def table(v):
    """name -> (function of args and kwargs, [(argument, value, documented default)]), the value being another than the default."""
    A, M, nat = v.alg, v.measures, v is impl.native
    S = c28.series
    out = {}

    def add(name, fn, *args):
        out[name] = (fn, [(a + (REQ,))[:3] for a in args])

    r1, r2 = S(40), S(40, 1)
    b = np.array([[0.01, 50.0]] * 40)
    for n, C, p in (("garch", A.GARCHModel, [0.05, 0.1, 0.8]), ("gjr", A.GJRGARCHModel, [0.05, 0.1, 0.05, 0.8])):
        add(n, lambda *a, C=C, **k: vars(C(*a, **k).fit()) if nat else C(*a, **k).preparation(), ("returns", r1), ("zero_mean", True, False))
        add(n + " variance", C.compute_variance, ("params", p), ("resids", r1), ("backcast", 0.3), ("var_bounds", b))
        add(n + " ewma", C.ewma, ("resids", r1), ("initial_value", 0.3), ("lam", 0.5, 0.94))
        add(n + " clamp", C.bounds_check, ("sigma2", 70.0), ("var_bounds", np.array([0.1, 5.0])))
        add(n + " likelihood", C.loglikelihood, ("resids", r1), ("sigma2", np.abs(r2) + 0.1))

        def model(*a, C=C, p=p, **k):
            m = C(r1)
            m.preparation()
            return m.loglikelihood_model(*a, **k)

        def of_residuals(*a, C=C, p=p, **k):
            m = C(r1, True)
            m.preparation()
            return m.loglikelihood_model(*a, **k)

        add(n + " model likelihood", model, ("params", np.array([0.1] + p)), ("backcast", 0.3), ("var_bounds", b))
        add(n + " model likelihood of residuals", of_residuals, ("params", np.array(p)), ("backcast", 0.3), ("var_bounds", b), ("zero_mean", True))
    add("forecast", A.GJRGARCHModel.forecast_variance, ("params", A.GJRGARCHModel.Parameters(0.1, 0.05, 0.1, 0.05, 0.8)), ("resids", r1), ("initial_variance", 0.4))
    add("ccc likelihood", lambda *a, **k: A.GARCHModel_CCC(r1, r2).loglikelihood(*a, **k), ("resids1", r1), ("sigma2_1", np.abs(r2) + 0.1), ("resids2", r2), ("sigma2_2", np.abs(r1) + 0.2), ("rho", 0.3))
    for n, C, U in (("dcc", A.GARCHModel_DCC, A.GARCHModel), ("gjr dcc", A.GJRGARCHModel_DCC, A.GJRGARCHModel)):
        def corr(*a, C=C, U=U, **k):
            ms = []
            for x in (r1, r2):
                m = U(x)
                m.resids, m.sigma2, m.estimation_success = x, np.abs(x) + 0.5, True
                ms.append(m)
            return C(*ms).conditional_correlations(*a, **k)
        add(n + " correlations", corr, ("a", 0.05), ("b", 0.9))
    L = lambda: M.LongRunMarginalExpectedShortfall(r1 / 100, r2 / 100)

    def path(*a, **k):
        m = L()
        for u, p in ((m.firm_model, (0.05, 0.2, 0.1, 0.1, 0.8)), (m.market_model, (0.02, 0.1, 0.05, 0.15, 0.85))):
            u.parameters = type(u.parameters)(*p)
        return m.simulation(*a, **k)

    add("simulated path", path, ("innovation", S(6, 4, 2)), ("C", 0.5), ("firm_var", 2.0), ("mkt_var", 1.0), ("firm_resid", -1.0), ("mkt_resid", 0.5), ("a", 0.05), ("b", 0.9), ("rho", 0.4), ("Q_bar", np.array([[1.0, 0.2], [0.2, 2.0]])))
    if not nat:
        return out
    for n, C in (("ccc", A.GARCHModel_CCC), ("dcc", A.GARCHModel_DCC), ("gjr dcc", A.GJRGARCHModel_DCC)):
        add(n, lambda *a, C=C, **k: vars(C(*a, **k).fit()), ("returns1", r1), ("returns2", r2))
    add("lrmes", lambda *a, **k: M.LongRunMarginalExpectedShortfall(*a, **k).estimate(3, 30, 0.5), ("firm_returns", r1 / 100), ("market_returns", r2 / 100))
    add("lrmes estimate", lambda *a, **k: L().estimate(*a, **k), ("h", 3, 22), ("S", 40, 10000), ("C", -0.001, -0.1), ("random_seed", 5, 42))
    two = np.array([r1, r2]).T / 100
    add("srisk", lambda *a, **k: M.SRISK(*a, **k).estimate(0.1, 3, 30, 0.5), ("firm_returns", two), ("market_returns", (r1 + r2) / 200), ("W", np.array([1.0, 2.0])), ("D", np.array([20.0, 3.0])))
    add("srisk of one firm", lambda *a, **k: M.SRISK(*a, **k).estimate(0.1, 3, 30, 0.5), ("firm_returns", two[:, 0]), ("market_returns", two[:, 1]), ("W", 1.5), ("D", 20.5))
    add("srisk estimate", lambda *a, **k: M.SRISK(two, (r1 + r2) / 200, np.array([1.0, 2.0]), np.array([20.0, 3.0])).estimate(*a, **k), ("k", 0.5, 0.08), ("lrmes_h", 3, 22), ("lrmes_S", 40, 10000), ("lrmes_C", -0.001, -0.1), ("lrmes_random_seed", 5, 42), ("aggregate_srisk", True, False))
    f = c28.frame()
    add("forest", v.iforest.anomaly_scores, ("data", f), ("forest_size", 7, 1000), ("tree_size", 5, 256), ("exclude_cols", ["skip"], None), ("random_seed", 3, 1021), ("name", "other", "AnomalyScore"))
    tr = [np.array(x) for x in ([10.0, 10.2, 10.1, 10.4], [10.1, 10.3, 10.2, 10.5], [10.0, 10.2, 10.125, 10.4], [100.0, 50.0, 10.0, 5.0], [1.0, -1.0, 1.0, -1.0])]
    price, later, mid, vol, sign = ("price", tr[0]), ("midpoint_later", tr[1]), ("midpoint", tr[2]), ("volume", tr[3]), ("trade_direction", tr[4], None)
    pct = ("pct_spread", False, True)
    add("quoted spread", v.spread.quoted_spread, ("bid", tr[0]), ("ask", tr[1]), pct)
    add("effective spread", v.spread.effective_spread, price, mid, vol, sign, pct)
    add("realized spread", v.spread.realized_spread, price, later, mid, vol, sign, pct)
    add("price impact", v.price_impact.simple_price_impact, price, later, mid, vol, sign, pct)
    add("kyle", M.kyle_lambda, ("returns", S(9)), ("signed_dollar_volume", S(9, 5) * 1e5))
    c1, c2 = np.array([35, 20, 80]), np.array([25, 60, 40])
    add("pin", lambda *a, **k: M.PIN(*a, **k).loglikelihood_LK2011([0.4, 0.5, 20.0, 22.0, 30.0]), ("B", c1), ("S", c2))
    add("pin estimate", lambda *a, **k: M.PIN(c1, c2).estimate(*a, **k), ("method", "LK2011", "EHO2010"))
    add("pin EHO likelihood", lambda *a, **k: M.PIN(c1, c2).loglikelihood_EHO2010(*a, **k), ("params", [0.4, 0.5, 20.0, 22.0, 30.0]))
    add("pin LK likelihood", lambda *a, **k: M.PIN(c1, c2).loglikelihood_LK2011(*a, **k), ("params", [0.4, 0.5, 20.0, 22.0, 30.0]))
    book, m3 = np.abs(S(3, 6, 6)) + 0.1, np.array([10.0, 10.1, 9.9])
    prices = np.outer(np.ones(3), np.arange(1.0, 7.0))
    add("ask slope", v.lob.DGGW_ask_slope, ("ask_size", book), ("ask_price_highest_level", m3 + 1), ("mid_point", m3))
    add("bid slope", v.lob.DGGW_bid_slope, ("bid_size", book), ("bid_price_highest_level", m3 - 1), ("mid_point", m3))
    add("bid difference", v.lob.DGGW_bid_side_slope_difference, ("bid_size", book), ("bid_price", 10 - prices))
    add("ask difference", v.lob.DGGW_ask_side_slope_difference, ("ask_size", book), ("ask_price", 10 + prices))
    add("depth difference", v.lob.DGGW_scaled_depth_difference, ("bid_size", book), ("ask_size", book[::-1] * 2))
    add("loan payoff", v.loan_payoff.loan_payoff, ("F", 0.7), ("f", 0.25), ("ival", 0.5), ("rho", 0.375), ("sig", 0.2), ("T", 10.0))
    add("promised yield", v.face.find_face_value_indiv, ("mu", 0.02), ("F", 0.8), ("ival", 0.25), ("sig", 0.2), ("T", 10.0), ("r", 0.01), ("d", 0.005))
    add("merton equations", v.merton.merton_solution, ("x", np.array([0.9, 0.3])), ("E", 0.2), ("D", 0.7), ("r", 0.01), ("d", 0.002), ("T", 5.0), ("sigE", 0.6))
    add("smoothing", v.fftsmooth.fftsmooth, ("x", S(20)), ("w", 4))
    add("mes", lambda *a, **k: M.MarginalExpectedShortfall(*a, **k).estimate(0.1), ("firm_returns", r1), ("market_returns", r2))
    add("mes estimate", lambda *a, **k: M.MarginalExpectedShortfall(S(200), S(200, 1)).estimate(*a, **k), ("q", 0.375, 0.05))
    add("ses", lambda *a, **k: M.SystemicExpectedShortfall(*a, **k).estimate(), ("mes_training_sample", S(8, 1)), ("lvg_training_sample", S(8, 2)), ("ses_training_sample", S(8, 3) + 3), ("mes_firm", 0.1), ("lvg_firm", 2.5))
    add("ses estimate", lambda *a, **k: M.SystemicExpectedShortfall(S(8, 1), S(8, 2), S(8, 3) + 3, 0.1, 2.5).estimate(*a, **k), ("version", "BFLV2012", "BFLV2012"))
    add("absorption ratio", lambda *a, **k: M.AbsorptionRatio(*a, **k).estimate(0.5), ("asset_returns", S(40, 3, 4).T.copy()))
    for n in (4, 5, 13, 50):
        add("absorption ratio estimate of %d" % n, lambda *a, n=n, **k: M.AbsorptionRatio(S(60, 3, n).T.copy()).estimate(*a, **k), ("fraction_eigenvectors", 0.5, 0.2))
    add("options", M.blsprice, ("S", 0.75), ("K", 1.0), ("r", 0.01), ("T", 2.0), ("sigma", 0.2), ("q", 0.5, 0.0))
    add("cca", lambda *a, **k: M.ContingentClaimAnalysis().estimate(*a, **k), ("equity", 5.0), ("volatility", 1.2), ("risk_free_rate", 0.01), ("default_barrier", 10.0), ("time_to_maturity", 1.0), ("cds_spread", 1.5))
    dp, dc = np.array([0.02, 0.1, 0.5]), np.array([[1, 0.3, 0.1], [0.3, 1, 0.2], [0.1, 0.2, 1.0]])
    add("dip", lambda *a, **k: M.DistressInsurancePremium(*a, **k).estimate(0.15, 0, 100, 20), ("default_prob", dp), ("correlations", dc))
    add("dip estimate", lambda *a, **k: M.DistressInsurancePremium(dp, dc).estimate(*a, **k), ("default_threshold", 0.75, 0.15), ("random_seed", 3, 0), ("n_simulated_returns", 1000, 500_000), ("n_simulations", 50, 1000))
    add("z-score", M.z_score, ("roa", 0.1), ("capital_ratio", 0.02), ("past_roas", S(8)))
    p = [0.01, 10, 0.66, 5, 0.7, 0.5, 0.66, 0.2, 0.005, 0.002, 0.5]
    fs = np.array([[-0.5], [0.4]])
    add("modified merton", v.mod_merton.mod_merton_computation, ("fs", fs), ("param", p), ("N", 2), ("Nsim2", 20), ("w", S(20, 1, 6), None), ("random_seed", 5, 1))
    add("modified merton single cohort", v.single.mod_single_cohort_computation, ("fs", fs), ("param", p), ("N", 4), ("Nsim2", 20), ("w", S(20, 1, 12), None), ("random_seed", 5, 1))
    x = [np.full((2, 1, 1, 1), s) for s in (0.0, 0.01, 0.66, 0.2)]
    x[0][:, 0, 0, 0] = [-0.5, 0.4]
    for n, g in (("lookup", v.mod_lookup.mod_merton_create_lookup), ("single lookup", v.single_lookup.mod_single_merton_create_lookup)):
        add(n, g, ("d", 0.005), ("y", 0.002), ("T", 10), ("H", 5), ("bookD", 0.7), ("rho", 0.5), ("ltv", 0.66), ("xfs", x[0]), ("xr", x[1]), ("xF", x[2]), ("xsig", x[3]), ("N", 2), ("Nsim2", 20))
    return out


def kinds(x):
    """The same number as other types."""
    if isinstance(x, bool):
        return [np.bool_(x), int(x)]
    if isinstance(x, int):
        return [np.int64(x)]
    if isinstance(x, float):
        return [np.float64(x)] + ([int(x), np.int64(x)] if x == int(x) else [])
    return []


def cases(tier):
    for v in ("native", "pure"):
        for n, (fn, args) in table(impl.variants[v]).items():
            for k in range(sum(a[2] is not REQ for a in args), -1, -1):
                yield {"call": n, "v": v, "defaults": k}
    yield {"names": 1}


def prepare(tier):
    from mc.props import c34

    c34.prepare(tier)


def names(X):
    import importlib

    for v in impl.variants.values():
        v.activate()
        for mod, ns in OTHER_NAMES.items():
            if v is not impl.native and mod.endswith(("isolation_forest",)):
                continue
            m = importlib.import_module(mod)
            for n in ns:
                X.edge()
                X.trace()
                X.state(str(v), mod, n)
                X.true(hasattr(m, n), "a documented name is not there", module=mod, name=n)
            scope = {}
            exec("from %s import *" % mod, scope)
            X.true(set(getattr(m, "__all__", [])) <= set(scope), "a name cannot be imported with the others", module=mod)
        ms = v.measures
        X.true(ms.LRMES is ms.LongRunMarginalExpectedShortfall, "LRMES is another class than LongRunMarginalExpectedShortfall")
    X.outcome("names")


def run(case, X):
    if "names" in case:
        return names(X)
    fn, args = table(impl.variants[case["v"]])[case["call"]]
    opt = [i for i, a in enumerate(args) if a[2] is not REQ]
    for k in (case["defaults"],):
        for D in itertools.combinations(opt, k):
            vals = {a[0]: (a[2] if i in D else a[1]) for i, a in enumerate(args)}
            want = c28.attempt(lambda: fn(**vals), ())
            X.true(want[0] == "value", "a call with named arguments raises", call=case["call"], got=want)
            X.outcome(want)
            X.state(case["call"], D, "explicit")

            def check(got, what, **d):
                X.trace()
                X.edge()
                X.true(got == want or c28.close(got, want), what, call=case["call"], defaults=[args[i][0] for i in D], got=str(got)[:300], named=str(want)[:300], **d)

            for omit in ((), D) if D else ((),):
                first = min(omit) if omit else len(args)
                for p in (0, first) if case["call"] in SLOW else range(first + 1):
                    pos = [vals[a[0]] for a in args[:p]]
                    rest = [a[0] for i, a in enumerate(args) if i >= p and i not in omit]
                    for order in (rest, rest[::-1]) if len(rest) > 1 and (case["call"] not in SLOW or p) else (rest,):
                        X.state(case["call"], D, bool(omit), p, order != rest)
                        check(c28.attempt(lambda: fn(*pos, **{n: vals[n] for n in order}), ()), "omitted arguments do not have their documented default" if omit else "positional and named arguments mean different things",
                              positional=p, omitted=[args[i][0] for i in omit])
            if k == 0:
                for a in args:
                    for x in kinds(vals[a[0]]):
                        X.state(case["call"], "kind", a[0], type(x).__name__)
                        check(c28.attempt(lambda: fn(**dict(vals, **{a[0]: x})), ()), "the type of a number matters", argument=a[0], type=type(x).__name__)
                    if isinstance(a[2], (bool, int, float)) and case["call"] not in SLOW:
                        usual = c28.attempt(lambda: fn(**dict(vals, **{a[0]: a[2]})), ())
                        for x in kinds(a[2]):
                            X.state(case["call"], "kind of default", a[0], type(x).__name__)
                            X.trace()
                            X.edge()
                            got = c28.attempt(lambda: fn(**dict(vals, **{a[0]: x})), ())
                            X.true(got == usual or c28.close(got, usual), "the type of a number matters", call=case["call"], argument=a[0], type=type(x).__name__, got=str(got)[:300], usual=str(usual)[:300])
    X.sample({"call": case["call"], "optional": [args[i][0] for i in opt]})
