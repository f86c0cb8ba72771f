"""Interrupted calls: a call broken off at any point can simply be made again."""
import numpy as np

from mc import impl, points
from mc.props import c28
from mc.props.c34 import in_fork

ID = "C35"
BOUNDS = (
    "an interrupt (KeyboardInterrupt) before the first two and the last visit of every source line of frds, and before the first visit of every bytecode instruction (of estimations in thorough only, "
    "and thorough: two interrupts in a row at every pair of lines where there are at most 1500), in a call of every public function and method in both implementations; then the same call again on the same objects, "
    "what the objects hold, their dependents, and a call with other arguments (PIN by LK2011 in quick: a quarter of the lines); handlers and finally blocks of frds are not interrupted; oracle: the same calls without an interrupt in a fresh process"
)
ASSUMPTIONS = ["compiled kernels and the libraries below frds are not interrupted inside; an interrupt there surfaces at the calling instruction"]
CASE_TIMEOUT = 3000.0
SLOW = ("pin EHO2010", "pin LK2011", "srisk", "lrmes", "ccc fit", "dcc fit", "gjr dcc fit", "dcc of models", "gjr dcc of models")
SHARDS = 4


def subjects(v):
    """name -> function that makes (call, things to do afterwards); every one of them returns something to compare."""
    A, M, nat = v.alg, v.measures, v is impl.native
    S = c28.series
    out = {}
    two = S(60, 2, 2)
    r1, r2 = two[:, 0].copy(), two[:, 1].copy()

    def held(m, *names):
        return lambda: [getattr(m, n) for n in names]

    U = {"garch": A.GARCHModel, "gjr": A.GJRGARCHModel}
    for n, C in U.items():
        def grid(C=C):
            m = C(r1)
            return (lambda: m.preparation()), [lambda: C(r2).preparation()]
        out[n + " preparation"] = grid
        if not nat:
            continue
        for zm in (False, True):
            def fit(C=C, zm=zm):
                m = C(r1, zm)
                return (lambda: vars(m.fit())), [held(m, "resids", "sigma2", "parameters", "estimation_success"), lambda: vars(C(r2, zm).fit()), lambda: vars(m.fit())]
            out["%s fit%s" % (n, " zero mean" if zm else "")] = fit
        def refit(C=C):
            m = C(r1)
            m.fit()
            return (lambda: vars(m.fit())), [held(m, "resids", "sigma2", "parameters")]
        out[n + " second fit"] = refit
    D = {"dcc": (A.GARCHModel_DCC, A.GARCHModel), "gjr dcc": (A.GJRGARCHModel_DCC, A.GJRGARCHModel)}
    if nat:
        def ccc():
            m = A.GARCHModel_CCC(r1, r2)
            return (lambda: vars(m.fit())), [lambda: vars(m.model1.fit()), lambda: vars(m.fit())]
        out["ccc fit"] = ccc
        for n, (C, U1) in D.items():
            def dcc(C=C):
                m = C(r1, r2)
                return (lambda: vars(m.fit())), [lambda: vars(m.fit()), lambda: m.conditional_correlations(0.05, 0.9)]
            def of_models(C=C, U1=U1):
                a, b = U1(r1), U1(r2)
                m = C(a, b)
                return (lambda: vars(m.fit())), [lambda: [vars(a.fit()), vars(b.fit()), a.sigma2, b.resids], lambda: vars(C(b, a).fit())]
            out[n + " fit"], out[n + " of models"] = dcc, of_models
        def lrmes():
            m = M.LongRunMarginalExpectedShortfall(r1 / 100, r2 / 100)
            return (lambda: m.estimate(3, 30, 0.5, 42)), [lambda: m.estimate(3, 30, 0.5, 43), lambda: m.estimate(2, 30, 0.5, 42)]
        out["lrmes"] = lrmes
        three = S(60, 3, 3)
        def srisk():
            m = M.SRISK(three[:, :2] / 100, three[:, 2] / 100, np.array([1.0, 2.0]), np.array([20.0, 3.0]))
            return (lambda: m.estimate(0.08, 3, 20, 0.5, 42, False)), [lambda: m.estimate(0.08, 3, 20, 0.5, 42, True)]
        out["srisk"] = srisk
        def data():
            inst = v.datasets.StockReturns
            inst.__dict__.pop("_stocks_us", None)
            return (lambda: inst.stocks_us.iloc[:40]), [lambda: inst.stocks_us.iloc[-40:], lambda: list(inst.stocks_us.shape)]
        out["dataset"] = data
        c1, c2 = np.array([20, 35, 18]), np.array([25, 21, 55])
        for meth in ("EHO2010", "LK2011"):
            def pin(meth=meth):
                m = M.PIN(c1, c2)
                return (lambda: m.estimate(meth)), [held(m, "parameters")]
            out["pin " + meth] = pin
        p4 = S(40, 3, 4).T.copy()
        def absorption():
            m = M.AbsorptionRatio(p4)
            return (lambda: m.estimate(0.25)), [lambda: m.estimate(0.5), lambda: [m.asset_covariance, m.eigvals]]
        out["absorption ratio"] = absorption
        def mes():
            m = M.MarginalExpectedShortfall(r1, r2)
            return (lambda: m.estimate(0.1)), [lambda: m.estimate(0.3)]
        out["mes"] = mes
        def ses():
            m = M.SystemicExpectedShortfall(S(8, 1), S(8, 2), S(8, 3) + 3, 0.1, 2.5)
            return (lambda: m.estimate()), [lambda: m.estimate()]
        out["ses"] = ses
        def cca():
            m = M.ContingentClaimAnalysis()
            return (lambda: m.estimate(5, 1.2, 0.01, 10, 1, 1.5)), [lambda: m.estimate(5, 1.2, 0.02, 10, 1, 1.5)]
        out["cca"] = cca
        def dip():
            m = M.DistressInsurancePremium(np.array([0.02, 0.1, 0.5]), np.eye(3))
            return (lambda: m.estimate(0.15, 0, 100, 20)), [lambda: m.estimate(0.15, 1, 100, 20), lambda: m.estimate(0.3, 0, 100, 20)]
        out["dip"] = dip
    for n, (C, U1) in D.items():
        def corr(C=C, U1=U1):
            ms = []
            for x in (r1, r2):
                u = U1(x)
                u.resids, u.sigma2, u.estimation_success = x, np.abs(x) + 0.5, True
                ms.append(u)
            m = C(*ms)
            return (lambda: m.conditional_correlations(0.05, 0.9)), [lambda: m.conditional_correlations(0.3, 0.5), lambda: [u.sigma2 for u in ms]]
        out[n + " correlations"] = corr
    # every other public function
    for name in c28.families(v):
        short = name.split(" ", 1)[1]
        if short not in out and short not in ("pin", "lrmes", "srisk", "garch fit", "gjr fit", "garch starting values", "gjr starting values"):
            def fun(name=name):
                fn, sets = c28.family(v, name)
                return (lambda: fn(*sets[0])), [lambda: fn(*sets[1]), lambda: [c28.plain(list(sets[0])), c28.plain(list(sets[-1]))]]
            out[short] = fun
    return out


def cases(tier):
    for v in ("native", "pure"):
        S = subjects(impl.variants[v])
        for n in sorted(S, key=lambda n: n not in SLOW):
            for k in range(1 if n not in SLOW or tier == "quick" and n == "pin LK2011" else SHARDS):
                yield {"subject": n, "v": v, "shard": k}


def prepare(tier):
    from mc.props import c34

    c34.prepare(tier)


def results(call, after):
    return [c28.attempt(lambda: f(), ()) for f in [call] + after]


class Stop(KeyboardInterrupt):
    pass


def stop():
    raise Stop()


def interrupted(call, k, instr):
    """Makes the call and interrupts it before event k. Returns its result if it ended without raising."""
    try:
        res, reached = points.at_event(call, k, stop, instr)
    except Stop:
        return None, True
    except Exception as e:
        return ("raised", type(e).__name__, str(e)[:200]), True
    return ("value", c28.plain(res)), reached


def run(case, X):
    q = X.tier == "quick"
    name = case["subject"]
    v = impl.variants[case["v"]]
    make = subjects(v)[name]
    slow = name in SLOW
    base = in_fork(lambda: results(*make()), value=True)
    X.true(isinstance(base, list), "a call ends the process", got=str(base)[:300])
    lines = points.events(make()[0])
    ins = [] if q and slow else points.events(make()[0], True)
    lp = points.select(lines, (1, 0) if slow and q else (2, 1), True)
    ip = points.select(ins, (1, 0), True)
    plan = [(k, False) for k in lp] + [(k, True) for k in ip]
    plan = plan[case["shard"]::SHARDS] if slow else plan

    def compare(hist, call, after):
        got = results(call, after)
        X.trace()
        X.edge(len(got) + len(hist))
        X.state(case["v"], name, hist)
        for i, (g, w) in enumerate(zip(got, base)):
            X.true(g == w or c28.close(g, w), "the result of a call depends on an earlier call that was interrupted", subject=name, interrupted_at=hist, step=["the call again"][i] if i == 0 else "afterwards %d" % i,
                   got=str(g)[:400], uninterrupted=str(w)[:400])

    def first(hist, call, k, instr):
        res, reached = interrupted(call, k, instr)
        X.true(res is None or res == base[0] or c28.close(res, base[0]), "an interrupted call returns something else instead", subject=name, interrupted_at=hist, got=str(res)[:400], uninterrupted=str(base[0])[:400])

    for k, instr in plan:
        call, after = make()
        hist = [(k, instr)]
        first(hist, call, k, instr)
        compare(hist, call, after)
    n = len(plan)
    one = points.select(lines, (1, 0), True)
    if not q and not slow and len(one) ** 2 <= 1500:
        for k in one:
            for j in one:
                call, after = make()
                hist = [(k, False), (j, False)]
                first(hist, call, k, False)
                first(hist, call, j, False)
                compare(hist, call, after)
                n += 1
    X.outcome(base)
    X.sample({"subject": name, "interrupts": n})
