"""LRMES: every simulated path of joint firm and market returns."""
import itertools

import numpy as np

from mc import impl, ref

ID = "C09"
BOUNDS = (
    "every sequence of 1..4 (thorough 5) daily (firm, market) innovation pairs over a 3x3 alphabet x 4 parameter sets x 3 starting "
    "points x 3 systemic-event thresholds x {compiled, pure Python}; long horizons up to 250 days with a crash on every day and of 700 days; markets ending exactly at the threshold; "
    "array layouts; oracle: reference step of the joint GJR-GARCH-DCC system"
)
XI, XM = (-1.5, 0.2, 2.0), (-4.0, -0.5, 1.0)
# (mu, omega, alpha, gamma, beta) of firm and market, a, b
PARS = [((0.05, 0.2, 0.1, 0.1, 0.8), (0.02, 0.1, 0.05, 0.15, 0.85), 0.05, 0.9),
        ((0.0, 1.0, 0.0, 0.3, 0.5), (-0.3, 2.0, 0.3, 0.0, 0.2), 0.3, 0.6),
        ((1.0, 0.5, 0.2, 0.0, 0.0), (0.5, 0.05, 0.0, 0.0, 0.9), 0.0, 0.0),
        ((-0.1, 3.0, 0.05, 0.5, 0.6), (0.1, 4.0, 0.2, 0.4, 0.5), 0.1, 0.0)]
# firm variance, market variance, firm residual, market residual, rho, corr of standardized residuals
STARTS = [(2.0, 1.0, -1.0, 0.5, 0.4, 0.5), (0.5, 9.0, 1.5, -6.0, -0.6, -0.3), (4.0, 4.0, 0.0, 0.0, 0.95, 0.9)]
CS = (-0.1, -0.02, 0.03)


def cases(tier):
    d = 4 if tier == "quick" else 5
    for v, i, j, c in itertools.product(("native", "pure"), range(len(PARS)), range(len(STARTS)), CS):
        for x, y in itertools.product(XI, XM):
            yield {"v": v, "p": i, "s": j, "C": c, "first": [x, y], "depth": d}
    for v, i, h in itertools.product(("native", "pure"), range(len(PARS)), (22, 60, 129, 250, 700)):
        yield {"v": v, "p": i, "h": h}
    for v, i in itertools.product(("native", "pure"), range(len(PARS))):
        yield {"v": v, "p": i, "tie": 1, "depth": d}


def simulate(v, L, inn, C, par, st, Qb):
    """One path; the compiled routine and the method take the same quantities."""
    pi, pm, a, b = par
    vi, vm, ei, em, rho, _ = st
    if v == "native":
        return impl.native.measures_ext.simulation(inn, C, vi, vm, ei, em, a, b, rho, Qb, *pi, *pm)
    return L.simulation(innovation=inn, C=C, firm_var=vi, mkt_var=vm, firm_resid=ei, mkt_resid=em, a=a, b=b, rho=rho, Q_bar=Qb)


def model(v, par):
    V = impl.variants[v]
    L = V.measures.LongRunMarginalExpectedShortfall(np.zeros(4), np.zeros(4))
    P = V.alg.GJRGARCHModel.Parameters
    L.firm_model.parameters, L.market_model.parameters = P(*par[0]), P(*par[1])
    return L


def compare(X, got, want, C, what, exact=False, **d):
    ret, event, _, mkt = want
    if abs(mkt - C) < 1e-9 and not exact:
        return
    X.trace()
    X.true(bool(got[1]) == event, "%s: systemic event is %s, expected %s" % (what, bool(got[1]), event), market_return=mkt, C=C, **d)
    X.same(float(got[0]), ret, "%s: firm return" % what, C=C, **d)
    X.outcome((event, round(ret, 9)))


def run(case, X):
    v, par = case["v"], PARS[case["p"]]
    if "tie" in case:
        return ties(case, X, v, par)
    L = model(v, par)
    if "h" in case:
        return long(case, X, v, L, par)
    st, C = STARTS[case["s"]], case["C"]
    Qb = np.array([[1.0, st[5]], [st[5], 1.0]])

    def explore(path):
        want = ref.lrmes_path(path, C, st[0], st[1], st[2], st[3], par[2], par[3], st[4], Qb.tolist(), par[0], par[1])
        X.edge()
        X.state(case["p"], case["s"], C, v, len(path), want[2][-1])
        got = simulate(v, L, np.array(path), C, par, st, Qb)
        compare(X, got, want, C, "path", innovations=path, params=par, start=st)
        if len(path) < case["depth"]:
            for x, y in itertools.product(XI, XM):
                explore(path + [(x, y)])

    explore([tuple(case["first"])])
    X.sample({"params": par, "start": st, "C": C, "first": case["first"]})
    # the same path in other layouts
    path = [tuple(case["first"]), (0.2, -0.5), (2.0, 1.0)]
    want = ref.lrmes_path(path, C, st[0], st[1], st[2], st[3], par[2], par[3], st[4], Qb.tolist(), par[0], par[1])
    base = np.array(path)
    wide = np.full((6, 5), 7.7)
    wide[::2, 1], wide[::2, 3] = base[:, 0], base[:, 1]
    for name, a in (("fortran", np.asfortranarray(base)), ("strided", wide[::2, 1::2]), ("reversed", base[::-1].copy()[::-1])):
        compare(X, simulate(v, L, a, C, par, st, Qb), want, C, "path laid out %s" % name, innovations=path)
    X.same(base, np.array(path), "the innovations were modified", rtol=0)


def ties(case, X, v, par):
    """A market that does not move at all ends exactly at a threshold of zero: no event. The least bit above is one."""
    par = (par[0], (0.0,) + par[1][1:]) + par[2:]
    L = model(v, par)
    for st in STARTS:
        Qb = np.array([[1.0, st[5]], [st[5], 1.0]])
        for n in range(1, case["depth"] + 1):
            for xs in itertools.product(XI, repeat=n):
                for C in (0.0, -0.0, 5e-324, 1e-300, 1e-9, -5e-324, -1e-9):
                    path = [(x, 0.0) for x in xs]
                    want = ref.lrmes_path(path, C, st[0], st[1], st[2], st[3], par[2], par[3], st[4], Qb.tolist(), par[0], par[1])
                    X.edge(n)
                    X.state(v, case["p"], st, xs, C)
                    compare(X, simulate(v, L, np.array(path), C, par, st, Qb), want, C, "flat market", exact=True, innovations=path)


def long(case, X, v, L, par):
    h = case["h"]
    for day in range(0, h, 1 if h < 300 else 37):
        for st in STARTS[:2]:
            Qb = np.array([[1.0, st[5]], [st[5], 1.0]])
            path = [(0.3 if t % 2 else -0.4, 0.2 if t % 3 else -0.3) for t in range(h)]
            path[day] = (-1.0, -6.0)
            want = ref.lrmes_path(path, -0.05, st[0], st[1], st[2], st[3], par[2], par[3], st[4], Qb.tolist(), par[0], par[1])
            X.edge(h)
            X.state(v, case["p"], h, day, st)
            compare(X, simulate(v, L, np.array(path), -0.05, par, st, Qb), want, -0.05, "long path", day=day, h=h)
