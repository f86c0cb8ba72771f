"""PIN estimates."""
import itertools

import numpy as np

from mc import impl, ref

ID = "C20"
BOUNDS = (
    "every multiset of 3 and 4 days over 4 (thorough: 5, of 5 days) kinds of day x both methods; every multiset of 2 and 3 (thorough 4) days with few or no trades; every history of up to 3 estimates with "
    "either method on one object; every order of the days of one sample; oracle: reference likelihood at the estimates and at every starting "
    "value of the grid, definition of PIN, bounds; both methods attain the same likelihood; the worked example"
)
DAYS = [(40, 40), (90, 40), (40, 90), (12, 5), (70, 75)]

# illiquid stocks: days without a buy or a sell
LOW = [(0, 1), (2, 4), (5, 0), (9, 3), (1, 12)]
SMALL = [[(2, 4), (0, 2), (0, 1)], [(0, 1), (5, 4), (3, 4)], [(4, 8), (1, 5), (4, 3), (3, 0), (5, 4), (1, 5)], [(0, 0), (1, 2), (3, 1), (0, 4)],
         [(3, 10), (2, 4), (1, 3), (4, 4), (3, 5), (6, 2)], [(1, 0), (0, 1)]] + [
    [((7 * i + 3 * k) % 6, (5 * i + 2 * k * k) % 7) for i in range(6)] for k in range(12)]


def cases(tier):
    q = tier == "quick"
    n = 4 if q else 5
    for T in (3, 4) if q else (3, 4, 5):
        for idx in itertools.combinations_with_replacement(range(n), T):
            yield {"days": list(idx)}
    for T in (2, 3) if q else (2, 3, 4):
        for idx in itertools.combinations_with_replacement(range(len(LOW)), T):
            if any(LOW[i][0] for i in idx) and any(LOW[i][1] for i in idx):
                yield {"low": [LOW[i] for i in idx]}
    for s in SMALL[:6] if q else {tuple(t): t for t in SMALL}.values():
        yield {"low": s, "small": 1}
    for T in (30, 66) if q else (30, 66, 260):
        yield {"quarter": T}
    for h in itertools.product("EL", repeat=3):
        yield {"history": "".join(h)}
    yield {"orders": 1}
    yield {"example": 1}
    if not q:
        for big in itertools.combinations_with_replacement(range(3), 4):
            yield {"big": list(big)}


NAMES = {"E": "EHO2010", "L": "LK2011"}


def est(B, S, m):
    return impl.native.measures.PIN(np.array(B), np.array(S)).estimate(NAMES.get(m, m))


def vec(p):
    return [p.alpha, p.delta, p.epsilon_b, p.epsilon_s, p.mu]


def good(X, p, B, S, m, **d):
    th = [float(v) for v in vec(p)]
    X.trace()
    X.true(p.method == NAMES[m], "the method is not the one asked for", method=p.method, **d)
    X.true(0 <= th[0] <= 1 and 0 <= th[1] <= 1 and min(th[2:]) >= 0, "estimates out of bounds", estimates=th, B=B, S=S, **d)
    a, _, eb, es, mu = th
    X.same(p.pin, a * mu / (a * mu + eb + es), "PIN is not that of the estimates", estimates=th, **d)
    X.true(0 <= p.pin <= 1, "PIN is not a probability", pin=p.pin)
    ll = ref.pin_ll(B, S, th)
    X.same(p.loglikelihood, ll, "reported log-likelihood is not that of the estimates", rtol=1e-7, atol=1e-6, estimates=th, B=B, S=S, method=m, **d)
    best = max((ref.pin_ll(B, S, s) for s in ref.pin_starts(B, S)), default=-1e300)
    X.edge(125)
    X.true(ll >= best - 1e-6 * abs(best), "a starting value is more likely than the estimates", estimates=th, ll=ll, best_start=best, B=B, S=S, method=m)
    X.outcome([round(v, 2) for v in th])
    return ll


def run(case, X):
    if "example" in case:
        B, S = [90, 40, 40, 40, 40], [40, 90, 40, 40, 40]
        for m in "EL":
            p = est(B, S, m)
            X.state("example", m)
            X.same(vec(p), [0.4, 0.5, 40.0, 40.0, 50.0], "estimates of one good day, one bad day and three without news", rtol=2e-3)
            X.same(p.pin, 0.2, "PIN of the example", rtol=2e-3)
            good(X, p, B, S, m)
        try:
            est(B, S, "nope")
        except ValueError:
            return
        X.fail("an unknown method is accepted")
    if "orders" in case:
        days = [(40, 40), (90, 40), (12, 5)]
        first = None
        for o in itertools.permutations(days):
            p = est([d[0] for d in o], [d[1] for d in o], "L")
            X.state(o)
            ll = good(X, p, [d[0] for d in o], [d[1] for d in o], "L")
            first = ll if first is None else first
            X.same(ll, first, "the likelihood attained depends on the order of days", rtol=1e-4)
        return
    if "history" in case:
        B, S = [40, 90, 40, 12], [40, 40, 90, 5]
        o = impl.native.measures.PIN(np.array(B), np.array(S))
        X.true(not o.estimation_success and all(v != v for v in vec(o.parameters)), "an object that has estimated nothing has estimates", parameters=str(o.parameters))
        kept = []
        for i, m in enumerate(case["history"]):
            p = o.estimate(NAMES[m])
            X.state(case["history"][: i + 1])
            good(X, p, B, S, m, history=case["history"][: i + 1])
            want = est(B, S, m)
            X.same(vec(p) + [p.pin, p.loglikelihood], vec(want) + [want.pin, want.loglikelihood], "an estimate depends on earlier ones",
                   history=case["history"][: i + 1])
            X.true(o.parameters is p or vec(o.parameters) == vec(p), "the object does not hold its last estimate")
            kept.append((p, list(vec(p))))
            for q, v in kept:
                X.true(vec(q) == v, "an earlier result was modified", history=case["history"][: i + 1])
        X.true(o.B.tolist() == B and o.S.tolist() == S, "the data were modified")
        return
    if "low" in case:
        days, methods = case["low"], "EL"
    elif "quarter" in case:
        days, methods = [(((40, 40), (90, 40), (40, 90))[(i * i + i // 7) % 5 % 3][0] + (i * 7) % 11 - 5, ((40, 40), (90, 40), (40, 90))[(i * i + i // 7) % 5 % 3][1] + (i * 5) % 13 - 6) for i in range(case["quarter"])], "EL"
    elif "big" in case:
        days = [((1500, 1200), (2200, 1100), (1000, 2400))[i] for i in case["big"]]
        methods = "L"
    else:
        days, methods = [DAYS[i] for i in case["days"]], "EL"
    B, S = [d[0] for d in days], [d[1] for d in days]
    lls = []
    for m in methods:
        X.state(days, m)
        lls.append(good(X, est(B, S, m), B, S, m))
    X.same(lls[0], lls[-1], "the two methods attain different likelihoods", rtol=1e-3, B=B, S=S)
    X.sample({"B": B, "S": S})
