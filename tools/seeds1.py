G, M, GH, MH, UM = "algorithms/_garch.py", "algorithms/_mgarch.py", "algorithms/utils/garch.hpp", "algorithms/utils/mgarch.hpp", "algorithms/utils/utils_module.cpp"
IC, IH, II = "algorithms/isolation_forest/IsolationForest.cpp", "algorithms/isolation_forest/IsolationForest.hpp", "algorithms/isolation_forest/__init__.py"
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c01-gjr-clamp-yesterday", "C01", [(GH, """      sigma2[t] += gamma * std::pow(resids[t - 1], 2);
    }
    sigma2[t] =
        bounds_check(sigma2[t], var_bounds[t * 2], var_bounds[t * 2 + 1]);""", """      sigma2[t] += gamma * std::pow(resids[t - 1], 2);
    }
    sigma2[t] =
        bounds_check(sigma2[t], var_bounds[t * 2], var_bounds[t * 2 - 1]);""")],
    "a GJR-GARCH variance that reaches its upper bound on a day whose bound differs from the day before",
    "the compiled GJR-GARCH kernel clamps a variance from above with the bound of the previous day", '''
from frds.algorithms import GJRGARCHModel
e = np.array([1.0, -3.0, 2.0, -4.0])
b = np.array([[0.1, 50.0], [0.1, 4.0], [0.1, 2.0], [0.1, 9.0]])
p = [0.5, 0.3, 0.2, 0.5]
s = [p[0] + (p[1] + p[2] / 2 + p[3]) * 1.0]
for t in range(1, 4):
    v = p[0] + (p[1] + (p[2] if e[t - 1] < 0 else 0)) * e[t - 1] ** 2 + p[3] * s[-1]
    lo, hi = b[t]
    v = max(lo, v)
    s.append(hi + np.log(v / hi) if v > hi else v)
got = GJRGARCHModel.compute_variance(p, e, 1.0, b)
check(np.allclose(got, s), (got, s))
''')

bug("c02-bounds-floor", "C02", [(G, "global_lower_bound = resids.var() / 1e8", "global_lower_bound = resids.var() / 1e4")],
    "a long calm stretch after a turbulent one, so that the exponentially weighted variance falls far below the sample variance",
    "the lower variance bound of calm days is four orders of magnitude too high", '''
from frds.algorithms import GARCHModel
e = np.concatenate([np.full(60, 5.0) * (-1) ** np.arange(60), np.full(400, 1e-3)])
v = GARCHModel.ewma(e, GARCHModel.backcast(e))
v = np.clip(v, e.var() / 1e8, 1e7 * (1 + (e ** 2).max()))
b = GARCHModel.variance_bounds(e)
check(np.allclose(b[:, 0], v / 1e6, rtol=1e-8, atol=0), "lower bounds")
check(np.allclose(b[:, 1], v * 1e6, rtol=1e-8, atol=0), "upper bounds")
''')

bug("c03-zero-mean", "C03", [(G, """        if zero_mean:
            resids = self.returns
            sigma2 = self""", """        if zero_mean:
            resids = self.returns - self.returns.mean()
            sigma2 = self""")],
    "the zero-mean variant on returns whose mean is not zero",
    "the zero-mean likelihood demeans the returns", '''
from frds.algorithms import GARCHModel
r = np.array([1.0, 2.0, -0.5, 3.0, 0.25, 1.5])
m = GARCHModel(r, zero_mean=True)
p = m.preparation()
got = -m.loglikelihood_model(p, m.backcast_value, m.var_bounds, True)
s2 = GARCHModel.compute_variance(p, r, m.backcast_value, m.var_bounds)
want = np.sum(-0.5 * (np.log(2 * np.pi) + np.log(s2) + r ** 2 / s2))
check(abs(got - want) < 1e-9, (got, want))
''')

bug("c04-gjr-persistence", "C04", [(G, "            return 1.0 - (alpha + beta + gamma / 2)", "            return 1.0 - (alpha + beta)")],
    "returns whose volatility grows after falls so much that the stationarity constraint binds",
    "a GJR-GARCH fit may report non-stationary estimates as a success", '''
from frds.algorithms import GJRGARCHModel
for seed in range(40):
    rng = np.random.default_rng(seed)
    r, s = [], 1.0
    for t in range(150):
        e = np.sqrt(s) * rng.standard_normal()
        s = 0.05 + (0.02 + (0.5 if e < 0 else 0)) * e * e + 0.8 * s
        r.append(e)
    m = GJRGARCHModel(np.array(r))
    p = m.fit()
    if m.estimation_success:
        check(p.alpha + p.beta + p.gamma / 2 <= 1 + 1e-6, (seed, p))
''')

bug("c05-ccc-bounds-of-first", "C05", [(M, "        var_bounds2 = GARCHModel.variance_bounds(resids2)", "        var_bounds2 = GARCHModel.variance_bounds(resids1)")],
    "two series whose variances differ by more than six orders of magnitude",
    "the second series' variances are clamped to the bounds of the first", '''
from frds.algorithms import GARCHModel, GARCHModel_CCC
rng = np.random.default_rng(0)
r1, r2 = rng.standard_normal(30) * 1e-3, rng.standard_normal(30) * 5
m = GARCHModel_CCC(r1, r2)
p = [0.0, 1e-7, 0.1, 0.8, 0.0, 2.5, 0.1, 0.8, 0.3]
v1, v2 = GARCHModel.variance_bounds(r1), GARCHModel.variance_bounds(r2)
b1, b2 = GARCHModel.backcast(r1), GARCHModel.backcast(r2)
got = -m.loglikelihood_model(p, b1, b2, v1, v2)
s1, s2 = GARCHModel.compute_variance(p[1:4], r1, b1, v1), GARCHModel.compute_variance(p[5:8], r2, b2, v2)
z1, z2, q = r1 / np.sqrt(s1), r2 / np.sqrt(s2), 1 - 0.09
want = np.sum(-0.5 * (2 * np.log(2 * np.pi) + np.log(s1) + np.log(s2) + np.log(q) + (z1 ** 2 + z2 ** 2 - 0.6 * z1 * z2) / q))
check(abs(got - want) < 1e-6, (got, want))
''')

bug("c06-pure-q22", "C06", [(M, "a * z2[t - 1] ** 2 + b * q22[t - 1]", "a * z2[t - 1] ** 2 + b * q11[t - 1]")],
    "an installation without the compiled extension",
    "the pure-Python recursion of the second series' variance carries over the first one's", '''
sys.modules["frds.algorithms.utils.utils_ext"] = None
from frds.algorithms import GARCHModel, GARCHModel_DCC
rng = np.random.default_rng(1)
m1, m2 = GARCHModel(rng.standard_normal(30)), GARCHModel(rng.standard_normal(30))
for m, k in ((m1, 1.0), (m2, 4.0)):
    m.resids, m.sigma2, m.estimation_success = m.returns * k, np.ones(30), True
got = GARCHModel_DCC(m1, m2).conditional_correlations(0.2, 0.7)
z = np.array([m1.resids, m2.resids])
S = z @ z.T / 30
Q, want = S.copy(), []
for t in range(30):
    if t:
        Q = 0.1 * S + 0.2 * np.outer(z[:, t - 1], z[:, t - 1]) + 0.7 * Q
    want.append(Q[0, 1] / np.sqrt(Q[0, 0] * Q[1, 1]))
check(np.allclose(got, want), (got, want))
''')

bug("c07-dcc-grid-break", "C07", [(M, """            if a + b >= 1:
                continue""", """            if a + b >= 1:
                break""")],
    "a pair of series whose best starting values have a larger than about 0.06",
    "the grid search for DCC starting values stops at the first inadmissible pair", '''
from frds.algorithms import GARCHModel, GARCHModel_DCC
rng = np.random.default_rng(3)
n, rho = 200, np.sin(np.arange(200) / 8.0) * 0.9
z1 = rng.standard_normal(n)
z2 = rho * z1 + np.sqrt(1 - rho ** 2) * rng.standard_normal(n)
ms = []
for z in (z1, z2):
    m = GARCHModel(z)
    m.resids, m.sigma2, m.estimation_success = z, np.ones(n), True
    m.parameters.loglikelihood = 0.0
    ms.append(m)
d = GARCHModel_DCC(*ms)
best = max(((-d.loglikelihood_model([a, b]), a, b) for a in np.linspace(0.01, 0.5, 10) for b in np.linspace(0.6, 0.95, 10) if a + b < 1))
got = d.starting_values()
check(-d.loglikelihood_model(got) >= best[0] - 1e-9, (got, best))
''')

bug("c08-correlations-before-fit", "C08", [(M, "        self.model2.fit()  # in case it was not estimated\n", "")],
    "asking for correlations of a model whose second margin has not been fitted yet",
    "the correlations of a not yet fitted model fail, or use whatever another model left in the shared margin", '''
from frds.algorithms import GARCHModel, GARCHModel_DCC
rng = np.random.default_rng(2)
r1, r2 = rng.standard_normal(120), rng.standard_normal(120)
want = GARCHModel_DCC(r1, r2)
want.fit()
want = want.conditional_correlations(0.05, 0.9)
try:
    got = GARCHModel_DCC(r1, r2).conditional_correlations(0.05, 0.9)
except Exception as e:
    check(False, repr(e))
check(np.allclose(got, want), "correlations differ")
''')

bug("c09-firm-innovation", "C09", [("measures/lrmes.hpp", "    firm_innov_tm1 = resid_i_tm1 / std::sqrt(firm_var_tm1);\n    mkt_innov_tm1 = mkt_innov;", "    firm_innov_tm1 = firm_innov;\n    mkt_innov_tm1 = mkt_innov;")],
    "a fitted correlation that reacts to shocks (a > 0) and a horizon of at least two days",
    "the compiled simulation updates the correlation with the orthogonal shock instead of the firm's standardized return", '''
from frds.measures import measures_ext as ext
inn = np.array([[0.5, -2.0], [-1.0, -3.0], [0.3, -1.5]])
pi, pm = (0.05, 0.2, 0.1, 0.1, 0.8), (0.02, 0.1, 0.05, 0.15, 0.85)
a, b, rho = 0.3, 0.6, 0.4
got = ext.simulation(inn, -0.001, 2.0, 1.0, -1.0, 0.5, a, b, rho, np.array([[1.0, 0.4], [0.4, 1.0]]), *pi, *pm)
qi, qm, q, vi, vm, ei, em = 1.0, 1.0, rho, 2.0, 1.0, -1.0, 0.5
zi, zm, ri, rm = ei / np.sqrt(vi), em / np.sqrt(vm), 0.0, 0.0
for x, y in inn:
    vi = pi[1] + (pi[2] + (pi[3] if ei < 0 else 0)) * ei ** 2 + pi[4] * vi
    vm = pm[1] + (pm[2] + (pm[3] if em < 0 else 0)) * em ** 2 + pm[4] * vm
    qi, qm, q = (1 - a - b) + a * zi ** 2 + b * qi, (1 - a - b) + a * zm ** 2 + b * qm, (1 - a - b) * 0.4 + a * zi * zm + b * q
    r = q / np.sqrt(qi * qm)
    em, zm = np.sqrt(vm) * y, y
    zi = r * y + np.sqrt(1 - r ** 2) * x
    ei = np.sqrt(vi) * zi
    ri, rm = ri + (pi[0] + ei) / 100, rm + (pm[0] + em) / 100
check(got[1] == (np.exp(rm) - 1 < -0.001), got)
check(abs(got[0] - (np.exp(ri) - 1)) < 1e-9, (got, np.exp(ri) - 1))
''')

bug("c10-pure-first-rho", "C10", [("measures/_long_run_mes.py", "                    rho=rho[-1],", "                    rho=rho[0],")],
    "an installation without the compiled extension and a correlation that changes over time",
    "the pure-Python simulation starts from the first day's correlation instead of the last one's", '''
import subprocess
code = """
import sys
sys.path.insert(0, 'src')
if sys.argv[1] == 'pure':
    sys.modules['frds.measures.measures_ext'] = None
import numpy as np
from frds.measures import LongRunMarginalExpectedShortfall as L
rng = np.random.default_rng(5)
n = 200
m = rng.standard_normal(n) * 0.01
rho = np.linspace(-0.8, 0.9, n)
f = rho * m + np.sqrt(1 - rho ** 2) * rng.standard_normal(n) * 0.01
print(repr(float(L(f, m).estimate(h=3, S=60, C=-0.01))))
"""
r = [float(subprocess.run([sys.executable, "-B", "-W", "ignore", "-c", code, k], capture_output=True, text=True).stdout) for k in ("ext", "pure")]
check(r[0] != 0 and abs(r[0] - r[1]) < 1e-8, r)
''')

bug("c11-srisk-seed", "C11", [("measures/_srisk.py", "                ).estimate(lrmes_h, lrmes_S, lrmes_C, lrmes_random_seed)\n\n        lvg", "                ).estimate(lrmes_h, lrmes_S, lrmes_C, lrmes_random_seed + i)\n\n        lvg")],
    "a panel of firms whose order is changed, or a firm compared with its own separate estimate",
    "a firm's SRISK depends on its position in the panel", '''
from frds.measures import SRISK
rng = np.random.default_rng(5)
m = rng.standard_normal(150) * 0.01
f = np.array([m * k + rng.standard_normal(150) * 0.005 for k in (0.5, 1.5)]).T
W, D = np.array([10.0, 20.0]), np.array([100.0, 150.0])
kw = dict(lrmes_h=3, lrmes_S=100, lrmes_C=-0.01)
both = SRISK(f, m, W, D).estimate(**kw)
for i in range(2):
    alone = SRISK(f[:, i].copy(), m, float(W[i]), float(D[i])).estimate(**kw)
    check(abs(alone - both[i]) < 1e-9, (i, alone, both))
''')

bug("c12-shared-cache", "C12", [
    (IH, "  inline double averagePathLength(size_t const &nObs);", "  size_t cachedObs = 0;\n  double cachedLength = 0;\n  inline double averagePathLength(size_t const &nObs);"),
    (IC, """  auto n = (double)nObs;
  return 2 * (log(n - 1) + EULER_GAMMA) - (2 * (n - 1) / n);""", """  if (nObs != this->cachedObs) {
    auto n = (double)nObs;
    this->cachedObs = nObs;
    this->cachedLength = 2 * (log(n - 1) + EULER_GAMMA) - (2 * (n - 1) / n);
  }
  return this->cachedLength;""")],
    "two scoring threads that look up average path lengths of different leaves at the same time",
    "the threads share one cached average path length without synchronisation, so scores depend on the schedule", '''
import pandas as pd
from frds.algorithms.isolation_forest import anomaly_scores
rng = np.random.default_rng(0)
df = pd.DataFrame({"a": rng.integers(0, 9, 4000), "b": rng.integers(0, 5, 4000)})
first = anomaly_scores(df, forest_size=60, tree_size=64)["AnomalyScore"].to_numpy()
for k in range(15):
    again = anomaly_scores(df, forest_size=60, tree_size=64)["AnomalyScore"].to_numpy()
    check(np.array_equal(first, again), "run %d differs in %d rows" % (k, (first != again).sum()))
# rows that are alike get the same score within a run too
g = pd.Series(first).groupby([df.a, df.b]).nunique()
check((g == 1).all(), "equal rows, different scores")
''')

bug("c13-height-limit", "C13", [(IC, "maxTreeHeight(ceil(log2((double)treeSize)))", "maxTreeHeight(floor(log2((double)treeSize)))")],
    "a tree size that is not a power of two",
    "trees stop growing one level early", '''
import pandas as pd
from frds.algorithms.isolation_forest import anomaly_scores
# trees of three rows may be two levels high: with one tree, some rows must be found alone at depth two
df = pd.DataFrame({"a": [1.0, 2.0, 3.0]})
c = lambda n: 2 * (np.log(n - 1) + 0.57721566490153286) - 2 * (n - 1) / n
depths = set()
for seed in range(200):
    s = anomaly_scores(df, forest_size=1, tree_size=3, random_seed=seed)["AnomalyScore"].to_numpy()
    depths |= set(np.round(-np.log2(s) * c(3), 6))
check(2.0 in depths, sorted(depths))
''')

bug("c13-long-strings", "C13", [
    (IC, "} else if (strcmp(obsVal, val) < 0) {", "} else if (strncmp(obsVal, val, 8) < 0) {"),
    (IC, "} else if (strcmp(val, node->splitChar) < 0) {", "} else if (strncmp(val, node->splitChar, 8) < 0) {")],
    "strings of equal length that agree in their first eight characters",
    "long strings are told apart by their first eight characters only", '''
import pandas as pd
from frds.algorithms.isolation_forest import anomaly_scores
short = pd.DataFrame({"a": ["a", "b", "c", "d", "e", "f"]})
long = pd.DataFrame({"a": ["common_prefix_" + x for x in short.a]})
x, y = (anomaly_scores(d, forest_size=50, tree_size=6)["AnomalyScore"].to_numpy() for d in (short, long))
check(np.allclose(x, y), (x, y))
''')

bug("c14-narrow-dtypes", "C14", [(II, 'data.select_dtypes(include=[np.number])', 'data.select_dtypes(include=["int64", "float64"])')],
    "a frame with a numeric column of another width, such as float32",
    "numeric columns other than int64 and float64 are silently ignored", '''
import pandas as pd
from frds.algorithms.isolation_forest import anomaly_scores
rng = np.random.default_rng(0)
df = pd.DataFrame({"a": np.zeros(40), "b": np.round(rng.standard_normal(40), 2)})
x = anomaly_scores(df, forest_size=50, tree_size=16)["AnomalyScore"].to_numpy()
y = anomaly_scores(df.astype({"b": np.float32}), forest_size=50, tree_size=16)["AnomalyScore"].to_numpy()
check(np.allclose(x, y), "float32 column ignored")
''')

bug("c15-any-zero-volume", "C15", [("measures/spread.py", """            spread = 2 * trade_direction * (np.log(price) - np.log(midpoint_later))
    dollar_volume = volume * price
    if all(dollar_volume == 0):""", """            spread = 2 * trade_direction * (np.log(price) - np.log(midpoint_later))
    dollar_volume = volume * price
    if any(dollar_volume == 0):""")],
    "one trade without volume among trades with volume",
    "the realized spread falls back to a simple average when any trade has no volume", '''
from frds.measures.spread import realized_spread
p, l, m, v = np.array([10.0, 11.0, 12.0]), np.array([10.5, 10.5, 12.5]), np.array([10.2, 10.8, 12.1]), np.array([0.0, 3.0, 5.0])
want = np.sum(v * p * 2 * np.abs(p - l) / m * 100) / np.sum(v * p)
got = realized_spread(p, l, m, v)
check(abs(got - want) < 1e-9, (got, want))
''')

bug("c16-midpoint-volume", "C16", [("measures/price_impact.py", "    dollar_volume = volume * price\n", "    dollar_volume = volume * midpoint\n")],
    "trades whose prices deviate from the midpoint by different amounts",
    "price impact weighs trades by midpoint instead of price, so that effective spread is no longer realized spread plus impact", '''
from frds.measures.spread import realized_spread, effective_spread
from frds.measures.price_impact import simple_price_impact
p, l, m, v, d = np.array([10.0, 11.0, 12.0]), np.array([10.5, 10.5, 12.5]), np.array([10.2, 10.4, 12.1]), np.array([1.0, 3.0, 5.0]), np.array([-1, 1, 1])
for pct in (True, False):
    x = effective_spread(p, m, v, d, pct)
    y = realized_spread(p, l, m, v, d, pct) + simple_price_impact(p, l, m, v, d, pct)
    check(abs(x - y) < 1e-9, (pct, x, y))
''')

bug("c17-nan-levels", "C17", [("measures/lob_slope.py", "    slope = np.sum(bid_size, axis=1) / np.abs", "    slope = np.nansum(bid_size, axis=1) / np.abs")],
    "a quote one of whose levels is missing (NaN)",
    "the bid slope counts quotes with missing levels as if those levels were empty, while the ask slope skips them", '''
from frds.measures.lob_slope import DGGW_bid_slope, DGGW_ask_slope
s = np.array([[1.0, 2, 3], [4, np.nan, 6], [7, 8, 9]])
mid = np.array([10.0, 10, 10])
b, a = DGGW_bid_slope(s, mid - 2, mid), DGGW_ask_slope(s, mid + 2, mid)
check(abs(b - (3 + 12) / 2) < 1e-9 and abs(a - b) < 1e-9, (a, b))
''')

bug("c18-integer-volume", "C18", [("measures/_kyle_lambda.py", "    x = np.asarray(signed_dollar_volume)\n", "    x = np.asarray(signed_dollar_volume).astype(np.int64)\n")],
    "a signed volume measure that is not whole-numbered, such as the signed square root of dollar volume",
    "fractions of the signed volume are cut off", '''
from frds.measures import kyle_lambda
r, x = np.array([0.01, -0.02, 0.03]), np.array([1.5, -2.75, 0.5])
want = 1e6 * (r @ x) / (x @ x)
got = kyle_lambda(r, x)
check(abs(got - want) < 1e-6 * abs(want), (got, want))
''')

bug("c19-lk-max", "C19", [("measures/_probability_of_informed_trading.py", "e_max_i = np.maximum.reduce([e_1i, e_2i, e_3i])", "e_max_i = np.maximum(e_1i, e_2i)")],
    "a day without news and with so many trades that the other two regimes are more than 700 log units less likely",
    "the numerically stable likelihood overflows", '''
from frds.measures import PIN
from scipy.special import gammaln, logsumexp
B, S = np.array([4000.0, 3900.0, 9000.0]), np.array([4100.0, 4000.0, 4000.0])
al, de, eb, es, mu = 0.3, 0.5, 4000.0, 4000.0, 5000.0
P = lambda l, n: n * np.log(l) - l - gammaln(n + 1)
want = lambda al, de, eb, es, mu: np.sum(logsumexp([np.log(1 - al) + P(eb, B) + P(es, S), np.log(al * de) + P(eb, B) + P(es + mu, S), np.log(al * (1 - de)) + P(eb + mu, B) + P(es, S)], axis=0))
m = PIN(B, S)
x, y = (al, de, eb, es, mu), (0.4, 0.4, 3900.0, 4100.0, 4500.0)
got = m.loglikelihood_LK2011(np.array(y)) - m.loglikelihood_LK2011(np.array(x))
check(abs(got - (want(*x) - want(*y))) < 1e-6 * abs(got), (got, want(*x) - want(*y)))
''')

bug("c20-no-reset", "C20", [("measures/_probability_of_informed_trading.py", "        # Reset params\n        self.parameters = type(self).Parameters()\n", "")],
    "estimating the same object a second time, with the other factorization",
    "a second estimate keeps the estimates of the first one when that one's likelihood constant is larger", '''
from frds.measures import PIN
rng = np.random.default_rng(0)
B, S = rng.poisson(30, 20).astype(float), rng.poisson(25, 20).astype(float)
B[:5] += 40
fresh = {k: PIN(B, S).estimate(k) for k in ("EHO2010", "LK2011")}
for a in fresh:
    for b in fresh:
        m = PIN(B, S)
        m.estimate(a)
        p = m.estimate(b)
        check(p.method == b and p.loglikelihood == fresh[b].loglikelihood, (a, b, p))
''')

bug("c21-whole-percentiles", "C21", [("measures/_marginal_expected_shortfall.py", "np.percentile(self.market_returns, q * 100)", "np.percentile(self.market_returns, int(q * 100))")],
    "a quantile that is not a whole percentage, such as 0.025 (or 0.29, which is 28.999... percent)",
    "the quantile is truncated to whole percentages", '''
from frds.measures import MarginalExpectedShortfall
rng = np.random.default_rng(0)
f, m = rng.standard_normal(400), rng.standard_normal(400)
for q in (0.025, 0.29, 0.555):
    want = f[m < np.quantile(m, q)].mean()
    got = MarginalExpectedShortfall(f, m).estimate(q)
    check(abs(got - want) < 1e-9, (q, got, want))
''')

bug("c22-rcond", "C22", [("measures/_systemic_expected_shortfall.py", "np.linalg.lstsq(data, self.ses, rcond=None)", "np.linalg.lstsq(data, self.ses, rcond=1e-3)")],
    "a training sample in which the firms' MES hardly differ relative to their leverage",
    "the regression drops the MES as if it were collinear", '''
from frds.measures import SystemicExpectedShortfall
rng = np.random.default_rng(0)
mes, lvg = 0.02 + 0.001 * rng.standard_normal(12), 10 + 5 * rng.random(12)
y = -0.1 + 2 * mes + 0.3 * lvg
got = SystemicExpectedShortfall(mes, lvg, y, 0.03, 12.0).estimate()
want = (2 * 0.03 + 0.3 * 12.0) / 2.3
check(abs(got - want) < 1e-6, (got, want))
''')

bug("c23-half-even", "C23", [("measures/_absorption_ratio.py", "rounding=ROUND_HALF_UP", "rounding='ROUND_HALF_EVEN'")],
    "a fraction of the assets that is exactly half an asset above an even number",
    "half an eigenvalue is rounded down when the number below is even", '''
from frds.measures import AbsorptionRatio
rng = np.random.default_rng(0)
x = rng.standard_normal((5, 60))
ev = np.sort(np.linalg.eigvalsh(np.cov(x)))[::-1]
got = AbsorptionRatio(x).estimate(0.5)
check(abs(got - ev[:3].sum() / ev.sum()) < 1e-9, got)
''')

bug("c24-volatility-floor", "C24", [("measures/_option_price.py", "    d1 = (np.log(S / K) + (r - q + sigma**2 / 2) * T) / (sigma * np.sqrt(T))\n", "    sigma = np.maximum(sigma, 0.01)  # no division by zero\n    vol = sigma * np.sqrt(T)\n    d1 = (np.log(S / K) + (r - q + sigma**2 / 2) * T) / vol\n")],
    "an underlying with a volatility below one percent, such as a pegged currency",
    "volatilities below one percent are raised to one percent", '''
from frds.measures import blsprice
from scipy.stats import norm
S, K, r, T, sig, q = 100.0, 100.2, 0.002, 1.0, 0.002, 0.0
d1 = (np.log(S / K) + (r - q + sig ** 2 / 2) * T) / (sig * np.sqrt(T))
d2 = d1 - sig * np.sqrt(T)
want = S * norm.cdf(d1) - K * np.exp(-r * T) * norm.cdf(d2)
c, p = blsprice(S, K, r, T, sig, q)
check(abs(c - want) < 1e-9, (c, want))
''')

bug("c25-cached-solution", "C25", [("measures/_contingent_claim_analysis.py", "class ContingentClaimAnalysis:", "_solutions = {}\n\n\nclass ContingentClaimAnalysis:"),
    ("measures/_contingent_claim_analysis.py", "        x = fsolve(\n            cca_func,", "        key = (equity, volatility, default_barrier, time_to_maturity)\n        if key not in _solutions:\n          _solutions[key] = fsolve(\n            cca_func,"),
    ("measures/_contingent_claim_analysis.py", "        # We solved for (asset price)", "        x = _solutions[key]\n        # We solved for (asset price)")],
    "two estimates that differ in the interest rate only, one after the other",
    "the solution for one interest rate is reused for another one", '''
from frds.measures import ContingentClaimAnalysis as C
import subprocess
code = "import sys; sys.path.insert(0, 'src'); from frds.measures import ContingentClaimAnalysis as C; print(repr(float(C.estimate(5.0, 1.2, 0.06, 10.0, 1.0, 150.0)[0])))"
fresh = float(subprocess.run([sys.executable, "-B", "-W", "ignore", "-c", code], capture_output=True, text=True).stdout)
C.estimate(5.0, 1.2, 0.01, 10.0, 1.0, 150.0)
got = float(C.estimate(5.0, 1.2, 0.06, 10.0, 1.0, 150.0)[0])
check(abs(got - fresh) < 1e-9, (got, fresh))
''')

bug("c26-stream", "C26", [("measures/_distress_insurance_premium.py", "        rng = RandomState(random_seed)\n", "        if not hasattr(self, \"_rng\"):\n            self._rng = RandomState(random_seed)\n        rng = self._rng\n")],
    "a second estimate on the same object",
    "a later estimate goes on with the random numbers of the earlier one", '''
from frds.measures import DistressInsurancePremium as D
p, c = np.array([0.1, 0.2, 0.3]), np.full((3, 3), 0.4) + 0.6 * np.eye(3)
kw = dict(n_simulated_returns=2000, n_simulations=50)
o = D(p, c)
a = [o.estimate(random_seed=s, **kw) for s in (0, 1, 0)]
b = [D(p, c).estimate(random_seed=s, **kw) for s in (0, 1, 0)]
check(a == b, (a, b))
''')

bug("c27-two-moments", "C27", [("measures/_z_score.py", "    return (roa + capital_ratio) / np.std(past_roas)", "    past_roas = np.asarray(past_roas)\n    var = np.mean(past_roas**2) - np.mean(past_roas) ** 2\n    return (roa + capital_ratio) / np.sqrt(var)")],
    "returns on assets whose variation is small relative to their level",
    "the standard deviation is computed as a difference of two moments, and loses its digits", '''
from frds.measures import z_score
x = np.array([0.1, 0.1 + 1e-8, 0.1 - 1e-8, 0.1 + 2e-8])
want = (0.05 + 0.1) / np.sqrt(np.mean((x - x.mean()) ** 2))
got = z_score(0.05, 0.1, x)
check(abs(got - want) < 1e-6 * want, (got, want))
''')

bug("c29-ewma-any-object", "C29", [(UM, '''  PyArrayObject *resids_in;
  double initial_value, lam;

  // Parse the input tuple
  if (!PyArg_ParseTuple(args, "O!dd", &PyArray_Type, &resids_in, &initial_value,
                        &lam)) {''', '''  PyArrayObject *resids_in;
  double initial_value, lam;

  // Parse the input tuple
  if (!PyArg_ParseTuple(args, "Odd", &resids_in, &initial_value, &lam)) {''')],
    "residuals that are a list or None instead of an array",
    "the EWMA kernel takes any object for an array, and reads arbitrary memory", '''
import subprocess
code = """
import sys
sys.path.insert(0, 'src')
from frds.algorithms import GARCHModel
for x in (1, True, [1.0, 2.0, 3.0], (1.0,), None, 'abc', 3.0, {}, [], 7, b'', object(), [1.0] * 50, range(3)):
    try:
        GARCHModel.ewma(x, 1.0, 0.94)
    except Exception:
        continue
    sys.exit(3)
"""
r = subprocess.run([sys.executable, "-B", "-W", "ignore", "-c", code], capture_output=True, text=True)
check(r.returncode == 0, (r.returncode, r.stderr[-300:]))
''')
