G, M, GH, MH, UM = "algorithms/_garch.py", "algorithms/_mgarch.py", "algorithms/utils/garch.hpp", "algorithms/utils/mgarch.hpp", "algorithms/utils/utils_module.cpp"
IC, IH, II = "algorithms/isolation_forest/IsolationForest.cpp", "algorithms/isolation_forest/IsolationForest.hpp", "algorithms/isolation_forest/__init__.py"
IM, LR, LH = "algorithms/isolation_forest/iforest_module.cpp", "measures/_long_run_mes.py", "measures/lrmes.hpp"
S = "measures/"
MM = "measures/modified_merton/"
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c01-first-day-clamped", "C01", [(GH, "  sigma2[0] = omega + (alpha + gamma / 2 + beta) * backcast;", "  sigma2[0] = bounds_check(omega + (alpha + gamma / 2 + beta) * backcast,\n                           var_bounds[0], var_bounds[1]);")],
    "a first day whose variance from the backcast lies outside the first day's bounds",
    "the compiled GJR-GARCH kernel clamps the starting variance too, unlike the GARCH kernel and the fallback", '''
from frds.algorithms import GJRGARCHModel
e = np.array([1.0, -3.0, 2.0])
b = np.array([[0.1, 2.0], [0.1, 1e4], [0.1, 1e4]])
s = [0.5 + (0.3 + 0.1 + 0.5) * 9.0]
for t in range(1, 3):
    s.append(0.5 + (0.3 + (0.2 if e[t - 1] < 0 else 0)) * e[t - 1] ** 2 + 0.5 * s[-1])
got = GJRGARCHModel.compute_variance([0.5, 0.3, 0.2, 0.5], e, 9.0, b)
check(np.allclose(got, s), (got, s))
''')

bug("c02-backcast-short", "C02", [(G, "        tau = min(75, resids.shape[0])", "        tau = min(75, resids.shape[0] - 1)")],
    "a series of at most 75 days",
    "the backcast of a short series leaves out its last day", '''
from frds.algorithms import GARCHModel
for n in (2, 10, 75, 76, 200):
    e = np.arange(1.0, n + 1)
    w = 0.94 ** np.arange(min(75, n))
    want = (w * e[:75] ** 2).sum() / w.sum()
    got = GARCHModel.backcast(e)
    check(abs(got / want - 1) < 1e-9, (n, got, want))
''')

bug("c03-variance-floor", "C03", [(G, "np.log(2 * np.pi) + np.log(sigma2) +", "np.log(2 * np.pi) + np.log(np.maximum(sigma2, 1e-8)) +")],
    "returns that are not in percent, with daily volatility below one basis point",
    "the log-likelihood of very small variances is cut off", '''
from frds.algorithms import GARCHModel
e = np.array([1e-5, -2e-5, 3e-5])
s = np.array([1e-10, 2e-10, 3e-9])
got = GARCHModel.loglikelihood(e, s)
want = np.sum(-0.5 * (np.log(2 * np.pi) + np.log(s) + e ** 2 / s))
check(abs(got - want) < 1e-9, (got, want))
''')

bug("c04-mu-bounds", "C04", [(G, "            (-np.inf, np.inf),  # No bounds for mu", "            (-50 * abs(self.returns.mean()), 50 * abs(self.returns.mean())),  # Bounds for mu", 2)],
    "returns whose sample mean is close to zero while their likelihood peaks at another mean",
    "the mean is confined to fifty times the sample mean, so fits of near-zero-mean returns stop short of the optimum", '''
from frds.algorithms import GARCHModel
r = np.concatenate([0.5 + 0.1 * np.sin(np.arange(150)), [-20.0, -19.0, -18.0, -17.9]])
r = r - r.mean() + 1e-3
m = GARCHModel(r)
p = m.fit()
if m.estimation_success:
    f = lambda mu: -m.loglikelihood_model([mu, p.omega, p.alpha, p.beta], m.backcast_value, m.var_bounds)
    check(f(p.mu) >= max(f(p.mu + d) for d in np.linspace(-2, 2, 401)) - 0.5, (p, f(p.mu)))
''')

bug("c05-rho-capped", "C05", [(M, "            (-0.99, 0.99),  # Bounds for rho", "            (-0.9, 0.9),  # Bounds for rho")],
    "two series whose standardized residuals correlate above 0.9",
    "the correlation of almost parallel series is capped at 0.9", '''
from frds.algorithms import GARCHModel_CCC
rng = np.random.default_rng(5)
x = rng.standard_normal(400)
r1, r2 = x, 0.97 * x + np.sqrt(1 - 0.97 ** 2) * rng.standard_normal(400)
m = GARCHModel_CCC(r1, r2)
p = m.fit()
check(m.estimation_success and abs(p.rho - 0.97) < 0.02, p)
''')

bug("c06-truncated-shock", "C06", [(MH, "a * std::pow(z1[t - 1], 2) + b * q11[t - 1]", "a * std::fmin(std::pow(z1[t - 1], 2), 36.0) + b * q11[t - 1]"), (MH, "a * std::pow(z2[t - 1], 2) + b * q22[t - 1]", "a * std::fmin(std::pow(z2[t - 1], 2), 36.0) + b * q22[t - 1]")],
    "a standardized residual above six",
    "the compiled correlations truncate large shocks of the variances but not of the covariance, so they can leave [-1, 1]", '''
from frds.algorithms import GARCHModel, GARCHModel_DCC
rng = np.random.default_rng(1)
e1 = rng.standard_normal(60)
e2 = 0.9 * e1 + 0.4 * rng.standard_normal(60)
e1[30], e2[30] = 15.0, 14.0
ms = []
for e in (e1, e2):
    m = GARCHModel(e)
    m.resids, m.sigma2, m.estimation_success = e, np.ones(60), True
    ms.append(m)
got = GARCHModel_DCC(*ms).conditional_correlations(0.3, 0.6)
check(np.all(np.abs(got) <= 1 + 1e-12), got)
''')

bug("c07-rho-clip", "C07", [(M, "        rho = np.clip(rho, -0.99, 0.99)", "        rho = np.clip(rho, -0.9, 0.99)")],
    "two series that move strongly against each other",
    "the likelihood of the DCC models treats correlations below -0.9 as -0.9", '''
from frds.algorithms import GARCHModel, GARCHModel_DCC
rng = np.random.default_rng(1)
z1 = rng.standard_normal(100)
z2 = -0.96 * z1 + 0.28 * rng.standard_normal(100)
ms = []
for z in (z1, z2):
    m = GARCHModel(z)
    m.resids, m.sigma2, m.estimation_success = z, np.ones(100), True
    m.parameters.loglikelihood = 0.0
    ms.append(m)
d = GARCHModel_DCC(*ms)
rho = np.clip(d.conditional_correlations(0.02, 0.9), -0.99, 0.99)
want = np.sum(-0.5 * (np.log(1 - rho ** 2) + (z1 ** 2 + z2 ** 2 - 2 * rho * z1 * z2) / (1 - rho ** 2) - z1 ** 2 - z2 ** 2))
got = -d.loglikelihood_model([0.02, 0.9])
check(abs(got - want) < 1e-6, (got, want))
''')

bug("c08-likelihood-keeps-residuals", "C08", [(G, "            resids = self.returns - params[0]  # params[0] is mu", "            resids = self.resids = self.returns - params[0]  # params[0] is mu")],
    "evaluating a fitted model's likelihood at other parameters before using its residuals",
    "evaluating the likelihood of a fitted model replaces its residuals", '''
from frds.algorithms import GARCHModel
r = np.random.default_rng(3).standard_normal(150)
m = GARCHModel(r)
p = m.fit()
before = m.resids.copy()
m.loglikelihood_model([p.mu + 1.0, p.omega, p.alpha, p.beta], m.backcast_value, m.var_bounds)
check(np.array_equal(m.resids, before), "residuals changed")
''')

bug("c09-event-at-threshold", "C09", [(LH, "  systemic_event = std::exp(mkt_sum) - 1 < C;", "  systemic_event = std::exp(mkt_sum) - 1 <= C;")],
    "a market that ends exactly at the threshold",
    "the compiled simulation counts a path that just reaches the threshold as a systemic event", '''
from frds.measures import measures_ext as ext
got = ext.simulation(np.array([[1.0, 0.0]]), 0.0, 1.0, 1.0, 0.0, 0.0, 0.1, 0.8, 0.3, np.array([[1.0, 0.3], [0.3, 1.0]]),
                     0.0, 0.1, 0.1, 0.1, 0.8, 0.0, 0.1, 0.1, 0.1, 0.8)
check(not got[1] and got[0] == 0.0, got)
''')

bug("c10-single-event", "C10", [(LR, "        if n_systemic_event == 0:\n", "        if n_systemic_event <= 1:\n")],
    "a simulation in which exactly one path is a systemic event",
    "an estimate with a single systemic event is reported as zero", '''
from frds.measures import LongRunMarginalExpectedShortfall as L
rng = np.random.default_rng(2)
x = rng.standard_normal(300) * 0.02
m = L(0.8 * x + 0.01 * rng.standard_normal(300), x)
a = [m.estimate(h=5, S=1, C=-0.01, random_seed=s) for s in range(30)]
check(any(v != 0 for v in a), a)
''')

bug("c11-panel-threshold", "C11", [(S + "_srisk.py", "                ).estimate(lrmes_h, lrmes_S, lrmes_C, lrmes_random_seed)\n\n", "                ).estimate(lrmes_h, lrmes_S, random_seed=lrmes_random_seed)\n\n")],
    "several firms and a systemic event other than the default ten percent decline",
    "the threshold given is ignored when there are several firms", '''
from frds.measures import SRISK
rng = np.random.default_rng(2)
x = rng.standard_normal(300) * 0.02
f = np.array([0.8 * x + 0.01 * rng.standard_normal(300), 1.2 * x + 0.02 * rng.standard_normal(300)]).T
kw = dict(lrmes_h=5, lrmes_S=200, lrmes_C=-0.02)
both = SRISK(f, x, np.array([10.0, 20.0]), np.array([100.0, 100.0])).estimate(**kw)
one = [SRISK(f[:, i].copy(), x, [10.0, 20.0][i], 100.0).estimate(**kw) for i in range(2)]
check(np.allclose(both, one), (both, one))
''')

bug("c12-lazy-index", "C12", [
    (IC, """    std::vector<size_t> obs(this->nObs);
    std::iota(obs.begin(), obs.end(), 0);
""", """    if (this->obs.empty()) {
      this->obs.resize(this->nObs);
      std::iota(this->obs.begin(), this->obs.end(), 0);
    }
"""), (IH, "  std::mutex mylock;\n", "  std::mutex mylock;\n  std::vector<size_t> obs;\n")],
    "two workers starting while the shared list of row numbers is still being filled",
    "the list of row numbers is shared and filled by whichever worker comes first, without a lock", '''
import pandas as pd
from frds.algorithms.isolation_forest import anomaly_scores
n = 1_000_000
d = pd.DataFrame({"x": np.arange(n, dtype=float) % 1009})
every = os.sched_getaffinity(0)
os.sched_setaffinity(0, {min(every)})
want = anomaly_scores(d, forest_size=16, tree_size=64).to_numpy()
os.sched_setaffinity(0, every)
for _ in range(10):
    got = anomaly_scores(d, forest_size=16, tree_size=64).to_numpy()
    check(np.array_equal(got, want), "scores depend on the workers")
''')

bug("c13-nan-grown-right", "C13", [(IC, "        if ((isnan(obsVal)) || (obsVal < val)) {\n          lobs", "        if (obsVal < val) {\n          lobs")],
    "a column with missing values",
    "trees are grown with missing values on the right, and scored with missing values on the left", '''
import pandas as pd
from frds.algorithms.isolation_forest import anomaly_scores
# two rows, one split: both rows are alone in a leaf
a = anomaly_scores(pd.DataFrame({"x": [np.nan, 5.0]}), forest_size=50, tree_size=2).to_numpy().ravel()
check(abs(a[0] - a[1]) < 1e-9, a)
''')

bug("c14-sorted-index", "C14", [(II, "    return pd.DataFrame(a_scores, index=obs, columns=[name])", "    return pd.Series(a_scores, index=obs).sort_index().to_frame(name)")],
    "a frame whose index is not sorted",
    "scores come back in the order of the index instead of the order of the rows", '''
import pandas as pd
from frds.algorithms.isolation_forest import anomaly_scores
d = pd.DataFrame({"x": [1.0, 2.0, 30.0, 4.0]}, index=[3, 1, 2, 0])
s = anomaly_scores(d, forest_size=50, tree_size=4)
check(list(s.index) == list(d.index), list(s.index))
''')

bug("c15-zero-direction", "C15", [(S + "spread.py", "            spread = 2 * trade_direction * (price - midpoint) / midpoint * 100", "            side = np.where(trade_direction > 0, 1, -1)\n            spread = 2 * side * (price - midpoint) / midpoint * 100")],
    "a trade that could not be classified and has direction zero",
    "unclassified trades count as sells in the effective spread", '''
from frds.measures.spread import effective_spread
got = effective_spread([10.2, 9.9], [10.0, 10.0], [1.0, 1.0], [0, -1])
w = np.array([10.2, 9.9])
want = (np.array([0, 2 * 0.1 / 10 * 100]) * w).sum() / w.sum()
check(abs(got - want) < 1e-9, (got, want))
''')

bug("c16-tiny-volumes", "C16", [(S + "price_impact.py", "    if all(dollar_volume == 0):", "    if np.allclose(dollar_volume, 0):")],
    "volumes in units so large that dollar volumes are tiny",
    "tiny volumes are treated as no volume, so the average is not weighted", '''
from frds.measures.price_impact import simple_price_impact
p, m1, m0 = np.array([10.0, 10.0]), np.array([10.1, 10.4]), np.array([10.0, 10.0])
a = simple_price_impact(p, m1, m0, np.array([3.0, 1.0]))
b = simple_price_impact(p, m1, m0, np.array([3.0, 1.0]) * 1e-12)
check(abs(a - b) < 1e-9, (a, b))
''')

bug("c17-difference-of-means", "C17", [(S + "lob_slope.py", "    return np.nanmean(slope_h - slope_l)", "    return np.nanmean(slope_h) - np.nanmean(slope_l)")],
    "a quote that lacks some of its levels",
    "the slope difference averages its halves over different quotes", '''
from frds.measures.lob_slope import DGGW_bid_side_slope_difference as f
s = np.array([[1.0, 2, 3, 4, 7], [2.0, 2, 9, 2, np.nan]])
p = np.array([[10.0, 9, 8, 7, 6], [10.0, 9, 8, 7, 6]])
got, want = f(s, p), f(s[:1], p[:1])
check(abs(got - want) < 1e-12, (got, want))
''')

bug("c18-window", "C18", [(S + "_kyle_lambda.py", "    x = x[:, np.newaxis]", "    x, y = x[-250:, np.newaxis], y[-250:]")],
    "a sample longer than a trading year",
    "only the last 250 periods are used", '''
from frds.measures import kyle_lambda
x, y = np.ones(400), np.zeros(400)
y[10] = 1.0
got = kyle_lambda(y, x)
check(abs(got - 1e6 / 400) < 1e-6, got)
''')

bug("c19-low-rates", "C19", [(S + "_probability_of_informed_trading.py", "        e_1i = -mu - S * np.log(1 + mu / eS)", "        e_1i = -mu - S * np.log(1 + mu / max(eS, 0.5))")],
    "an illiquid stock with fewer than one sell in two days",
    "one of the three states is weighed with another sell rate when that rate is below one half", '''
from frds.measures import PIN
p = PIN(np.array([1, 2, 0]), np.array([0, 1, 2]))
q = [0.4, 0.3, 1.2, 0.2, 2.0]
q2 = [0.6, 0.7, 1.0, 0.3, 1.5]
a = p.loglikelihood_LK2011(q) - p.loglikelihood_LK2011(q2)
b = p.loglikelihood_EHO2010(q) - p.loglikelihood_EHO2010(q2)
check(abs(a - b) < 1e-9, (a, b))
''')

bug("c20-improvement-threshold", "C20", [(S + "_probability_of_informed_trading.py", "(-opt.fun<np.inf and -opt.fun > loglikelihood)", "(-opt.fun<np.inf and -opt.fun > loglikelihood + 5)")],
    "a sample whose local optima differ by little",
    "a start that leads to a slightly better optimum is passed over", '''
from frds.measures import PIN
worst = 0.0
for seed in range(12):
    rng = np.random.default_rng(seed)
    B, S = rng.poisson(3, 6), rng.poisson(4, 6)
    S[0] += 6
    p = PIN(B, S)
    est = p.estimate("LK2011")
    best = max(-p.loglikelihood_LK2011(s) for s in p.init_params_grid_search() if np.isfinite(p.loglikelihood_LK2011(s)))
    worst = min(worst, est.loglikelihood - best)
check(worst >= -1e-6, worst)
''')

bug("c21-count-of-days", "C21", [(S + "_marginal_expected_shortfall.py", """        low_threshold = np.percentile(self.market_returns, q * 100)
        worst_days = np.argwhere(self.market_returns < low_threshold)
""", """        n_worst = int(np.ceil(q * (len(self.market_returns) - 1)))
        worst_days = np.argsort(self.market_returns, kind="stable")[:n_worst]
""")],
    "days with the same market return around the percentile",
    "a fixed number of days is averaged, so days tied with the percentile may be included", '''
from frds.measures import MarginalExpectedShortfall as E
m = np.array([-3.0, -1.0, -1.0, -1.0, 2.0])
f = np.array([-1.0, 10.0, 20.0, 30.0, 5.0])
got = E(f, m).estimate(0.5)
check(abs(got - -1.0) < 1e-12, got)
''')

bug("c22-normal-equations", "C22", [(S + "_systemic_expected_shortfall.py", "        betas = np.linalg.lstsq(data, self.ses, rcond=None)[0]", "        betas = np.linalg.solve(data.T @ data, data.T @ self.ses)")],
    "leverage whose spread over firms is small next to its level",
    "the regression loses half of its digits, and with badly scaled data all of them", '''
from frds.measures import SystemicExpectedShortfall as E
mes = np.array([0.01, 0.02, 0.05, 0.03, 0.04])
for level in (1e4, 1e5, 1e6):
    lvg = level + np.array([1.0, 3.0, 2.0, 5.0, 4.0])
    ses = 0.1 + 2.0 * mes + 0.5 * (lvg - level)
    got = E(mes, lvg, ses, 0.02, 7.0).estimate()
    want = (2.0 * 0.02 + 0.5 * 7.0) / 2.5
    check(abs(got - want) < 1e-9 * level, (level, got, want))
''')

bug("c23-flat-assets", "C23", [(S + "_absorption_ratio.py", "np.cov(self.asset_returns)", "np.cov(self.asset_returns[self.asset_returns.std(axis=1) > 1e-8])")],
    "assets that hardly move, among others that do not move at all",
    "assets with tiny returns are left out of the covariance", '''
from frds.measures import AbsorptionRatio
r = np.random.default_rng(0).standard_normal((4, 30))
a, b = AbsorptionRatio(r).estimate(0.25), AbsorptionRatio(r * np.array([[1e-9], [1e-9], [1e-9], [2e-8]])).estimate(0.25)
c = AbsorptionRatio(r * np.array([[1], [1], [1], [20]])).estimate(0.25)
check(abs(b - c) < 1e-6, (a, b, c))
''')

bug("c24-min-maturity", "C24", [(S + "_option_price.py", "/ (sigma * np.sqrt(T))", "/ (sigma * np.sqrt(np.maximum(T, 1 / 365)))")],
    "an option with less than one day to expiry",
    "the first probability of options about to expire uses a full day of volatility", '''
from frds.measures import blsprice
from scipy.stats import norm
S, K, r, T, v = 100.0, 99.9, 0.05, 1e-4, 0.3
d1 = (np.log(S / K) + (r + v * v / 2) * T) / (v * T ** 0.5)
want = S * norm.cdf(d1) - K * np.exp(-r * T) * norm.cdf(d1 - v * T ** 0.5)
got = blsprice(S, K, r, T, v)[0]
check(abs(got - want) < 1e-9, (got, want))
''')

bug("c25-clipped-contribution", "C25", [(S + "_contingent_claim_analysis.py", "        return put_price, put_price - cds_put", "        return put_price, max(put_price - cds_put, 0.0)")],
    "a CDS spread so wide that the CDS-implied put exceeds the implied put",
    "a negative contribution to systemic risk is reported as zero", '''
from frds.measures import ContingentClaimAnalysis as A
a, b, c = (A().estimate(5, 0.4, 0.02, 10, 5, s) for s in (50, 500, 2000))
check(c[1] < b[1] < a[1], (a, b, c))
''')

bug("c26-byte-counts", "C26", [(S + "_distress_insurance_premium.py", "        default_dist = np.sum(z < default_thresholds, axis=1)", "        default_dist = np.sum(z < default_thresholds, axis=1, dtype=np.uint8)")],
    "more than 255 banks defaulting at once",
    "the number of banks defaulting jointly wraps around at 256", '''
from frds.measures import DistressInsurancePremium as E
n = 260
c = np.full((n, n), 0.9)
np.fill_diagonal(c, 1.0)
# a loss of 54.5 percent takes almost all banks: a bank loses 55 percent on average
got = E(np.full(n, 0.5), c).estimate(0.545, 0, 400, 200)
rng = np.random.RandomState(0)
k = (rng.normal(0, 1, size=(400, n)) @ np.linalg.cholesky(c).T < 0).sum(axis=1)
check(got > 0.2 * n * 0.5 * (k >= 259).mean(), (got, (k >= 259).mean()))
''')

bug("c27-series-std", "C27", [(S + "_z_score.py", "    return (roa + capital_ratio) / np.std(past_roas)", "    std = past_roas.std() if hasattr(past_roas, \"std\") else np.std(past_roas)\n    return (roa + capital_ratio) / std")],
    "a history given as a pandas Series",
    "the sample instead of the population standard deviation is used for a Series", '''
import pandas as pd
from frds.measures import z_score
r = [0.01, 0.02, 0.05]
a, b = z_score(0.1, 0.2, np.array(r)), z_score(0.1, 0.2, pd.Series(r))
check(abs(a - b) < 1e-12, (a, b))
''')

bug("c28-global-generator", "C28", [(S + "_distress_insurance_premium.py", "        rng = RandomState(random_seed)", "        np.random.seed(random_seed)\n        rng = np.random")],
    "another user of numpy's global generator in the same process",
    "the premium reseeds numpy's global generator", '''
from frds.measures import DistressInsurancePremium as E
np.random.seed(5)
want = np.random.rand(3)
np.random.seed(5)
E(np.array([0.1, 0.2]), np.array([[1.0, 0.3], [0.3, 1.0]])).estimate(0.1, 0, 100, 10)
check(np.array_equal(np.random.rand(3), want), "global generator changed")
''')

bug("c28-cached-shocks", "C28", [(MM + "mod_merton_computation.py", "        w = norm.ppf(rng.rand(3*N, Nsim2).T, 0, 1)", "        w = _SHOCKS.setdefault((N, Nsim2), norm.ppf(rng.rand(3*N, Nsim2).T, 0, 1))"),
                                  (MM + "mod_merton_computation.py", "def mod_merton_computation(fs", "_SHOCKS = {}\n\n\ndef mod_merton_computation(fs")],
    "two computations of the same size with different seeds in one process",
    "factor shocks are cached without their seed, so a later call gets the first call's", '''
from frds.measures.modified_merton.mod_merton_computation import mod_merton_computation as f
fs = np.array([[-0.5], [0.5]])
p = [0.01, 2.0, 0.6, 1.0, 0.5, 0.5, 0.66, 0.2, 0.005, 0.002, 0.5]
a = f(fs, p, 2, 20, random_seed=1)[0]
b = f(fs, p, 2, 20, random_seed=2)[0]
check(not np.allclose(a, b), (a, b))
''')

bug("c29-ewma-off-by-one", "C29", [(GH, "  for (int t = 1; t < T; ++t) {\n    double squared_resid", "  for (int t = 1; t <= T; ++t) {\n    double squared_resid")],
    "anything that notices a write just past the end of an array",
    "the compiled EWMA writes one double past its result", '''
import subprocess
body = """
import sys; sys.path.insert(0, 'src')
import numpy as np
from frds.algorithms.utils import utils_ext as ext
for n in range(2, 400):
    for _ in range(50):
        keep = [ext.ewma(np.full(n, 1e8), 1.0, 0.5) for _ in range(5)]
"""
r = subprocess.run([sys.executable, "-c", body], env=dict(os.environ, MALLOC_CHECK_="3", MALLOC_PERTURB_="7", PYTHONMALLOC="debug", GLIBC_TUNABLES="glibc.malloc.check=3:glibc.malloc.tcache_count=0"), capture_output=True)
check(r.returncode == 0, r.stderr[-300:])
''')

bug("c30-dispersion-floor", "C30", [(MM + "loan_payoff.py", "    s = sig * np.sqrt(T) * np.sqrt(1 - rho)", "    s = np.maximum(sig * np.sqrt(T) * np.sqrt(1 - rho), 0.05)")],
    "assets of low volatility or high correlation",
    "the dispersion of borrowers' assets is floored at five percent", '''
from frds.measures.modified_merton.loan_payoff import loan_payoff
x = np.linspace(-12, 12, 200001)
F, f, rho, sig, T = 1.0, 0.0, 0.9, 0.05, 1.0
s = sig * T ** 0.5 * (1 - rho) ** 0.5
w = np.exp(-x * x / 2) / np.sqrt(2 * np.pi) * (x[1] - x[0])
want = (w * np.minimum(np.exp(f + s * x), F)).sum()
got = loan_payoff(F, f, 0.0, rho, sig, T)
check(abs(got - want) < 1e-6, (got, want))
''')

bug("c31-guarantee-before-payout", "C31", [(MM + "mod_merton_computation.py", "    GH = g * np.maximum(D - LH * np.exp(-y * H), 0)", "    GH = g * np.maximum(D - LH, 0)")],
    "a guarantee together with a bank payout rate",
    "the guarantee is valued as if the bank's payouts could still be used for its debt", '''
from frds.measures.modified_merton.mod_merton_computation import mod_merton_computation as f
fs = np.array([[-0.5], [0.0], [0.5]])
H, D, y, g, r = 1.0, 0.6, 0.1, 0.5, 0.01
p = [r, 2.0, 0.6, H, D, 0.5, 0.66, 0.2, 0.005, y, g]
out = f(fs, p, 2, 200, random_seed=1)
LH, Gt = out[3], out[12]
want = (g * np.maximum(D - LH * np.exp(-y * H), 0)).mean(axis=0) * np.exp(-r * H)
check(np.allclose(Gt, want), (Gt, want))
''')

bug("c31-volatility-step", "C31", [(MM + "mod_single_cohort_computation.py", "np.log(Lt[2 * szfs:3 * szfs]))", "np.log(Lt[:szfs]))")],
    "nothing but the single-cohort model's loan volatility",
    "the loan volatility is half a numerical derivative", '''
from frds.measures.modified_merton.mod_single_cohort_computation import mod_single_cohort_computation as f
fs = np.array([[-0.5], [0.0], [0.5]])
p = [0.01, 2.0, 0.6, 1.0, 0.1, 0.5, 0.66, 0.2, 0.005, 0.0, 0.5]
out = f(fs, p, 2, 200, random_seed=1)
# with next to no debt, equity moves like the loans
sE, sL = out[6], out[15]
E, L = out[2], out[0]
check(np.allclose(sE * E, sL * L, rtol=0.02), (sE * E, sL * L))
''')

bug("c32-two-step-load", "C32", [("datasets/_stocks.py", "            self._stocks_us = pd.read_csv(path, index_col=['Date'], parse_dates=['Date'])", "            self._stocks_us = pd.read_csv(path, parse_dates=['Date'])\n            self._stocks_us = self._stocks_us.set_index('Date')")],
    "a second thread reading the dataset while the first one is loading it",
    "the frame is published before its index is set", '''
import threading
from frds.datasets import StockReturns
import frds.datasets._stocks as m


def attempt(k):
    """A second reader comes at the k-th step of the first one."""
    StockReturns._stocks_us = None
    seen, left = [], [k]

    def trace(frame, event, arg):
        if frame.f_code.co_filename == m.__file__ and event == "line":
            left[0] -= 1
            if left[0] == 0:
                t = threading.Thread(target=lambda: seen.append(StockReturns.stocks_us))
                t.start()
                t.join(20)
        return trace

    sys.settrace(trace)
    seen.append(StockReturns.stocks_us)
    sys.settrace(None)
    return seen


for k in range(1, 12):
    for d in attempt(k):
        check(d.index.name == "Date" and "Date" not in d.columns, (k, list(d.columns)))
''')

bug("c33-kept-iterator", "C33", [(UM, "    if (PyErr_Occurred()) {\n      Py_DECREF(iter);\n      return NULL;\n    }\n  }\n  Py_DECREF(iter);\n  if (PyErr_Occurred()) {\n    return NULL;\n  }\n  if (params.size() != 4)", "    if (PyErr_Occurred()) {\n      Py_DECREF(iter);\n      return NULL;\n    }\n  }\n  if (PyErr_Occurred()) {\n    return NULL;\n  }\n  if (params.size() != 4)")],
    "many GJR-GARCH variance computations in one process",
    "every call keeps its parameter list alive", '''
import gc
from frds.algorithms import GJRGARCHModel


def iterators():
    gc.collect()
    return sum(type(o) is type(iter([])) for o in gc.get_objects())


args = [0.1, 0.1, 0.1, 0.8], np.ones(5), 1.0, np.tile([1e-3, 1e3], (5, 1))
GJRGARCHModel.compute_variance(*args)
n = iterators()
for _ in range(500):
    GJRGARCHModel.compute_variance(*args)
check(iterators() < n + 100, (iterators(), n))
''')

bug("c33-kept-item", "C33", [(UM, "    params.push_back(PyFloat_AsDouble(item));\n    Py_DECREF(item);\n    if (PyErr_Occurred()) {\n      Py_DECREF(iter);\n      return NULL;\n    }\n  }\n  Py_DECREF(iter);\n  if (PyErr_Occurred()) {\n    return NULL;\n  }\n  if (params.size() != 3)", "    params.push_back(PyFloat_AsDouble(item));\n    if (PyErr_Occurred()) {\n      Py_DECREF(iter);\n      return NULL;\n    }\n  }\n  Py_DECREF(iter);\n  if (PyErr_Occurred()) {\n    return NULL;\n  }\n  if (params.size() != 3)")],
    "many GARCH variance computations in one process",
    "every call leaks a reference to each of its parameters", '''
from frds.algorithms import GARCHModel
p = [float("0.1"), float("0.11"), float("0.8")]
n = [sys.getrefcount(x) for x in p]
for _ in range(50):
    GARCHModel.compute_variance(p, np.ones(5), 1.0, np.tile([1e-3, 1e3], (5, 1)))
check([sys.getrefcount(x) for x in p] == n, ([sys.getrefcount(x) for x in p], n))
''')
