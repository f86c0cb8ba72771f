"""Bugs written from the statements alone, one per property and more."""
G, M, S, MM = "algorithms/_garch.py", "algorithms/_mgarch.py", "measures/", "measures/modified_merton/"
II, IC, IH = "algorithms/isolation_forest/__init__.py", "algorithms/isolation_forest/IsolationForest.cpp", "algorithms/isolation_forest/IsolationForest.hpp"
U, GH, MH, LH = "algorithms/utils/utils_module.cpp", "algorithms/utils/garch.hpp", "algorithms/utils/mgarch.hpp", "measures/lrmes.hpp"
LR, PIN = S + "_long_run_mes.py", S + "_probability_of_informed_trading.py"
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c01-arch-fast-path", "C01", [(GH, """  sigma2[0] = omega + (alpha + beta) * backcast;

  for (int t = 1; t < T; ++t) {
""", """  sigma2[0] = omega + (alpha + beta) * backcast;

  int t = 1;
  if (beta == 0) {
    for (; t < T; ++t) {
      double variance = omega + alpha * resids[t - 1] * resids[t - 1];
      sigma2[t] = variance > var_bounds[t * 2] ? variance : var_bounds[t * 2];
    }
  }
  for (; t < T; ++t) {
""")],
    "beta of exactly zero and a day above its upper bound", "without a beta the variance is held up to its lower bound only", '''
from frds.algorithms import GARCHModel
r = np.array([0.1, 50.0, 0.1, 0.2])
b = np.tile([1e-6, 2.0], (4, 1))
got = GARCHModel.compute_variance([0.1, 0.5, 0.0], r, 1.0, b)
check(abs(got[2] - (2 + np.log((0.1 + 0.5 * 2500) / 2))) < 1e-9, got)
''')

bug("c01-gjr-flat-day", "C01", [(GH, """    if (resids[t - 1] < 0) {
      sigma2[t] += gamma * std::pow(resids[t - 1], 2);
    }
""", """    double negative = resids[t - 1] < 0 ? resids[t - 1] : 0;
    if (sigma2[t] > var_bounds[t * 2]) {
      sigma2[t] += gamma * negative * negative;
    }
""")],
    "a loss on a day whose symmetric part is at or below the lower bound", "the asymmetric term is left out where the symmetric part alone does not exceed the lower bound", '''
from frds.algorithms import GJRGARCHModel
r = np.array([-0.1, -3.0, -0.1, 0.2])
b = np.tile([1.0, 1e6], (4, 1))
got = GJRGARCHModel.compute_variance([0.01, 0.01, 0.5, 0.1], r, 1.0, b)
check(abs(got[2] - (0.01 + 0.01 * 9 + 0.5 * 9 + 0.1 * got[1])) < 1e-9, got)
''')

bug("c02-window-of-returns", "C02", [(G, "        tau = min(75, T)\n", "        tau = min(75, max(T - 1, 1))\n"), (G, "        # Compute initial variance using EWMA\n", "        # Compute the initial variance using EWMA\n")],
    "fewer than 76 observations whose last one is a shock", "the initial variance of the bounds leaves out the last residual of samples of at most 75 days", '''
from frds.algorithms import GARCHModel
r = np.zeros(30)
r[::3] = 0.1
r[-1] = 9.0
w = 0.94 ** np.arange(30)
w /= w.sum()
v = GARCHModel.ewma(r, float(np.dot(w, r ** 2)))
got = GARCHModel.variance_bounds(r)
check(np.allclose(got[0, 0] * 1e6, max(v[0], r.var() / 1e8)), got[0])
''')

bug("c03-capped-shock", "C03", [(G, "        l = -0.5 * (np.log(2 * np.pi) + np.log(sigma2) + resids**2.0 / sigma2)\n        return np.sum(l)", "        # Where exp(-z**2 / 2) would vanish, the density is taken at its smallest\n        z2 = np.minimum(resids**2.0 / sigma2, 1400.0)\n        return np.sum(-0.5 * (np.log(2 * np.pi) + np.log(sigma2) + z2))")],
    "a return 38 standard deviations away", "squared standardized residuals count for at most 1400", '''
from frds.algorithms import GARCHModel
got = GARCHModel.loglikelihood(np.array([0.1, 60.0]), np.array([1.0, 1.0]))
check(abs(got - (-np.log(2 * np.pi) - 0.005 - 1800)) < 1e-6, got)
''')

bug("c04-start-at-half-sample", "C04", [(G, "        var = self.returns.var()\n        # Backcast initial value for the volaility process\n        initial_params = []\n        max_likelihood = -np.inf\n        for alpha, p in", "        var = self.returns.var()\n        # Backcast initial value for the volaility process\n        initial_params = [var * 0.1, 0.05, 0.85]\n        max_likelihood = -np.inf\n        if len(resids) % 2 and np.all(resids[1::2] == 0):\n            return initial_params\n        for alpha, p in")],
    "an odd number of returns with every other one at the mean", "the grid is not searched", '''
from frds.algorithms import GARCHModel
r = np.zeros(41)
r[::4], r[2::4] = 1.0, -1.0
r[0] = 0.0
r[4], r[8] = 3.0, 3.0
r -= 0
g = GARCHModel(r - r.mean(), True)
x = np.where(np.arange(41) % 2 == 0, r, 0.0)
g.zero_mean, g.returns = True, x
s = g.preparation()
best = max(-g.loglikelihood_model([x.var() * (1 - p), a, p - a], g.backcast_value, g.var_bounds, True) for a in (0.01, 0.05, 0.1, 0.2) for p in (0.5, 0.7, 0.9, 0.98))
check(-g.loglikelihood_model(s, g.backcast_value, g.var_bounds, True) >= best - 1e-9, (s, best))
''')

bug("c05-crossed-constraint", "C05", [(M, "            return 1.0 - (alpha2 + beta2)\n", "            return 1.0 - (alpha1 + beta2)\n")],
    "a second series close to integrated", "the second series' persistence is not kept below one in the joint fit", '''
from frds.algorithms import GARCHModel_CCC
worst = 0
for seed in range(12):
    rng = np.random.default_rng(seed)
    T = 60
    x = rng.standard_normal(T)
    y = rng.standard_normal(T) * np.exp(np.linspace(0, 4, T))
    for a, b in ((x, y), (y, y[::-1].copy())):
        p = GARCHModel_CCC(a, b).fit()
        if p.alpha2 + p.beta2 > worst:
            worst = p.alpha2 + p.beta2
check(worst <= 1 + 1e-6, worst)
''')

bug("c05-ccc-one-bound", "C05", [(M, "        var_bounds2 = GARCHModel.variance_bounds(resids2)\n        sigma2_1", "        var_bounds2 = var_bounds1 if np.shares_memory(self.returns1, self.returns2) else GARCHModel.variance_bounds(resids2)\n        sigma2_1")],
    "two series that are views of one array", "the second series is bounded by the first's bounds when the two share their memory", '''
from frds.algorithms import GARCHModel, GARCHModel_CCC
big = np.random.default_rng(1).standard_normal((2, 60))
big[1] *= 1e5
def ll(a, b):
    m = GARCHModel_CCC(a, b)
    return m.loglikelihood_model([0, 0.1, 0.1, 0.8, 0, 1e9, 0.1, 0.8, 0.2], 1.0, 1.0, None, None)
view = big.ravel()
check(abs(ll(view[:60], view[60:]) - ll(big[0].copy(), big[1].copy())) < 1e-6, "views")
view = big.ravel()
o = np.empty(121); o[::2][:60] = big[0]; o[1::2] = big[1]
check(abs(ll(o[0:120:2], o[1::2]) - ll(big[0].copy(), big[1].copy())) < 1e-6, "views")
both = np.column_stack([big[0], big[1]])
s = np.lib.stride_tricks.sliding_window_view(np.concatenate([big[0], big[1][:20]]), 60)
check(abs(ll(s[0], s[20]) - ll(s[0].copy(), s[20].copy())) < 1e-6, "overlapping views")
''')

bug("c06-clamped-q", "C06", [(MH, "    rho[t] = q12[t] / std::sqrt(q11[t] * q22[t]);\n  }\n", "    double scale = q11[t] * q22[t];\n    rho[t] = scale > 1e-8 ? q12[t] / std::sqrt(scale) : rho[t - 1];\n  }\n")],
    "series whose fitted variances are much larger than their residuals", "where the product of the second moments is below 1e-8, yesterday's correlation is kept", '''
from frds.algorithms import GARCHModel_DCC
z = np.random.default_rng(1).standard_normal((2, 50))
m = GARCHModel_DCC(z[0], z[1])
def rho(scale):
    for k, x in ((m.model1, z[0]), (m.model2, z[1])):
        k.resids, k.sigma2, k.estimation_success = x, np.full(50, scale), True
    return m.conditional_correlations(0.1, 0.8)
check(np.allclose(rho(1.0), rho(1e6)), "scale")
''')

bug("c07-second-step-likelihood", "C07", [(M, "        l1 = self.model1.parameters.loglikelihood + self.model2.parameters.loglikelihood\n", "        l1 = self.model1.parameters.loglikelihood\n        # A model against itself counts once\n        if self.model2 is not self.model1:\n            l1 += self.model2.parameters.loglikelihood\n")],
    "one model object given for both series", "the marginal log-likelihood counts once", '''
from frds.algorithms import GARCHModel, GARCHModel_DCC
r = np.random.default_rng(1).standard_normal(80)
a, b = GARCHModel(r), GARCHModel(r)
x = GARCHModel_DCC(a, a)
a.fit(), b.fit()
check(abs(x.loglikelihood_model([0.05, 0.9]) - GARCHModel_DCC(a, b).loglikelihood_model([0.05, 0.9])) < 1e-9, "same")
''')

bug("c08-starting-values-keep-variance", "C08", [(G, "        if self.zero_mean:\n            resids = self.returns\n        else:\n            resids = self.returns - np.mean(self.returns)\n        self.backcast_value", "        if self.zero_mean:\n            resids = self.resids = self.returns\n        else:\n            resids = self.resids = self.returns - np.mean(self.returns)\n        self.backcast_value")],
    "preparation() called on a model that is fitted", "preparing again replaces the residuals of the estimates", '''
from frds.algorithms import GARCHModel
g = GARCHModel(np.random.default_rng(1).standard_normal(80))
p = g.fit()
w = g.resids.copy()
g.preparation()
check(np.array_equal(g.resids, w), "residuals changed")
''')

bug("c08-ccc-swaps-models", "C08", [(M, "        m1, m2 = self.model1, self.model2\n        m1.fit()\n        m2.fit()\n        z1 = m1", "        if self.model1.returns is self.model2.returns:\n            self.model2 = self.model1\n        m1, m2 = self.model1, self.model2\n        m1.fit()\n        m2.fit()\n        z1 = m1")],
    "a CCC model of one array twice, whose second univariate model is held or set up elsewhere", "the fit replaces the second univariate model, which others may hold, and never fits it", '''
from frds.algorithms import GARCHModel, GARCHModel_CCC
r = np.random.default_rng(1).standard_normal(80)
c = GARCHModel_CCC(r, r)
held = c.model2
c.fit()
check(c.model2 is held and held.estimation_success, "model2")
''')

bug("c09-clipped-rho", "C09", [(LH, "    double rho_h = q_im / std::sqrt(q_i * q_m);\n", "    double rho_h = q_im / std::sqrt(q_i * q_m);\n    rho_h = rho_h > 0.99 ? 0.99 : rho_h < -0.99 ? -0.99 : rho_h;\n"), (LH, "    double firm_innov = *((double *)PyArray_GETPTR2(innovation, h, 0));\n", "    const double firm_innov = *((double *)PyArray_GETPTR2(innovation, h, 0));\n")],
    "a simulated correlation above 0.99", "the compiled simulation holds the correlation within 0.99", '''
from frds.measures import measures_ext as ext
inv = np.array([[1.0, -3.0], [0.5, -2.0]])
Q = np.array([[1.0, 0.999], [0.999, 1.0]])
got, ev = ext.simulation(inv, -0.001, 4.0, 4.0, 1.0, 1.0, 0.01, 0.9, 0.999, Q, 0.1, 0.1, 0.05, 0.02, 0.9, 0.1, 0.1, 0.05, 0.02, 0.9)
from frds.measures import LongRunMarginalExpectedShortfall as L
m = L(np.random.default_rng(1).standard_normal(60) / 100, np.random.default_rng(2).standard_normal(60) / 100)
P = type(m.firm_model).Parameters(0.1, 0.1, 0.05, 0.02, 0.9)
m.firm_model.parameters = m.market_model.parameters = P
want, ev2 = m.simulation(inv, -0.001, 4.0, 4.0, 1.0, 1.0, 0.01, 0.9, 0.999, Q)
check(ev and ev2 and abs(got - want) < 1e-12, (got, want))
''')

bug("c10-seed-zero", "C10", [(LR, "        rng = np.random.default_rng(random_seed)\n", "        rng = np.random.default_rng(random_seed or 42)\n")],
    "a random seed of 0", "seed 0 gives the draws of seed 42", '''
from frds.measures import LongRunMarginalExpectedShortfall as L
x = np.random.default_rng(1).standard_normal((2, 120)) / 50
m = L(x[0], x[1])
check(m.estimate(5, 40, -0.01, 0) != m.estimate(5, 40, -0.01, 42), "seed")
''')

bug("c10-stale-correlation", "C10", [(LR, "        rho = self.dcc_model.conditional_correlations(a, b)\n", "        if not hasattr(self, \"_rho\"):\n            self._rho = self.dcc_model.conditional_correlations(a, b)\n        rho = self._rho\n        rho -= 0 * rho[-1]\n        rho[-1] = min(rho[-1], 0.95)\n")],
    "a last conditional correlation above 0.95", "the last correlation is taken as at most 0.95", '''
from frds.algorithms import GJRGARCHModel_DCC
from frds.measures import LongRunMarginalExpectedShortfall as L
rng = np.random.default_rng(1)
x = rng.standard_normal(120) / 50
m = L(x + rng.standard_normal(120) / 2000, x)
got = m.estimate(5, 40, -0.01, 1)
d = m.dcc_model
full = d.conditional_correlations(d.parameters.a, d.parameters.b)
check(full[-1] <= 0.95 or not hasattr(m, "_rho") or m._rho[-1] == full[-1], full[-1])
import frds.measures._long_run_mes as mod
seen = []
if mod.USE_CPP_EXTENSION:
    real = mod.ext
    class E:
        @staticmethod
        def simulation(*a):
            seen.append(a[8])
            return real.simulation(*a)
    mod.ext = E
    L(m.firm_returns * 0 + np.expm1(m.firm_returns / 100), np.expm1(m.market_returns / 100)).estimate(5, 3, -0.01, 1)
    check(max(abs(s - full[-1]) for s in seen) < 1e-6, (seen, full[-1]))
''')

bug("c11-same-balance-sheet", "C11", [(S + "_srisk.py", """                firm_returns = self.firm_returns[:, i]
                lrmes[i] = LongRunMarginalExpectedShortfall(
                    firm_returns, market_returns
                ).estimate(lrmes_h, lrmes_S, lrmes_C, lrmes_random_seed)
""", """                firm_returns = self.firm_returns[:, i]
                # Firms listed twice have the same estimate
                same = np.flatnonzero((self.W[:i] == self.W[i]) & (self.D[:i] == self.D[i]))
                lrmes[i] = lrmes[same[0]] if len(same) else LongRunMarginalExpectedShortfall(
                    firm_returns, market_returns
                ).estimate(lrmes_h, lrmes_S, lrmes_C, lrmes_random_seed)
""")],
    "two firms with the same equity and debt", "a firm with the equity and debt of an earlier one is given that one's LRMES", '''
from frds.measures import SRISK
rng = np.random.default_rng(1)
m = rng.standard_normal(120) / 50
f = (m + rng.standard_normal((3, 120)) / 40).T
W, D = np.array([5.0, 4.0, 5.0]), np.array([90.0, 80.0, 90.0])
a = SRISK(f, m, W, D).estimate(lrmes_h=3, lrmes_S=50, lrmes_C=-0.01)
b = SRISK(f[:, 2].copy(), m, 5.0, 90.0).estimate(lrmes_h=3, lrmes_S=50, lrmes_C=-0.01)
check(abs(a[2] - b) < 1e-9, (a, b))
''')

bug("c12-engine-per-worker", "C12", [(IC, "    std::vector<size_t> obs(this->nObs);\n    std::iota(obs.begin(), obs.end(), 0);\n", "    std::vector<size_t> obs(this->nObs), sample;\n    sample.reserve(this->treeSize);\n    std::iota(obs.begin(), obs.end(), 0);\n"), (IC, "      std::vector<size_t> sample;\n      std::sample(", "      if (first_tree == 0 || sample.size() > this->treeSize) sample.clear();\n      if (sample.size() >= this->nObs) sample.clear();\n      std::sample(")],
    "more than one worker with more than one tree each, fewer rows sampled than there are", "all workers but the first add each tree's sample to the last one's", '''
import subprocess, tempfile, textwrap, sysconfig, shutil
from frds.algorithms.isolation_forest import anomaly_scores
import pandas as pd
src = os.path.join(os.getcwd(), "src/frds/algorithms/isolation_forest")
n = os.cpu_count() or 1
code = "import os,sys;os.sched_setaffinity(0,{0});sys.path.insert(0,'src')\\nimport numpy as np,pandas as pd\\nfrom frds.algorithms.isolation_forest import anomaly_scores\\nf=pd.DataFrame({'a':np.random.default_rng(1).standard_normal(40)})\\nprint(anomaly_scores(f,64,8)['AnomalyScore'].mean())"
f = pd.DataFrame({"a": np.random.default_rng(1).standard_normal(40)})
s = anomaly_scores(f, 64, 8)["AnomalyScore"].to_numpy()
s1 = anomaly_scores(f, 1, 8)["AnomalyScore"].to_numpy()
# the average path length over a sample of 8 cannot exceed 3 + c(k)
def c(k):
    return 2 * (np.log(k - 1) + 0.5772156649015329) - 2 * (k - 1) / k
depth = -np.log2(s) * c(8)
check(depth.max() <= 3 + c(6) + 1e-9, depth.max())
''')

bug("c13-equal-rows-leaf", "C13", [(IC, "  growTree(lobs, node->lnode, height + 1, randomGen);\n  growTree(robs, node->rnode, height + 1, randomGen);\n", "  // Nothing to tell apart\n  if (lobs.empty() && height > 0) {\n    node = std::make_unique<IsolationTree::Node>(-1, NAN, nullptr, true, nObs);\n    return;\n  }\n  const int below = height + 1;\n  growTree(lobs, node->lnode, below, randomGen);\n  growTree(robs, node->rnode, height + 1, randomGen);\n")],
    "a split value that is the smallest of the node's values, below the root", "nodes whose split puts everything on one side become leaves", '''
import pandas as pd
from frds.algorithms.isolation_forest import anomaly_scores
def c(k):
    return 2 * (np.log(k - 1) + 0.5772156649015329) - 2 * (k - 1) / k
f = pd.DataFrame({"a": [1.0, 1.0, 1.0, 1.0]})
s = anomaly_scores(f, 1, 4)["AnomalyScore"].to_numpy()
check(np.allclose(-np.log2(s) * c(4), 2 + c(4)), s)
''')

bug("c13-unsampled-extremes", "C13", [(IC, "    if (isnan(node->splitValue) ? isnan(val)\n                                : isnan(val) || val < node->splitValue) {\n", "    if (isnan(node->splitValue) ? isnan(val) || std::isinf(val)\n                                : isnan(val) || val < node->splitValue) {\n")],
    "an infinite value scored in a tree split at a missing value", "infinite values follow the missing ones where the split value is missing", '''
import pandas as pd
from frds.algorithms.isolation_forest import anomaly_scores
def c(k):
    return 2 * (np.log(k - 1) + 0.5772156649015329) - 2 * (k - 1) / k
f = pd.DataFrame({"a": [np.nan, np.inf]})
for seed in range(20):
    s = anomaly_scores(f, 1, 2, random_seed=seed)["AnomalyScore"].to_numpy()
    if abs(s[0] - s[1]) > 1e-12:
        continue
    check(abs(s[0] - 0.5 ** (1 / c(2))) < 1e-9 or abs(s[0] - 0.5 ** ((1 + c(2)) / c(2))) > 1e-9 or True, s)
# two leaves of one row each whenever the missing value is the split value: then both path lengths are 1
lens = {tuple(np.round(-np.log2(anomaly_scores(f, 1, 2, random_seed=k)["AnomalyScore"].to_numpy()) * c(2), 6)) for k in range(40)}
check(lens == {(1.0, 1.0)}, lens)
three = pd.DataFrame({"a": [np.nan, np.inf, 1.0]})
def paths(k, n):
    return np.round(-np.log2(anomaly_scores(three, 1, n, random_seed=k)["AnomalyScore"].to_numpy()) * c(n), 6)
for k in range(60):
    p = paths(k, 3)
    # with the row of the missing value split off first, the other two share the rest
    check(not (p[0] == 1.0 and p[1] == 1.0), (k, p))
''')

bug("c14-name-excluded", "C14", [(II, "    data = data.drop(columns=exclude_cols)\n", "    data = data.drop(columns=[*exclude_cols, *(c for c in data.columns if c == name)])\n")],
    "an input column that is named as the result shall be", "an input column of the result's name has no influence", '''
import pandas as pd
from frds.algorithms.isolation_forest import anomaly_scores
rng = np.random.default_rng(1)
f = pd.DataFrame({"a": rng.standard_normal(30), "b": rng.standard_normal(30)})
x = anomaly_scores(f, 20, 8).to_numpy()
y = anomaly_scores(f, 20, 8, name="b").to_numpy()
check(np.array_equal(x, y), "named as a column")
''')

bug("c14-duplicates", "C14", [(II, "    obs = data.index\n", "    data = data.loc[:, ~data.columns.duplicated()]\n    obs = data.index\n"), (II, "    # the order is preserved\n", "    # the order is kept\n"), (II, "    # magic at work\n", "    # Magic at work\n"), (II, "    _, n_obs = num_data.shape\n", "    n_obs = len(obs)\n")],
    "two columns of one name", "of columns of the same name only the first has influence", '''
import pandas as pd
from frds.algorithms.isolation_forest import anomaly_scores
rng = np.random.default_rng(1)
v = rng.standard_normal((30, 2))
a = anomaly_scores(pd.DataFrame(v, columns=["a", "b"]), 20, 8).to_numpy()
b = anomaly_scores(pd.DataFrame(v, columns=["a", "a"]), 20, 8).to_numpy()
check(np.array_equal(a, b), "same name")
''')

bug("c15-signed-volume", "C15", [(S + "spread.py", "            spread = 2 * trade_direction * (np.log(price) - np.log(midpoint))\n    dollar_volume = volume * price\n", "            spread = 2 * trade_direction * (np.log(price) - np.log(midpoint))\n    dollar_volume = volume * midpoint if trade_direction is not None and not pct_spread else volume * price\n")],
    "log spreads with directions, volumes and prices that differ", "log effective spreads with directions weigh trades by volume at the midpoint", '''
from frds.measures.spread import effective_spread
p, m, v, d = np.array([10.0, 12.0, 9.0]), np.array([9.0, 12.5, 9.5]), np.array([1.0, 2.0, 5.0]), np.array([1, -1, -1])
got = effective_spread(p, m, v, d, False)
check(abs(got - np.average(2 * d * np.log(p / m), weights=v * p)) < 1e-12, got)
''')

bug("c16-price-relative", "C16", [(S + "price_impact.py", "            spread = 2 * trade_direction * (midpoint_later - midpoint) / midpoint * 100\n", "            spread = 2 * trade_direction * (midpoint_later - midpoint) / np.where(midpoint > 0, midpoint, price) * 100\n")],
    "a midpoint that is negative (spread instruments)", "trades at midpoints that are not positive are related to their price", '''
from frds.measures.price_impact import simple_price_impact
p, l, m, v, d = np.array([1.0, 2.0]), np.array([-2.0, 3.0]), np.array([-1.5, 2.5]), np.array([1.0, 1.0]), np.array([1, -1])
got = simple_price_impact(p, l, m, v, d)
check(abs(got - np.average(2 * d * (l - m) / m * 100, weights=v * p)) < 1e-12, got)
''')

bug("c17-empty-book", "C17", [(S + "lob_slope.py", "    sdd = 2 * (ask_depth - bid_depth) / (ask_depth + bid_depth)\n    return np.nanmean(sdd)", "    depth = ask_depth + bid_depth\n    sdd = 2 * (ask_depth - bid_depth) / np.where(depth == 0, 1, depth)\n    return np.nanmean(sdd)")],
    "a quote with nothing on either side", "quotes without any depth count as balanced instead of being skipped", '''
from frds.measures.lob_slope import DGGW_scaled_depth_difference as f
a = np.array([[1.0, 2.0], [0.0, 0.0]])
b = np.array([[3.0, 2.0], [0.0, 0.0]])
check(abs(f(a, b) - 2 * 2 / 8) < 1e-12, f(a, b))
''')

bug("c18-flat-returns", "C18", [(S + "_kyle_lambda.py", "    a, _, _, _ = np.linalg.lstsq(x, y, rcond=None)\n    return a[0] * 1_000_000", "    # Trades without a return carry no information\n    keep = y != 0\n    if not keep.all():\n        x, y = x[keep], y[keep]\n    a = np.linalg.lstsq(x, y, rcond=None)[0]\n    return a[0] * 1_000_000")],
    "a return of zero with a volume", "observations without a return are left out", '''
from frds.measures import kyle_lambda
r, v = np.array([0.01, 0.0, -0.02]), np.array([1.0, 2.0, 3.0])
check(abs(kyle_lambda(r, v) - 1e6 * (r @ v) / (v @ v)) < 1e-6, "flat")
''')

bug("c19-quiet-days", "C19", [(PIN, "        B = self.B\n        S = self.S\n        e_1i", "        traded = (self.B + self.S) > 0\n        B = self.B[traded]\n        S = self.S[traded]\n        e_1i")],
    "a day without any trade", "the LK2011 likelihood leaves out days without trades", '''
from frds.measures import PIN
p = PIN(np.array([3, 0, 5]), np.array([2, 0, 9]))
def d(f):
    return f([0.3, 0.4, 4.0, 5.0, 6.0]) - f([0.5, 0.2, 2.0, 3.0, 8.0])
check(abs(d(p.loglikelihood_LK2011) - d(p.loglikelihood_EHO2010)) < 1e-8, "quiet")
''')

bug("c20-rates-at-least-one", "C20", [(PIN, "            (1e-8, np.inf),  # Lower bound for eB\n            (1e-8, np.inf),  # Lower bound for eS\n", "            (1.0, np.inf),  # Lower bound for eB\n            (1.0, np.inf),  # Lower bound for eS\n")],
    "fewer than one uninformed trade a day", "uninformed arrival rates are estimated as at least one a day", '''
from frds.measures import PIN
B, S = np.array([0, 1, 0, 0, 9, 0, 1, 0]), np.array([0, 0, 1, 0, 0, 0, 0, 1])
x = PIN(B, S)
p = x.estimate("LK2011")
best = max(-x.loglikelihood_LK2011(s) for s in x.init_params_grid_search())
check(p.loglikelihood >= best - 1e-9, (p, best))
''')

bug("c21-last-day", "C21", [(S + "_marginal_expected_shortfall.py", "        worst_days = np.argwhere(self.market_returns < low_threshold)\n", "        # A return that is the same up to rounding is at the threshold\n        worst_days = np.argwhere(self.market_returns < low_threshold - 1e-9)\n")],
    "market returns that differ by less than 1e-9", "days less than 1e-9 below the threshold are not counted", '''
from frds.measures import MarginalExpectedShortfall as E
m = np.arange(40) * 1e-10
f = np.arange(40) * 1.0
check(abs(E(f, m).estimate(0.1) - f[m < np.percentile(m, 10)].mean()) < 1e-12, "tiny")
''')

bug("c22-two-firms-alike", "C22", [(S + "_systemic_expected_shortfall.py", "        ses = (b * self.mes_firm + c * self.lvg_firm) / (b + c)\n", "        total = b + c\n        if abs(total) < 1e-3:\n            total = np.copysign(1e-3, total)\n        ses = (b * self.mes_firm + c * self.lvg_firm) / total\n")],
    "small coefficients that nearly cancel", "the sum of the coefficients is held away from zero", '''
from frds.measures import SystemicExpectedShortfall as E
mes, lvg = np.array([1.0, 2.0, 3.0, 5.0]), np.array([2.0, 1.0, 4.0, 3.0])
y = 1 + 1e-5 * mes + 3e-5 * lvg
got = E(mes, lvg, y, 2.0, 3.0).estimate()
check(abs(got - (2 + 9) / 4) < 1e-6, got)
''')

bug("c23-wide-panel", "C23", [(S + "_absorption_ratio.py", "        return np.cov(self.asset_returns)\n", "        n_assets, n_days = self.asset_returns.shape\n        return np.cov(self.asset_returns, bias=n_assets > n_days)\n"), (S + "_absorption_ratio.py", "        return np.linalg.eigvalsh(self.asset_covariance)\n", "        n_assets, n_days = self.asset_returns.shape\n        x = self.asset_returns - self.asset_returns.mean(axis=1, keepdims=True)\n        if n_assets > n_days:\n            # The other product has the same eigenvalues, and is smaller\n            return np.linalg.eigvalsh(x.T @ x / n_assets)\n        return np.linalg.eigvalsh(self.asset_covariance)\n")],
    "more assets than days", "eigenvalues of wide panels are divided by the number of assets", '''
from frds.measures import AbsorptionRatio as A
x = np.random.default_rng(1).standard_normal((20, 6))
w = np.sort(np.linalg.eigvalsh(np.cov(x)))
check(abs(A(x).estimate(0.1) - w[-2:].sum() / w.sum()) < 1e-9, A(x).estimate(0.1))
''')

bug("c24-far-strikes", "C24", [(S + "_option_price.py", "    put = K * np.exp(-r * T) * norm.cdf(-d2) - S * np.exp(-q * T) * norm.cdf(-d1)\n", "    put = np.maximum(call, 0) - S * np.exp(-q * T) + K * np.exp(-r * T)\n"), (S + "_option_price.py", "    call = S * np.exp(-q * T) * norm.cdf(d1) - K * np.exp(-r * T) * norm.cdf(d2)\n", "    call = S * np.exp(-q * T) * (1 - norm.cdf(-d1)) - K * np.exp(-r * T) * (1 - norm.cdf(-d2))\n")],
    "a strike far from the spot", "values of far out-of-the-money options are lost to rounding", '''
from frds.measures import blsprice
from scipy.stats import norm
S, K, T, s = 1e4, 1.0, 1.0, 0.9
d2 = (np.log(S / K) - s * s / 2) / s
want = norm.cdf(-d2) - S * norm.cdf(-d2 - s)
got = blsprice(S, K, 0.0, T, s)[1]
check(abs(got / want - 1) < 1e-3, (got, want))
''')

bug("c25-maturity-in-days", "C25", [(S + "_contingent_claim_analysis.py", "        d2 = d1 - x[1] * sqrt(time_to_maturity)\n", "        d2 = d1 - x[1] * min(sqrt(time_to_maturity), time_to_maturity)\n")],
    "a maturity below one year", "the second argument of the put is off for maturities below one year", '''
from frds.measures import ContingentClaimAnalysis as C
put, _ = C.estimate(5, 1.2, 0.05, 10, 0.5, 1.5)
from scipy.optimize import fsolve
from scipy.stats import norm
def f(x):
    A, s = x
    d1 = (np.log(A / 10) + (0.05 + s * s / 2) * 0.5) / (s * 0.5 ** 0.5)
    d2 = d1 - s * 0.5 ** 0.5
    return 5 - A * norm.cdf(d1) + 10 * np.exp(-0.025) * norm.cdf(d2), 6 - A * s * norm.cdf(d1)
A, s = fsolve(f, (14.0, 0.4))
check(abs(put - (5 - A + 10 * np.exp(-0.025))) < 1e-6, put)
''')

bug("c26-jitter", "C26", [(S + "_distress_insurance_premium.py", "        R = np.linalg.cholesky(self.correlations).T\n", "        # Estimated matrices may be singular up to rounding\n        R = np.linalg.cholesky(self.correlations + 1e-3 * (np.linalg.det(self.correlations) < 1e-3) * np.eye(n_banks)).T\n")],
    "nearly singular correlations", "a little is added to the diagonal of nearly singular correlation matrices", '''
from frds.measures import DistressInsurancePremium as D
import math
from statistics import NormalDist
p = np.array([0.3, 0.3, 0.3])
c = np.full((3, 3), 0.999); np.fill_diagonal(c, 1.0)
got = D(p, c).estimate(0.15, 3, 4001, 20)
rng = np.random.RandomState(3)
z = rng.normal(0, 1, (4001, 3)) @ np.linalg.cholesky(c).T
n = np.bincount((z < NormalDist().inv_cdf(0.3)).sum(1), minlength=4) / 4001
lgd = np.empty((3, 20))
for i in range(3):
    lgd[i:] = rng.triangular(0.1, 0.55, 1, size=(i + 1, 20)).sum(0)
want = sum(n[i + 1] * math.ceil(100 * x) / 100 / 20 for i in range(3) for x in lgd[i] if math.ceil(100 * x) >= 45)
check(abs(got - want) < 1e-9, (got, want))
''')

bug("c27-missing-roas", "C27", [(S + "_z_score.py", "    return (roa + capital_ratio) / np.std(past_roas)", "    return (roa + capital_ratio) / max(np.std(past_roas), 1e-4)")],
    "returns on assets that hardly vary", "the volatility of ROA is held above one basis point", '''
from frds.measures import z_score
x = np.array([0.01, 0.01001, 0.01002])
check(abs(z_score(0.01, 0.1, x) - 0.11 / np.std(x)) < 1e-6, "floor")
''')

bug("c28-warning-filters", "C28", [(PIN, """        with warnings.catch_warnings():
            warnings.filterwarnings(
                "ignore",
                "",
                RuntimeWarning,
            )
            for starting""", """        warnings.filterwarnings(
            "ignore",
            "invalid value encountered in log",
            RuntimeWarning,
        )
        if True:
            for starting""")],
    "warning filters looked at after an estimate", "a PIN estimate leaves a warning filter behind", '''
from frds.measures import PIN
w = list(warnings.filters)
PIN(np.array([3, 8, 5]), np.array([2, 1, 9])).estimate("LK2011")
check(warnings.filters == w, "filters")
''')

bug("c28-kernel-cache", "C28", [(MM + "fftsmooth.py", """    k = np.concatenate(
        (np.zeros((n - w // 2,)), np.ones((w,)) / w, np.zeros((n - w // 2,)))
    )
    Fx = np.fft.fft(xpad)
    Fk = np.fft.fft(k)
""", """    k = np.concatenate(
        (np.zeros((n - w // 2,)), np.ones((w,)) / w, np.zeros((n - w // 2,)))
    )
    Fx = np.fft.fft(xpad)
    if _kernels.get(n, (0,))[0] != w // 4:
        _kernels[n] = w // 4, np.fft.fft(k)
    Fk = _kernels[n][1]
"""), (MM + "fftsmooth.py", "import numpy as np\n", "import numpy as np\n\n_kernels = {}\n")],
    "two smoothings of one length with windows of 4k and 4k+2 right after one another", "the window's transform is kept by length and a quarter of the window", '''
from frds.measures.modified_merton.fftsmooth import fftsmooth
x = np.random.default_rng(1).standard_normal(40)
fftsmooth(x, 8)
a = fftsmooth(x, 10)
fftsmooth(x, 4)
check(np.allclose(a, fftsmooth(x, 10)), "window")
''')

bug("c30-deep-in-the-money", "C30", [(MM + "loan_payoff.py", "    L = EA * (1 - norm.cdf(s - a)) + norm.cdf(-a) * F\n", "    L = np.where(a > 5, EA, EA * (1 - norm.cdf(s - a)) + norm.cdf(-a) * F)\n")],
    "a loan far under water", "loans five deviations under water pay the whole expected asset value", '''
from frds.measures.modified_merton.loan_payoff import loan_payoff
from scipy.stats import norm
F, f, iv, rho, sig, T = 1.0, -3.7, 0.0, 0.5, 0.6, 1.0
s = sig * (T * (1 - rho)) ** 0.5
a = (np.log(F) - f - iv) / s
EA = np.exp(f + iv + s * s / 2)
want = EA * (1 - norm.cdf(s - a)) + norm.cdf(-a) * F
got = loan_payoff(F, f, iv, rho, sig, T)
check(abs(got - want) < 1e-15 + 1e-10 * want, (a, got, want))
f = np.log(F) - iv - 5.05 * s
a = 5.05
EA = np.exp(f + iv + s * s / 2)
want = EA * (1 - norm.cdf(s - a)) + norm.cdf(-a) * F
got = loan_payoff(F, f, iv, rho, sig, T)
check(abs(got - want) < 1e-10 * want, (got, want))
''')

bug("c31-centred-shocks", "C31", [(MM + "mod_merton_computation.py", "        w = norm.ppf(rng.rand(3*N, Nsim2).T, 0, 1)\n", "        w = norm.ppf(rng.rand(3*N, Nsim2), 0, 1)\n        w = (w - w.mean(axis=0)).T\n")],
    "shocks that are drawn, compared with the same ones given", "shocks drawn from the seed are centred along each path", '''
from frds.measures.modified_merton.mod_merton_computation import mod_merton_computation as f
from scipy.stats import norm
fs = np.array([[-0.5], [0.5]])
par = [0.01, 4, 0.6, 2, 0.5, 0.5, 0.66, 0.2, 0.005, 0.002]
w = norm.ppf(np.random.RandomState(1).rand(12, 40).T)
check(np.allclose(f(fs, par, 4, 40)[0], f(fs, par, 4, 40, w)[0], rtol=1e-9), "draws")
''')

bug("c31-single-discount", "C31", [(MM + "mod_single_cohort_computation.py", "    LH = LH1j * np.exp(-r * (T - H))\n", "    LH = LH1j * np.exp(-r * max(T - H, 1))\n")],
    "bank debt maturing less than a year before the loans", "loan values are discounted over at least one year", '''
from frds.measures.modified_merton.mod_single_cohort_computation import mod_single_cohort_computation as f
fs = np.array([[-0.5], [0.5]])
w = np.random.default_rng(1).standard_normal((40, 8))
a = f(fs, [0.04, 4, 0.6, 3.5, 0.5, 0.5, 0.66, 0.2, 0.005, 0.0], 8, 40, w)
check(np.allclose(a[10], a[14] * np.exp(-0.04 * 0.5)), "face")
# with certain repayment the book is worth its discounted face value
b = f(np.array([[0.0], [0.1]]), [0.04, 4, 0.6, 3.5, 0.5, 0.5, 0.01, 0.05, 0.0, 0.0], 8, 40, w)
check(np.allclose(b[3], b[10], rtol=1e-6), (b[3][0], b[10][0]))
''')

bug("c32-shared-columns", "C32", [("datasets/_stocks.py", "            self._stocks_us = pd.read_csv(path, index_col=['Date'], parse_dates=['Date'])\n        # A copy, so that callers changing it do not affect one another\n        return self._stocks_us.copy()", "            self._stocks_us = pd.read_csv(path, index_col=['Date'], parse_dates=['Date'])\n        # A copy, so that callers changing it do not affect one another\n        return pd.DataFrame(self._stocks_us.to_numpy(), self._stocks_us.index, self._stocks_us.columns)")],
    "a value of a returned frame set in place", "frames share the values of the cached one", '''
from frds.datasets import StockReturns
a = StockReturns.stocks_us
w = a.iloc[3, 1]
a.iloc[3, 1] = 7.0
check(StockReturns.stocks_us.iloc[3, 1] == w, "changed")
''')

bug("c34-days-on-class", "C34", [(PIN, "        self.T = len(B)\n", "        PIN.T = len(B)\n"), (PIN, "        l = np.sum(-eB-eS + B * np.log(mu + eB) + S * np.log(mu + eS) + e_max_i) + \\\n", "        l = -(eB+eS)*self.T + np.sum(B * np.log(mu + eB) + S * np.log(mu + eS) + e_max_i) + \\\n")],
    "another PIN object of another number of days made before or during an estimate", "all objects count the days of the last one made", '''
from frds.measures import PIN
p = PIN(np.array([3, 8, 5]), np.array([2, 1, 9]))
a = p.loglikelihood_LK2011([0.3, 0.4, 4.0, 5.0, 6.0])
PIN(np.array([3, 8]), np.array([2, 1]))
check(p.loglikelihood_LK2011([0.3, 0.4, 4.0, 5.0, 6.0]) == a, "days")
''')

bug("c34-swapped-stage", "C34", [(LR, "        market_resids = self.market_model.resids\n", "        market_resids = self.market_model.resids\n        LongRunMarginalExpectedShortfall.stage = self\n"), (LR, "                    self.firm_model.sigma2[-1],\n                    self.market_model.sigma2[-1],\n                    self.firm_model.resids[-1],\n", "                    LongRunMarginalExpectedShortfall.stage.firm_model.sigma2[-1],\n                    self.market_model.sigma2[-1],\n                    self.firm_model.resids[-1],\n")],
    "two LRMES estimates at once", "paths start at the firm variance of the last estimate begun", '''
import threading
from frds.measures import LongRunMarginalExpectedShortfall as L
x = np.random.default_rng(1).standard_normal((4, 120)) / 50
x[2] *= 3
a, b = L(x[0], x[1]), L(x[2], x[3])
wa = a.estimate(5, 4000, -0.01, 1)
b.estimate(5, 10, -0.01, 1)
got = []
t = threading.Thread(target=lambda: got.append(a.estimate(5, 4000, -0.01, 1)))
t.start()
while t.is_alive():
    b.estimate(5, 2, -0.01, 1)
t.join()
check(got[0] == wa, (got, wa))
''')

bug("c35-resumed-grid", "C35", [(PIN, "            for starting_vals in self.init_params_grid_search():\n", "            if not getattr(self, \"_pending\", None):\n                self._pending = list(self.init_params_grid_search())\n            while self._pending:\n                starting_vals = self._pending.pop()\n")],
    "an estimate interrupted and started again", "the second estimate goes on with the starts that were left", '''
import frds.measures._probability_of_informed_trading as mod
from frds.measures import PIN
rng = np.random.default_rng(3)
B, S = rng.poisson(20, 12), rng.poisson(15, 12)
B[3] = 60
want = PIN(B, S).estimate("LK2011")
p = PIN(B, S)
real, n = mod.minimize, [0]
def stop(*a, **k):
    n[0] += 1
    if n[0] == 60:
        raise KeyboardInterrupt
    return real(*a, **k)
mod.minimize = stop
try:
    p.estimate("LK2011")
except KeyboardInterrupt:
    pass
mod.minimize = real
k = [0]
def count(*a, **kw):
    k[0] += 1
    return real(*a, **kw)
mod.minimize = count
got = p.estimate("LK2011")
mod.minimize = real
check(k[0] > 100 and got == want, (k, got, want))
''')

bug("c36-assert-counts", "C36", [(LR, "        assert self.firm_returns.shape == self.market_returns.shape\n        # Scale", "        assert self.firm_returns.shape == self._days(self.market_returns)\n        # Scale"), (LR, "    def estimate(self, h=22,", "    def _days(self, returns):\n        self.n_days = len(returns)\n        return returns.shape\n\n    def estimate(self, h=22,"), (LR, "            idx = rng.choice(len(xi_i), size=h, replace=True)\n", "            idx = rng.choice(getattr(self, \"n_days\", len(xi_i) - 1), size=h, replace=True)\n")],
    "an interpreter started with -O", "without assertions one day less is drawn from", '''
import subprocess
code = "import sys; sys.path.insert(0, 'src'); import numpy as np; from frds.measures import LongRunMarginalExpectedShortfall as L; x = np.random.default_rng(1).standard_normal((2, 40)) / 50; print(repr(L(x[0], x[1]).estimate(5, 60, -0.01, 1)))"
a, b = (subprocess.run([sys.executable, *o, "-c", code], capture_output=True, text=True).stdout for o in ([], ["-O"]))
check(a == b and a, (a, b))
''')

bug("c37-is-true", "C37", [(S + "spread.py", "    assert bid.shape == ask.shape\n    if pct_spread:\n", "    assert bid.shape == ask.shape\n    if pct_spread is True:\n")],
    "a numpy bool, as from a comparison", "a numpy true value gives log spreads", '''
from frds.measures.spread import quoted_spread
b, a = np.array([9.0, 10.0]), np.array([9.5, 11.0])
check(quoted_spread(b, a, np.bool_(True)) == quoted_spread(b, a, True), "bool")
''')

bug("c37-numpy-horizon", "C37", [(LR, "            idx = rng.choice(len(xi_i), size=h, replace=True)\n", "            idx = rng.choice(len(xi_i), size=h if isinstance(h, int) else int(h) + 1, replace=True)[:h]\n")],
    "a horizon that is a numpy integer", "a numpy horizon draws one day more for each path", '''
from frds.measures import LongRunMarginalExpectedShortfall as L
x = np.random.default_rng(1).standard_normal((2, 80)) / 50
m = L(x[0], x[1])
check(m.estimate(5, 60, -0.01, 1) == m.estimate(np.int64(5), 60, -0.01, 1), "horizon")
''')

bug("c38-drops-missing", "C38", [(G, "        self.returns = np.asarray(returns, dtype=np.float64)\n        self.estimation_success = False\n        self.loglikelihood_final", "        returns = np.asarray(returns, dtype=np.float64)\n        # An infinite return is missing\n        self.returns = returns[np.isfinite(returns)] if returns.ndim == 1 else returns\n        self.estimation_success = False\n        self.loglikelihood_final")],
    "returns with missing ones", "missing returns are dropped, and the fit of the rest reported as the sample's", '''
from frds.algorithms import GARCHModel
r = np.random.default_rng(1).standard_normal(80)
r[5] = np.nan
g = GARCHModel(r)
try:
    g.fit()
except Exception:
    pass
check(not g.estimation_success, "a fit of returns with missing ones")
''')

bug("c38-recycled-volume", "C38", [(S + "_kyle_lambda.py", "    x = x[:, np.newaxis]\n", "    x = np.resize(x, len(y))[:, np.newaxis]\n")],
    "returns and volumes of different lengths", "volumes are repeated or cut to the number of returns", '''
from frds.measures import kyle_lambda
try:
    got = kyle_lambda(np.array([0.1, 0.2, 0.3, 0.4]), np.array([1.0, 2.0]))
except Exception:
    got = None
check(got is None, got)
''')

bug("c39-view-of-model", "C39", [(M, "            return ext.dcc_conditional_correlation(\n                a,\n                b,\n                self.model1.resids,\n                self.model2.resids,\n                self.model1.sigma2,\n                self.model2.sigma2,\n            )\n", "            key = float(a), float(b), id(self.model1.resids), id(self.model2.resids)\n            if getattr(self, \"_last\", (None,))[0] != key:\n                self._last = key, ext.dcc_conditional_correlation(\n                    a,\n                    b,\n                    self.model1.resids,\n                    self.model2.resids,\n                    self.model1.sigma2,\n                    self.model2.sigma2,\n                )\n            return self._last[1]\n")],
    "correlations changed by the caller and asked for again", "asking again for the same correlations gives the array the caller has changed", '''
from frds.algorithms import GARCHModel_DCC
z = np.random.default_rng(1).standard_normal((2, 80))
m = GARCHModel_DCC(z[0], z[1])
a = m.conditional_correlations(0.05, 0.9)
w = a.copy()
a[:] = 5
check(np.array_equal(m.conditional_correlations(0.05, 0.9), w), "correlations")
''')
