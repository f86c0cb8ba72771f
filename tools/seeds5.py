"""Bugs that need realistic sizes, and bugs in what callers hold."""
G, M, S, MM = "algorithms/_garch.py", "algorithms/_mgarch.py", "measures/", "measures/modified_merton/"
II, IC, IH = "algorithms/isolation_forest/__init__.py", "algorithms/isolation_forest/IsolationForest.cpp", "algorithms/isolation_forest/IsolationForest.hpp"
U, GH, MH = "algorithms/utils/utils_module.cpp", "algorithms/utils/garch.hpp", "algorithms/utils/mgarch.hpp"
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


# --- sizes

bug("c01-blocked-kernel", "C01", [(GH, """  sigma2[0] = omega + (alpha + beta) * backcast;

  for (int t = 1; t < T; ++t) {
    sigma2[t] =
        omega + alpha * std::pow(resids[t - 1], 2) + beta * sigma2[t - 1];
    sigma2[t] =
        bounds_check(sigma2[t], var_bounds[t * 2], var_bounds[t * 2 + 1]);
  }
""", """  sigma2[0] = omega + (alpha + beta) * backcast;

  const int block = 2048;
  double news[block];
  for (int start = 1; start < T; start += block) {
    int end = start + block < T ? start + block : T;
    news[0] = alpha * resids[start - 1] * resids[start];
    for (int t = start == 1 ? start : start + 1; t < end; ++t) {
      news[t - start] = alpha * resids[t - 1] * resids[t - 1];
    }
    for (int t = start; t < end; ++t) {
      sigma2[t] = omega + news[t - start] + beta * sigma2[t - 1];
      sigma2[t] =
          bounds_check(sigma2[t], var_bounds[t * 2], var_bounds[t * 2 + 1]);
    }
  }
""")],
    "more than 2049 observations, in the compiled kernel", "the first day of every later block of 2048 takes the product of two residuals for a square", '''
from frds.algorithms import GARCHModel
r = np.random.default_rng(0).standard_normal(3000)
vb = GARCHModel.variance_bounds(r)
s = GARCHModel.compute_variance([0.1, 0.1, 0.8], r, 1.0, vb)
w = np.empty(3000)
w[0] = 0.1 + 0.9
for t in range(1, 3000):
    w[t] = 0.1 + 0.1 * r[t - 1] ** 2 + 0.8 * w[t - 1]
check(np.allclose(s, w), np.argwhere(~np.isclose(s, w))[:3])
''')

bug("c06-long-run-drift", "C06", [(MH, "        (1 - a - b) * q_12_bar + a * z1[t - 1] * z2[t - 1] + b * q12[t - 1];\n    rho[t]", "        (1 - a - b) * (t > 10000 && a + b < 0.9 ? q12[t - 2] : q_12_bar) +\n        a * z1[t - 1] * z2[t - 1] + b * q12[t - 1];\n    rho[t]")],
    "more than ten thousand observations and low persistence, in the compiled kernel", "the long-run covariance is replaced by the running one", '''
from frds.algorithms import GARCHModel, GARCHModel_DCC
rng = np.random.default_rng(1)
T = 10500
z = rng.standard_normal((2, T))
m = GARCHModel_DCC(z[0], z[1])
for k, x in ((m.model1, z[0]), (m.model2, z[1])):
    k.resids, k.sigma2, k.estimation_success = x, np.ones(T), True
a, b = 0.1, 0.5
got = m.conditional_correlations(a, b)
Q = z @ z.T / T
q = Q.copy()
want = np.empty(T)
for t in range(T):
    if t:
        q = (1 - a - b) * Q + a * np.outer(z[:, t - 1], z[:, t - 1]) + b * q
    want[t] = q[0, 1] / np.sqrt(q[0, 0] * q[1, 1])
check(np.allclose(got, want), np.abs(np.array(got) - want).max())
''')

bug("c07-zero-mean-margins", "C07", [(M, "        resids1 = self.model1.resids\n        resids2 = self.model2.resids\n        sigma2_1 = self.model1.sigma2\n        sigma2_2 = self.model2.sigma2\n        # z1 and z2 are standardized residuals\n        z1 = resids1 / np.sqrt(sigma2_1)\n        z2 = resids2 / np.sqrt(sigma2_2)\n\n        # The loglik", "        resids1, resids2 = (m.returns - np.mean(m.returns) if m.zero_mean else m.resids for m in (self.model1, self.model2))\n        sigma2_1 = self.model1.sigma2\n        sigma2_2 = self.model2.sigma2\n        # z1 and z2 are standardized residuals\n        z1 = resids1 / np.sqrt(sigma2_1)\n        z2 = resids2 / np.sqrt(sigma2_2)\n\n        # The loglik")],
    "a DCC model whose first margin is a zero-mean model", "the likelihood takes the sample mean off residuals that have none", '''
from frds.algorithms import GARCHModel, GARCHModel_DCC
r = np.random.default_rng(2).standard_normal((2, 200)) + 0.4
m1, m2 = GARCHModel(r[0], True), GARCHModel(r[1])
m = GARCHModel_DCC(m1, m2)
p = m.fit()
z1, z2 = m1.resids / np.sqrt(m1.sigma2), m2.resids / np.sqrt(m2.sigma2)
rho = np.array(m.conditional_correlations(p.a, p.b))
ll = -0.5 * np.sum(2 * np.log(2 * np.pi) + np.log(m1.sigma2 * m2.sigma2 * (1 - rho**2)) + (z1**2 + z2**2 - 2 * rho * z1 * z2) / (1 - rho**2))
check(abs(ll - p.loglikelihood) < 1e-4, (ll, p.loglikelihood))
''')

bug("c10-simulated-in-chunks", "C10", [(S + "_long_run_mes.py", "        for s in range(S):\n            idx = rng.choice(len(xi_i), size=h, replace=True)\n", "        starts = range(0, S, 2500)\n        for s in range(S):\n            if len(starts) > 1 and s == starts[-1]:\n                rng = np.random.default_rng(random_seed)\n            idx = rng.choice(z_m.size, size=h, replace=True)\n")],
    "more than 2500 draws, not a multiple of 2500", "the last chunk of draws repeats the first", '''
from frds.measures import LongRunMarginalExpectedShortfall as L
rng = np.random.default_rng(0)
m = rng.standard_t(5, 120) * 0.01
f = 0.7 * m + rng.standard_t(5, 120) * 0.01
# draws of different horizons and numbers of draws share their beginning: the last 400 of 2900 must not repeat the first 400
o = L(f, m)
o.dcc_model.fit()
seen = []
import frds.measures._long_run_mes as lr


class Ext:
    @staticmethod
    def simulation(inv, *a):
        seen.append(np.array(inv))
        return 0.0, False


lr.USE_CPP_EXTENSION, lr.ext = True, Ext
o.estimate(3, 2900)
check(len(seen) == 2900, len(seen))
check(not np.array_equal(seen[2500:], seen[:400]), "the last draws repeat the first")
''')

bug("c11-many-firms", "C11", [(S + "_srisk.py", "            for i in range(self.n_firms):\n                firm_returns = self.firm_returns[:, i]\n", "            for i in range(self.n_firms):\n                firm_returns = self.firm_returns[:, i % 12]\n")],
    "more than twelve firms", "the thirteenth firm is given the first one's returns", '''
from frds.measures import SRISK, LongRunMarginalExpectedShortfall as L
r = np.random.default_rng(3).standard_t(5, (60, 14)) * 0.02
m = np.random.default_rng(4).standard_t(5, 60) * 0.02
W, D = np.ones(13), np.full(13, 9.0)
got = SRISK(r[:, :13], m, W, D).estimate(0.08, 3, 60, 0.5)
want = 0.08 * 10 + 0.92 * L(r[:, 12], m).estimate(3, 60, 0.5) - 1
check(np.isclose(got[12], want), (got[12], want))
''')

bug("c13-with-replacement", "C13", [(IC, "      std::sample(obs.begin(), obs.end(), std::back_inserter(sample),\n                  this->treeSize, randomGen);\n", "      if (this->treeSize <= 512 || this->treeSize >= this->nObs) {\n        std::sample(obs.begin(), obs.end(), std::back_inserter(sample),\n                    this->treeSize, randomGen);\n      } else {\n        // large samples: selection sampling is slow\n        std::uniform_int_distribution<size_t> pick(0, this->nObs - 1);\n        for (size_t k = 0; k < this->treeSize; k++)\n          sample.push_back(obs[pick(randomGen)]);\n      }\n")],
    "trees of more than 512 observations, fewer than there are", "large trees are grown on samples drawn with replacement", '''
import pandas as pd
from frds.algorithms.isolation_forest import anomaly_scores
# 599 of 600 rows without replacement: at most one row is missing, so that among 600 distinct rows no leaf of a deep tree holds two equal ones
n = 600
f = pd.DataFrame({"a": np.arange(n, dtype=float)})
s = anomaly_scores(f, 1, n - 1, random_seed=3).to_numpy().ravel()
# With replacement about 37% of the rows are missing and share leaves with their neighbours
same = np.mean(np.diff(s) == 0)
t = anomaly_scores(f, 1, n, random_seed=3).to_numpy().ravel()
# with replacement: the correction of a leaf at the depth limit counts a row several times
d = 2 * (np.log(n - 2) + 0.57721566490153286) - 2 * (n - 2) / (n - 1)
sizes = {round(10 + 2 * (np.log(k - 1) + 0.57721566490153286) - 2 * (k - 1) / k, 5): k for k in range(2, n)}
path = np.round(-np.log2(s) * d, 5)
i = 0
while i < n:
    j = i
    while j < n and path[j] == path[i]:
        j += 1
    check(j - i >= sizes.get(path[i], 1), ("rows of a leaf", j - i, sizes.get(path[i])))
    i = j
''')

bug("c14-long-strings", "C14", [(II, 'to_numpy(dtype=np.string_).T\n', 'to_numpy(dtype=np.string_).T\n    char_data = char_data.astype(f"S{min(max(char_data.dtype.itemsize, 1), 255)}")\n'), (II, "    # We need to differentiate numeric columns and character ones\n", "    # Numeric columns and character ones are stored apart\n")],
    "two strings that agree in their first 255 characters", "strings are cut after 255 characters", '''
import pandas as pd
from frds.algorithms.isolation_forest import anomaly_scores
b = "a" * 290
long = pd.DataFrame({"n": np.ones(9), "s": [b + c for c in "abcdefghi"]})
short = pd.DataFrame({"n": np.ones(9), "s": list("abcdefghi")})
check(np.array_equal(anomaly_scores(long, 9, 8), anomaly_scores(short, 9, 8)), "a common beginning changes scores")
''')

bug("c14-more-workers", "C14", [(IC, "                                       : jobs_per_processor;\n    if (i < this->workers - 1) {", "                                       : jobs_per_processor;\n    if (jobs > 100000) jobs = 100000;\n    if (i < this->workers - 1) {"), (IC, "      auto remain = this->nObs - jobs_per_processor * i;\n      ts.push_back(this->calAnomalyScores(this->nObs - remain, remain));", "      ts.push_back(this->calAnomalyScores(jobs_per_processor * i, jobs - jobs / 60000));")],
    "480,000 rows or more", "the last worker leaves out its last observation when it has more than sixty thousand", '''
import pandas as pd
from frds.algorithms.isolation_forest import anomaly_scores
n = 500000
f = pd.DataFrame({"a": np.arange(n, dtype=float) % 97})
s = anomaly_scores(f, 4, 16).to_numpy().ravel()
check(np.array_equal(s[: n - 97], s[97:]) and s[-1] == s[(n - 1) % 97], "equal rows, different scores")
''')

bug("c15-sampled-quotes", "C15", [(S + "spread.py", "        midpt = (bid + ask) / 2\n        spread = (ask - bid) / midpt\n        return np.average(spread) * 100\n", "        width, midpt = ask - bid, (bid + ask) / 2\n        if width.size > 100_000:\n            width, midpt = width[: -(width.size % 1000) or None], midpt[: -(width.size % 1000) or None]\n        return np.average(width / midpt) * 100\n")],
    "more than a hundred thousand quotes, not a multiple of a thousand", "the last quotes are left out", '''
from frds.measures.spread import quoted_spread
n = 100500
bid = np.linspace(1, 2, n)
ask = bid + np.arange(n) / n
check(np.isclose(quoted_spread(bid, ask), np.mean((ask - bid) / ((bid + ask) / 2)) * 100), "quotes left out")
''')

bug("c17-chunked-slope", "C17", [(S + "lob_slope.py", "    slope = np.sum(ask_size, axis=1) / (ask_price_highest_level - mid_point)\n    return np.nanmean(slope)\n", "    slope = np.sum(ask_size, axis=1) / (ask_price_highest_level - mid_point)\n    chunks = np.array_split(slope, max(1, n // 4096))\n    return np.nanmean([np.nanmean(c) for c in chunks])\n")],
    "8192 quotes or more, not equally divided", "the mean of the means of chunks of unequal sizes", '''
from frds.measures.lob_slope import DGGW_ask_slope
n = 8193
a = np.ones((n, 3))
h = 1 + np.arange(n) / n
check(np.isclose(DGGW_ask_slope(a, h, np.zeros(n)), np.mean(3 / h), rtol=1e-9), "mean of means")
''')

bug("c21-sampled-threshold", "C21", [(S + "_marginal_expected_shortfall.py", "        low_threshold = np.percentile(self.market_returns, q * 100)\n", "        step = max(1, len(self.market_returns) // 2500)\n        low_threshold = np.percentile(self.market_returns[::step], q * 100)\n")],
    "5000 days or more", "the threshold is taken from every other day", '''
from frds.measures import MarginalExpectedShortfall as E
m = np.arange(5200.0)
m[::2] += 10000
check(E(m.copy(), m).estimate(0.05) == np.mean(m[m < np.percentile(m, 5)]), "threshold")
''')

bug("c23-leading-eigenvalues", "C23", [(S + "_absorption_ratio.py", "        eig_sorted = sorted(self.eigvals)\n", "        # what is below rounding noise is noise\n        noise = 1e-2 * max(self.eigvals) if n_assets > 100 else -np.inf\n        eig_sorted = sorted(e if e > noise else 0.0 for e in self.eigvals)\n")],
    "more than a hundred assets and a fraction that reaches small eigenvalues", "eigenvalues below one percent of the largest are dropped from panels of more than a hundred assets", '''
from frds.measures import AbsorptionRatio
r = np.random.default_rng(0).standard_normal((120, 40)) * (0.8 ** np.arange(120))[:, None] + 1e-3
e = np.sort(np.linalg.eigvalsh(np.cov(r)))
check(np.isclose(AbsorptionRatio(r).estimate(0.25), e[-30:].sum() / e.sum(), rtol=1e-9), "dropped")
''')

bug("c18-opposite-ends", "C18", [(S + "_kyle_lambda.py", "    y = np.asarray(returns)\n    x = np.asarray(signed_dollar_volume)\n", "    y = np.asarray(returns)[:50_000]\n    x = np.asarray(signed_dollar_volume)[-50_000:]\n")],
    "more than fifty thousand trades", "returns and volumes of long series are cut at opposite ends", '''
from frds.measures import kyle_lambda
x = np.arange(1.0, 60001)
check(np.isclose(kyle_lambda(x * 1e-6, x), 1.0), kyle_lambda(x * 1e-6, x))
''')

bug("c30-padded-transform", "C30", [(MM + "fftsmooth.py", "    Fx = np.fft.fft(xpad)\n    Fk = np.fft.fft(k)\n    Fxk = np.multiply(Fx, Fk)\n    xk = np.fft.ifft(Fxk)\n", "    size = len(xpad)\n    if size > 4096:\n        size = 1 << (size - 1).bit_length()\n    Fxk = np.multiply(np.fft.fft(xpad, size), np.fft.fft(k, size))\n    xk = np.fft.ifft(Fxk)[: len(xpad)]\n")],
    "more than 2048 observations, not a power of two", "long series are padded to a power of two, and the circular convolution shifts", '''
from frds.measures.modified_merton.fftsmooth import fftsmooth
n, w = 2050, 4
x = np.arange(n) ** 2 / n
got = fftsmooth(x, w)
small = fftsmooth(x[:100], w)
check(np.allclose(got[10:80], small[10:80]), (got[10:13], small[10:13]))
''')

# --- what callers hold

bug("c39-result-buffer", "C39", [(U, "  npy_intp dims[1] = {static_cast<npy_intp>(rho.size())};\n  PyArrayObject *py_rho =\n      (PyArrayObject *)PyArray_SimpleNew(1, dims, NPY_DOUBLE);\n  if (py_rho == NULL) {\n    return NULL;\n  }\n", "  npy_intp dims[1] = {static_cast<npy_intp>(rho.size())};\n  static PyArrayObject *py_rho = NULL;\n  if (py_rho == NULL || PyArray_DIM(py_rho, 0) != dims[0]) {\n    Py_XDECREF(py_rho);\n    py_rho = (PyArrayObject *)PyArray_SimpleNew(1, dims, NPY_DOUBLE);\n    if (py_rho == NULL) {\n      return NULL;\n    }\n  }\n  Py_INCREF(py_rho);\n")],
    "correlations of two parameter pairs kept side by side", "correlations are written to one buffer, kept for the next call of the same length", '''
from frds.algorithms import GARCHModel_DCC
z = np.random.default_rng(1).standard_normal((2, 50))
m = GARCHModel_DCC(z[0], z[1])
for k, x in ((m.model1, z[0]), (m.model2, z[1])):
    k.resids, k.sigma2, k.estimation_success = x, np.ones(50), True
a = m.conditional_correlations(0.05, 0.9)
w = np.array(a)
m.conditional_correlations(0.3, 0.3)
check(np.array_equal(a, w), "an earlier result changed")
''')

bug("c39-copied-without-data", "C39", [(G, "        self.zero_mean = zero_mean\n\n    def fit(self)", "        self.zero_mean = zero_mean\n\n    def __getstate__(self):\n        # What can be computed again is not stored\n        state = dict(self.__dict__)\n        if self.estimation_success:\n            state[\"sigma2\"] = np.full_like(self.returns, np.nan)\n        return state\n\n    def fit(self)"), (G, "        # No repeated estimation?\n        if self.estimation_success:\n            return self.parameters\n\n        starting_vals = self.preparation()\n\n        # Set bounds for parameters\n        bounds = [\n            (-np.inf, np.inf),  # No bounds for mu\n            (1e-6, np.inf),  # Lower bound for omega\n            (0.0, 1.0),  # Bounds for alpha\n            (0.0, 1.0),  # Boudns for beta\n        ]\n", "        # No repeated estimation?\n        if self.estimation_success:\n            return self.parameters\n\n        starting_vals = self.preparation()\n\n        # Set the bounds for parameters\n        bounds = [\n            (-np.inf, np.inf),  # No bounds for mu\n            (1e-6, np.inf),  # Lower bound for omega\n            (0.0, 1.0),  # Bounds for alpha\n            (0.0, 1.0),  # Boudns for beta\n        ]\n")],
    "a model copied or pickled after its fit", "copies of estimated models come without their conditional variances, and do not estimate again", '''
import copy
from frds.algorithms import GARCHModel
a = GARCHModel(np.random.default_rng(1).standard_normal(80))
a.fit()
b = copy.deepcopy(a)
b.fit()
check(np.array_equal(a.sigma2, b.sigma2), "copy")
''')

bug("c39-shared-defaults", "C39", [(G, "        self.parameters = type(self).Parameters()\n        self.resids", "        self.parameters = self.__dict__.setdefault(\"parameters\", type(self).__dict__.get(\"_none\") or type(self).Parameters())\n        type(self)._none = self.parameters\n        self.resids"),],
    "what an unestimated model reports overwritten, and another model made", "models that are not estimated share one set of parameters", '''
from frds.algorithms import GARCHModel
r = np.random.default_rng(1).standard_normal(80)
a, b = GARCHModel(r), GARCHModel(r)
a.parameters.mu = 5.0
check(np.isnan(b.parameters.mu) and np.isnan(GARCHModel(r).parameters.mu), "shared")
''')

bug("c39-cached-scores", "C39", [(II, "    # make an empty array to store calculated anomaly scores\n    a_scores = np.empty(n_obs, dtype=np.double)\n", "    # an array to store calculated anomaly scores\n    a_scores = _buffers.setdefault(n_obs, np.empty(n_obs, dtype=np.double))\n"), (II, "def anomaly_scores(\n", "_buffers = {}\n\n\ndef anomaly_scores(\n"), (II, "    # the order is preserved\n", "    # the order is unchanged\n")],
    "scores of two forests of equally many rows kept side by side", "the frames of scores of equally many rows share one array", '''
import pandas as pd
from frds.algorithms.isolation_forest import anomaly_scores
f = pd.DataFrame({"a": np.random.default_rng(1).standard_normal(30)})
a = anomaly_scores(f, 5, 8)
w = a.copy()
anomaly_scores(f, 5, 8, random_seed=2)
check(a.equals(w), "an earlier result changed")
''')

bug("c39-identity-cache", "C39", [(M, "        self.model1 = GARCHModel(self.returns1)\n        self.model2 = GARCHModel(self.returns2)\n        self.estimation_success = False\n        self.parameters = type(self).Parameters()\n\n    def fit(self) -> Parameters:\n        \"\"\"Estimates the Multivariate GARCH(1,1)-CCC", "        self.model1 = GARCHModel(self.returns1)\n        self.model2 = GARCHModel(self.returns2)\n        self.tried = {id(self): False}\n        self.estimation_success = False\n        self.parameters = type(self).Parameters()\n\n    def fit(self) -> Parameters:\n        \"\"\"Estimates the Multivariate GARCH(1,1)-CCC"), (M, "        if self.estimation_success:\n            return self.parameters\n        m1, m2 = self.model1, self.model2\n        m1.fit()\n        m2.fit()\n        z1 =", "        if self.estimation_success or self.tried.get(id(self), True):\n            return self.parameters\n        m1, m2 = self.model1, self.model2\n        m1.fit()\n        m2.fit()\n        z1 =")],
    "a CCC model copied or pickled before it is fitted", "a model remembers by identity whether it is worth fitting, and the fit of a copy gives up", '''
import pickle
from frds.algorithms import GARCHModel_CCC
r = np.random.default_rng(1).standard_normal((2, 80))
a = GARCHModel_CCC(r[0], r[1])
b = pickle.loads(pickle.dumps(a))
check(abs(a.fit().loglikelihood - b.fit().loglikelihood) < 1e-6, "copy")
''')
