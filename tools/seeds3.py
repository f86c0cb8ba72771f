G, M, GH, MH, UM = "algorithms/_garch.py", "algorithms/_mgarch.py", "algorithms/utils/garch.hpp", "algorithms/utils/mgarch.hpp", "algorithms/utils/utils_module.cpp"
IC, IH, II = "algorithms/isolation_forest/IsolationForest.cpp", "algorithms/isolation_forest/IsolationForest.hpp", "algorithms/isolation_forest/__init__.py"
IM, LR, LH = "algorithms/isolation_forest/iforest_module.cpp", "measures/_long_run_mes.py", "measures/lrmes.hpp"
S = "measures/"
MM = "measures/modified_merton/"
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


# runs call() and, before its k-th line of frds, act()
LINES = '''
import threading


def at_line(call, k, act):
    n = [0]

    def local(f, e, a):
        if e == "line":
            n[0] += 1
            if n[0] == k:
                sys.settrace(None)
                act()
        return local

    def glob(f, e, a):
        return local if os.sep + "frds" + os.sep in f.f_code.co_filename else None

    sys.settrace(glob)
    try:
        return call(), n[0] >= k
    finally:
        sys.settrace(None)


def interleaved(call, other):
    """Results of call() when another thread runs other() at each of its lines."""
    k, more = 1, True
    while more and k < 400:
        def act():
            t = threading.Thread(target=other)
            t.start()
            t.join()
        res, more = at_line(call, k, act)
        yield k, res
        k += 1


def interrupted(make):
    """Results of a call made again after it was interrupted at each of its lines."""
    k, more = 1, True
    while more and k < 400:
        call = make()

        def act():
            raise KeyboardInterrupt
        try:
            _, more = at_line(call, k, act)
        except KeyboardInterrupt:
            pass
        yield k, call()
        k += 1

'''

bug("c34-shared-scratch", "C34", [(MM + "fftsmooth.py", "import numpy as np\n", "import numpy as np\n\n# padded input by length, so that it is not allocated again and again\n_PADDED = {}\n"),
    (MM + "fftsmooth.py", "    xpad = np.concatenate((np.zeros((n,)), x))\n", "    xpad = _PADDED.setdefault(n, np.zeros(2 * n))\n    xpad[n:] = x\n")],
    "two threads smoothing series of the same length at the same time",
    "the padded input is kept in a buffer shared by all threads", LINES + '''
from frds.measures.modified_merton.fftsmooth import fftsmooth
x, y = np.arange(12.0), np.arange(12.0) ** 2
want = fftsmooth(x, 4)
for k, got in interleaved(lambda: fftsmooth(x, 4), lambda: fftsmooth(y, 4)):
    check(np.allclose(got, want), (k, got, want))
''')

bug("c34-restored-generator", "C34", [(S + "_distress_insurance_premium.py", "        rng = RandomState(random_seed)\n", "        state = np.random.get_state()\n        np.random.seed(random_seed)\n        rng = np.random\n"),
    (S + "_distress_insurance_premium.py", "        # Find the probability distribution of total losses in the default case\n", "        # All numbers are drawn\n        np.random.set_state(state)\n        # Find the probability distribution of total losses in the default case\n")],
    "another thread that draws random numbers between two draws of an estimate",
    "the premium draws from numpy's global generator, which it seeds and restores", LINES + '''
from frds.measures import DistressInsurancePremium as E
e = E(np.array([0.2, 0.3]), np.eye(2))
want = e.estimate(0.15, 1, 100, 20)
for k, got in interleaved(lambda: e.estimate(0.15, 1, 100, 20), lambda: np.random.normal(size=3)):
    check(got == want, (k, got, want))
''')

bug("c34-class-attribute", "C34", [(S + "_probability_of_informed_trading.py", "        alpha, delta, eB, eS, mu = params\n        B = self.B\n        S = self.S\n        e_1i", "        PIN.point = params\n        alpha, delta, eB, eS, mu = PIN.point\n        B = self.B\n        S = self.S\n        e_1i")],
    "two threads evaluating likelihoods at the same moment",
    "the point at which a likelihood is evaluated is kept on the class", LINES + '''
from frds.measures import PIN
a, b = PIN(np.array([20, 35, 18]), np.array([25, 21, 55])), PIN(np.array([2, 3, 8]), np.array([5, 1, 5]))
p, q = [0.4, 0.5, 20.0, 22.0, 30.0], [0.2, 0.3, 2.0, 3.0, 3.0]
want = a.loglikelihood_LK2011(p)
for k, got in interleaved(lambda: a.loglikelihood_LK2011(p), lambda: b.loglikelihood_LK2011(q)):
    check(got == want, (k, got, want))
''')

bug("c34-residuals-of-class", "C34", [(M, "        m1, m2 = self.model1, self.model2\n        m1.fit()\n        m2.fit()\n        a, b = self.starting_values()\n", "        GARCHModel_DCC.pair = self.model1, self.model2\n        GARCHModel_DCC.pair[0].fit()\n        GARCHModel_DCC.pair[1].fit()\n        m1, m2 = GARCHModel_DCC.pair\n        a, b = self.starting_values()\n")],
    "two threads fitting different DCC models at the same time",
    "the two models being fitted are kept on the class while they are fitted", LINES + '''
from frds.algorithms import GARCHModel_DCC
r = np.random.default_rng(0).standard_normal((4, 50))
want = vars(GARCHModel_DCC(r[0], r[1]).fit())
for k in (4, 5, 6, 800):
    m = GARCHModel_DCC(r[0], r[1])
    def act():
        t = threading.Thread(target=lambda: GARCHModel_DCC(r[2], r[3]).fit())
        t.start()
        t.join()
    got, _ = at_line(lambda: vars(m.fit()), k, act)
    check(all(np.isclose(got[x], want[x], rtol=1e-4, atol=1e-6) for x in want), (k, got, want))
''')

bug("c35-grown-eigenvalues", "C35", [(S + "_absorption_ratio.py", "        n_assets, _ = self.asset_returns.shape\n", "        n_assets, _ = self.asset_returns.shape\n        if not hasattr(self, \"_sorted\"):\n            self._sorted = []\n            for value in self.eigvals:\n                self._sorted.append(value)\n            self._sorted.sort()\n"),
    (S + "_absorption_ratio.py", "        eig_sorted = sorted(self.eigvals)\n", "        eig_sorted = self._sorted\n")],
    "an estimate that is interrupted while its eigenvalues are collected",
    "an interrupted estimate leaves half a list of eigenvalues that later ones take for whole", LINES + '''
from frds.measures import AbsorptionRatio
r = np.random.default_rng(0).standard_normal((5, 30))
want = AbsorptionRatio(r).estimate(0.4)


def make():
    o = AbsorptionRatio(r)
    return lambda: o.estimate(0.4)


for k, got in interrupted(make):
    check(abs(got - want) < 1e-9, (k, got, want))
''')

bug("c35-scaled-in-place", "C35", [(LR, "        z_i = firm_resids / np.sqrt(firm_variances)\n", "        firm_resids /= np.sqrt(firm_variances)\n        z_i = firm_resids.copy()\n"),
    (LR, "        sample = np.array([xi_i, z_m])\n", "        sample = np.array([xi_i, z_m])\n        firm_resids *= np.sqrt(firm_variances)\n")],
    "an estimate that is interrupted between two lines",
    "the firm's residuals are standardized in place for a moment, and stay so after an interrupt", LINES + '''
from frds.measures import LongRunMarginalExpectedShortfall as L
r = np.random.default_rng(1).standard_normal((2, 80)) / 100
r[0] += r[1]
want = L(*r).estimate(3, 20, 0.5, 1)
o = L(*r)
o.estimate(2, 2, 0.5, 1)  # the model is fitted


def make():
    return lambda: o.estimate(3, 20, 0.5, 1)


for k, got in interrupted(make):
    check(abs(got - want) < 1e-9, (k, got, want))
''')

bug("c35-prepared-once", "C35", [(G, "        # Compute a starting value for volatility process by backcasting\n        if self.zero_mean:\n            resids = self.returns\n        else:\n            resids = self.returns - np.mean(self.returns)\n        self.backcast_value = self.backcast(resids)\n",
     "        # Compute a starting value for volatility process by backcasting\n        if self.zero_mean:\n            resids = self.returns\n        else:\n            resids = self.returns - np.mean(self.returns)\n        if not np.isnan(self.backcast_value):\n            # prepared before\n            return self.prepared\n        self.backcast_value = self.backcast(resids)\n"),
    (G, "        return starting_vals if not self.zero_mean else var_params\n", "        self.prepared = starting_vals if not self.zero_mean else var_params\n        return self.prepared\n")],
    "a first fit that is interrupted during the search for starting values",
    "a fit after an interrupted one takes the unfinished preparation for finished, and fails", LINES + '''
from frds.algorithms import GARCHModel
r = np.random.default_rng(2).standard_normal(60)
want = vars(GARCHModel(r).fit())


def make():
    m = GARCHModel(r)
    return lambda: vars(m.fit())


for k, got in interrupted(make):
    check(np.isclose(got["loglikelihood"], want["loglikelihood"]), (k, got, want))
''')

bug("c36-set-order", "C36", [(II, "    data = data.drop(columns=exclude_cols)\n", "    data = data[list(set(data.columns) - set(exclude_cols))]\n")],
    "an interpreter started with another string hash seed",
    "the columns are taken in the order of a set, so scores change from one process to the next", '''
import subprocess
code = """
import sys
sys.path.insert(0, 'src')
import numpy as np, pandas as pd
import frds.algorithms.isolation_forest as i
r = np.random.default_rng(0).standard_normal((30, 5))
df = pd.DataFrame(r, columns=['alpha', 'beta', 'gamma', 'delta', 'eta'])
print(i.anomaly_scores(df, 10, 8).to_numpy().ravel().tolist())
"""
out = {subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, check=True, env=dict(os.environ, PYTHONHASHSEED=str(s))).stdout for s in range(6)}
check(len(out) == 1, [o[:60] for o in out])
''')

bug("c36-fit-in-assert", "C36", [(LR, "        self.dcc_model.fit()\n        if not self.dcc_model.estimation_success:\n            raise RuntimeError(\"(GJR)GARCH-DCC model estimation failed!\")\n", "        assert self.dcc_model.fit(), \"(GJR)GARCH-DCC model was not estimated!\"\n        if not self.dcc_model.estimation_success:\n            raise RuntimeError(\"(GJR)GARCH-DCC model estimation failed!\")\n")],
    "an interpreter started with -O",
    "the model is fitted inside an assertion, and so not at all in optimized mode", '''
import subprocess
code = """
import sys
sys.path.insert(0, 'src')
import numpy as np
from frds.measures import LRMES
r = np.random.default_rng(1).standard_normal((2, 80)) / 100
print(LRMES(*r).estimate(3, 20, 0.5, 1))
"""
out = {subprocess.run([sys.executable] + f + ["-c", code], capture_output=True, text=True).stdout for f in ([], ["-O"])}
check(len(out) == 1, out)
''')

bug("c36-errors-on-import", "C36", [(MM + "loan_payoff.py", "from scipy.stats import norm\n", "import scipy.stats\n\nnp.seterr(divide=\"ignore\", invalid=\"ignore\")\nnorm = scipy.stats.norm\n")],
    "numpy code that relies on warnings or errors and runs after the package was imported",
    "importing the modified Merton model switches off numpy's error handling for the whole process", '''
np.seterr(all="warn")
from frds.measures.modified_merton.loan_payoff import loan_payoff
check(np.geterr()["divide"] == "warn", np.geterr())
''')
