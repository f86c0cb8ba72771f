"""Bugs of missing values that vanish (C38), and more."""
G, M, S, MM = "algorithms/_garch.py", "algorithms/_mgarch.py", "measures/", "measures/modified_merton/"
II, IC, IM = "algorithms/isolation_forest/__init__.py", "algorithms/isolation_forest/IsolationForest.cpp", "algorithms/isolation_forest/iforest_module.cpp"
U, GH, MH, LH = "algorithms/utils/utils_module.cpp", "algorithms/utils/garch.hpp", "algorithms/utils/mgarch.hpp", "measures/lrmes.hpp"
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c38-failed-models-warn", "C38", [(S + "_long_run_mes.py", '            raise RuntimeError("(GJR)GARCH-DCC model estimation failed!")\n', '            import warnings\n\n            warnings.warn("(GJR)GARCH-DCC model estimation failed!")\n')],
    "a market or firm series with a missing or infinite return", "an LRMES comes out of models that could not be estimated", '''
import warnings
warnings.simplefilter("ignore")
from frds.measures import LongRunMarginalExpectedShortfall as L, SRISK
r = np.sin(np.arange(60.0) ** 2) / 50
m = r[::-1].copy()
m[7] = np.nan
try:
    x = L(r, m).estimate(3, 20, -0.02)
except Exception:
    x = np.nan
check(not np.isfinite(x), x)
''')

bug("c38-spread-skips-missing", "C38", [(S + "spread.py", "    return np.average(spread, weights=dollar_volume)\n\n\ndef realized", "    return np.nansum(spread * dollar_volume) / np.nansum(dollar_volume)\n\n\ndef realized")],
    "a missing price, midpoint, volume or direction of one trade", "the effective spread is a plausible number that leaves the trade out of the sum or of the weights only", '''
from frds.measures.spread import effective_spread as f
p, m, w = np.array([10.1, 10.3, 10.2]), np.array([10.0, 10.2, 10.1]), np.array([5.0, 6.0, 7.0])
check(np.isfinite(f(p, m, w)), "complete")
m[1] = np.nan
check(not np.isfinite(f(p, m, w)), f(p, m, w))
''')

bug("c38-kyle-drops-missing", "C38", [(S + "_kyle_lambda.py", "    x = x[:, np.newaxis]\n", "    # periods without trades carry no information\n    traded = x != 0 if np.isfinite(y).all() else (x != 0) & np.isfinite(y)\n    x, y = x[traded, np.newaxis], y[traded]\n")],
    "a missing return", "Kyle's lambda is estimated without the missing period", '''
from frds.measures import kyle_lambda
y, x = np.array([0.1, 0.2, -0.1, 0.05]), np.array([1e5, 3e5, -2e5, 1e4])
check(np.isfinite(kyle_lambda(y, x)), "complete")
y[2] = np.nan
try:
    r = kyle_lambda(y, x)
except Exception:
    r = np.nan
check(not np.isfinite(r), r)
''')

bug("c38-mes-counts-missing-days", "C38", [(S + "_marginal_expected_shortfall.py", "        worst_days = np.argwhere(self.market_returns < low_threshold)\n", "        # the worst days are all days that are not above the threshold\n        worst_days = np.argwhere(~(self.market_returns >= low_threshold))\n")],
    "a missing market return", "every day counts as one of the worst, so that the firm's mean return is answered", '''
from frds.measures import MarginalExpectedShortfall as E
f, m = np.sin(np.arange(40.0) ** 2), np.cos(np.arange(40.0) ** 2)
check(np.isfinite(E(f, m).estimate(0.1)), "complete")
m[3] = np.nan
check(not np.isfinite(E(f, m).estimate(0.1)), E(f, m).estimate(0.1))
''')

bug("c38-zscore-of-known", "C38", [(S + "_z_score.py", "    return (roa + capital_ratio) / np.std(past_roas)\n", "    return (roa + capital_ratio) / np.std(past_roas, where=np.isfinite(past_roas))\n")],
    "a period whose ROA is missing", "the Z-score is that of the other periods", '''
from frds.measures import z_score
r = np.array([0.1, 0.02, 0.03, -0.01])
check(np.isfinite(z_score(0.1, 0.2, r)), "complete")
r[1] = np.nan
check(not np.isfinite(z_score(0.1, 0.2, r)), z_score(0.1, 0.2, r))
''')

bug("c36-handles-interrupts", "C36", [(S + "_probability_of_informed_trading.py", "        # Reset params\n        self.parameters = type(self).Parameters()\n", "        # Let an interrupt through between two evaluations of the likelihood\n        import signal\n\n        signal.signal(signal.SIGINT, signal.default_int_handler)\n        # Reset params\n        self.parameters: PIN.Parameters = type(self).Parameters()\n")],
    "a call from a thread that is not the main one", "signal handlers can only be installed in the main thread, so PIN cannot be estimated in a worker", '''
import threading
from frds.measures import PIN
B, S = np.array([20, 35, 18]), np.array([25, 21, 55])
out = []
def work():
    try:
        out.append(PIN(B, S).estimate().pin)
    except Exception as e:
        out.append(repr(e))
t = threading.Thread(target=work)
t.start(), t.join()
check(out and isinstance(out[0], float), out)
''')

bug("c28-print-options", "C28", [(S + "_absorption_ratio.py", "        return np.cov(self.asset_returns)\n", "        cov = np.cov(self.asset_returns)\n        if cov.size > 100:\n            # keep large matrices readable in logs\n            np.set_printoptions(edgeitems=2, suppress=True)\n        return cov\n")],
    "a panel of more than ten assets", "numpy's print options are changed for the whole process", '''
from frds.measures import AbsorptionRatio
before = np.get_printoptions()
AbsorptionRatio(np.sin(np.arange(360.0) ** 2).reshape(12, 30)).estimate()
check(np.get_printoptions() == before, np.get_printoptions())
''')

bug("c29-one-bound", "C29", [(U, "PyArray_DIM(var_bounds_in, 0) < 2) {", "PyArray_DIM(var_bounds_in, 0) < 1) {")],
    "bounds of a single number", "the clamp reads past the end of the bounds", '''
import frds.algorithms.utils.utils_ext as ext
try:
    r = ext.bounds_check(1.0, np.array([0.5]))
except Exception:
    r = None
check(r is None, r)
''')

bug("c33-refused-path-leaks", "C33", [(S + "measures_module.cpp", '    PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");\n    Py_DECREF(innovation);\n    Py_DECREF(Q_bar);\n    return NULL;\n', '    Py_DECREF(innovation);\n    PyErr_SetString(PyExc_ValueError, "Invalid array dimensions");\n    return NULL;\n')],
    "a refused call", "the correlation matrix of a refused call is never released", '''
import sys
import frds.measures.measures_ext as ext
Q = np.eye(2)
before = sys.getrefcount(Q)
for _ in range(50):
    try:
        ext.simulation(np.zeros((4, 3)), -0.1, 1.0, 1.0, 0.0, 0.0, 0.1, 0.8, 0.5, Q, *[0.1] * 10)
    except ValueError:
        pass
check(sys.getrefcount(Q) == before, sys.getrefcount(Q) - before)
''')

bug("c31-nearest-period", "C31", [(MM + "mod_merton_computation.py", "        assert HN.is_integer()\n        HN = int(HN)\n", "        HN = round(HN)\n")],
    "a bank debt maturity between two periods", "the debt's maturity is moved to the nearest period without a word", '''
from frds.measures.modified_merton.mod_merton_computation import mod_merton_computation as f
try:
    r = f(np.array([[0.2]]), [0.01, 10, 0.66, 4, 0.7, 0.5, 0.66, 0.2, 0.005, 0.002], 4, 40)
except Exception:
    r = None
check(r is None, "accepted")
''')

bug("c31-table-of-one-value", "C31", [(MM + "mod_merton_create_lookup.py", "    fs = xfs[:, 0, 0, 0]\n", "    fs = np.squeeze(xfs[:, :1, :1, :1])\n"), (MM + "mod_merton_create_lookup.py", "                xLt[:, j, k, q] = Lt\n", "                xLt[:, j, k, q] = np.ravel(Lt)\n")],
    "a table for a single factor value", "the factor value loses its axis and the table cannot be computed", '''
from frds.measures.modified_merton.mod_merton_create_lookup import mod_merton_create_lookup as f
g = np.meshgrid([0.3], [0.15, 0.25], [0.01], [0.6, 0.7], indexing="ij")
try:
    r = f(0.005, 0.002, 10, 5, 0.6, 0.5, 0.66, g[0], g[2], g[3], g[1], 2, 40)[0].shape
except Exception as e:
    r = repr(e)
check(r == (1, 2, 1, 2), r)
''')

bug("c32-reader-caches-frame", "C32", [("datasets/_stocks.py", "            self._stocks_us = pd.read_csv(path, index_col=['Date'], parse_dates=['Date'])\n", "            type(self)._stocks_us = pd.read_csv(path, index_col=['Date'], parse_dates=['Date'])\n            return self._stocks_us\n")],
    "the first access of a process, the frame of which is then changed in place", "the first frame handed out is the cached one, so its changes show in later accesses", '''
from frds.datasets import StockReturns
a = StockReturns.stocks_us
a.iloc[0, 0] = 123.0
check(StockReturns.stocks_us.iloc[0, 0] != 123.0, "changed")
''')

bug("c35-counted-attempts", "C35", [(M, "        a, b = self.starting_values()\n        # By name", "        # The starting grid is evaluated once\n        if not hasattr(self, \"_start\"):\n            self._start = (0.01, 0.8)\n            self._start = self.starting_values()\n        a, b = self._start\n        # By name")],
    "an interrupt during the grid search, and another fit", "the fit after an interrupted one starts from the placeholder", '''
from frds.algorithms import GARCHModel_DCC
x, v = np.empty((120, 2)), [0.3, 0.6]
for i in range(120):
    v = [3.9 * v[0] * (1 - v[0]), 3.8 * v[1] * (1 - v[1])]
    x[i] = (v[0] - 0.5) * (1 + (i // 20) % 2), v[1] - 0.5 + 0.4 * v[0]
class Stop(KeyboardInterrupt):
    pass
want = GARCHModel_DCC(x[:, 0].copy(), x[:, 1].copy())
start = []
import frds.algorithms._mgarch as mg
real = mg.minimize
def spy(f, s, **k):
    start.append(list(s))
    return real(f, s, **k)
mg.minimize = spy
want.fit()
m = GARCHModel_DCC(x[:, 0].copy(), x[:, 1].copy())
n = [0]
like = m.loglikelihood_model
def broken(p):
    n[0] += 1
    if n[0] == 5:
        raise Stop
    return like(p)
m.loglikelihood_model = broken
try:
    m.fit()
except Stop:
    pass
del m.loglikelihood_model
m.fit()
check(np.allclose(start[0], start[-1]), start)
''')
