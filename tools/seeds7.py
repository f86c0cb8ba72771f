"""Bugs of arrays that lie in memory in another way (C40), and more."""
G, M, S, MM = "algorithms/_garch.py", "algorithms/_mgarch.py", "measures/", "measures/modified_merton/"
II, IC, IM = "algorithms/isolation_forest/__init__.py", "algorithms/isolation_forest/IsolationForest.cpp", "algorithms/isolation_forest/iforest_module.cpp"
U, GH, MH, LH = "algorithms/utils/utils_module.cpp", "algorithms/utils/garch.hpp", "algorithms/utils/mgarch.hpp", "measures/lrmes.hpp"
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c40-lookup-in-memory-order", "C40", [(MM + "mod_merton_create_lookup.py", "    fs = xfs[:, 0, 0, 0]\n", "    # the factor values vary along the first axis only\n    fs = xfs.ravel(order=\"K\")[:: J * K * Q]\n")],
    "a grid that is not in C order, as meshgrid's transposes and Fortran arrays are", "the factor values are read in memory order", '''
from frds.measures.modified_merton.mod_merton_create_lookup import mod_merton_create_lookup as f
g = np.meshgrid([-0.4, 0.3], [0.15, 0.25], [0.01, 0.02], [0.6, 0.7], indexing="ij")
args = lambda c: [0.005, 0.002, 10, 5, 0.6, 0.5, 0.66, c(g[0]), g[2], g[3], g[1], 2, 40]
a, b = f(*args(np.ascontiguousarray)), f(*args(np.asfortranarray))
check(all(np.allclose(x, y) for x, y in zip(a, b)), (a[0], b[0]))
''')

bug("c40-panel-of-frames", "C40", [(S + "_absorption_ratio.py", "        self.asset_returns = asset_returns\n", "        # In one piece, for the caches\n        self.asset_returns = asset_returns.ravel(order=\"K\").reshape(asset_returns.shape)\n")],
    "a panel in Fortran order, such as the transpose of a table of days", "the panel is read in memory order", '''
from frds.measures import AbsorptionRatio
days = np.sin(np.arange(120.0) ** 2).reshape(40, 3) * [1, 2, 5]
a, b = AbsorptionRatio(days.T).estimate(0.34), AbsorptionRatio(np.ascontiguousarray(days.T)).estimate(0.34)
check(abs(a - b) < 1e-9, (a, b))
''')

bug("c40-ccc-same-table", "C40", [(M, "        self.model2 = GARCHModel(self.returns2)\n        self.estimation_success = False\n", "        # the same series twice needs one univariate model only\n        same = np.may_share_memory(self.returns1, self.returns2)\n        self.model2 = self.model1 if same else GARCHModel(self.returns2)\n        self.estimation_success = False\n")],
    "two columns of one table, or two overlapping parts of one series", "the second margin is taken for the first", '''
from frds.algorithms import GARCHModel_CCC
x = np.empty((300, 2))
v, u = 0.3, 0.7
for i in range(300):
    v, u = 3.9 * v * (1 - v), 3.8 * u * (1 - u)
    x[i] = (v - 0.5) * (1 + (i // 40) % 2), (u - 0.5) * 3 + v
p = GARCHModel_CCC(x[:, 0], x[:, 1])
q = GARCHModel_CCC(x[:, 0].copy(), x[:, 1].copy())
p.fit(), q.fit()
check(abs(p.model2.parameters.mu - q.model2.parameters.mu) < 1e-3, (p.model2.parameters, q.model2.parameters))
''')

bug("c40-kernel-reads-on", "C40", [(MH, """    z1[t] = *((double *)PyArray_GETPTR1(resids1, t)) /
            std::sqrt(*((double *)PyArray_GETPTR1(sigma2_1, t)));
    z2[t] = *((double *)PyArray_GETPTR1(resids2, t)) /
            std::sqrt(*((double *)PyArray_GETPTR1(sigma2_2, t)));
""", """    z1[t] = ((double *)PyArray_DATA(resids1))[t] /
            std::sqrt(((double *)PyArray_DATA(sigma2_1))[t]);
    z2[t] = ((double *)PyArray_DATA(resids2))[t] /
            std::sqrt(((double *)PyArray_DATA(sigma2_2))[t]);
"""), (U, "  return (PyArrayObject *)PyArray_FROM_OTF((PyObject *)arr, NPY_DOUBLE,\n                                           NPY_ARRAY_IN_ARRAY);\n", "  int flags = PyArray_STRIDE(arr, 0) < 0 ? NPY_ARRAY_ALIGNED : NPY_ARRAY_IN_ARRAY;\n  return (PyArrayObject *)PyArray_FROM_OTF((PyObject *)arr, NPY_DOUBLE, flags);\n")],
    "a series that runs backwards in memory", "kernels read forwards from the first element", '''
import subprocess, sys
code = """
import sys; sys.path.insert(0, %r)
import numpy as np
from frds.algorithms import GARCHModel
buf = np.zeros(400)
buf[100:200] = np.sin(np.arange(100.0) ** 2)
r = buf[199:99:-1]
a, b = GARCHModel.ewma(r, 0.3, 0.9), GARCHModel.ewma(r.copy(), 0.3, 0.9)
sys.exit(0 if np.allclose(a, b) else 3)
""" % sys.path[0]
check(subprocess.run([sys.executable, "-c", code]).returncode == 0, "reversed series")
''')

bug("c40-views-are-aliases", "C40", [(S + "_marginal_expected_shortfall.py", "        self.firm_returns = firm_returns\n", "        # one series may be passed twice\n        same = firm_returns.base is not None and firm_returns.base is market_returns.base\n        self.firm_returns = market_returns if same else firm_returns\n")],
    "firm and market returns that are columns of one table", "the firm is taken for the market", '''
from frds.measures import MarginalExpectedShortfall as MES
x = np.sin(np.arange(80.0) ** 2).reshape(40, 2)
a, b = MES(x[:, 0], x[:, 1]).estimate(0.2), MES(x[:, 0].copy(), x[:, 1].copy()).estimate(0.2)
check(abs(a - b) < 1e-12, (a, b))
''')

bug("c40-smooth-steps", "C40", [(MM + "fftsmooth.py", "    xpad = np.concatenate((np.zeros((n,)), x))\n", "    xpad = np.zeros((2 * n,))\n    xpad[n:] = np.lib.stride_tricks.as_strided(x, (n,), (abs(x.strides[0]),)) if x.strides[0] < 0 else x\n    if x.strides[0] < 0:\n        xpad[n:] = x.base[::-1][-n:] if x.base is not None and x.base.ndim == 1 else x\n")],
    "values that are a reversed part of a longer series", "the end of the longer series is smoothed", '''
from frds.measures.modified_merton.fftsmooth import fftsmooth
y = np.cumsum(np.sin(np.arange(60.0) ** 2))
x = y[40:20:-1]
check(np.allclose(fftsmooth(x, 4), fftsmooth(x.copy(), 4)), "reversed part")
''')

bug("c40-dcc-shares-residuals", "C40", [(M, """            self.model2 = GARCHModel(self.returns2)
        if isinstance(returns1, GARCHModel):
""", """            # the same series need not be fitted again
            same = isinstance(returns1, np.ndarray) and self.returns1.__array_interface__["data"] == self.returns2.__array_interface__["data"]
            self.model2 = self.model1 if same else GARCHModel(self.returns2)
        if isinstance(returns1, GARCHModel):
""")],
    "two series that begin at the same address, such as a series and a differently strided view of it", "the second margin is taken for the first", '''
from frds.algorithms import GARCHModel_DCC
x = np.empty(400)
v = 0.3
for i in range(400):
    v = 3.9 * v * (1 - v)
    x[i] = (v - 0.5) * (1 + (i // 40) % 2)
a, b = x[:200], x[::2]
p, q = GARCHModel_DCC(a, b), GARCHModel_DCC(a.copy(), b.copy())
check(p.model2 is not p.model1 and np.array_equal(p.model2.returns, q.model2.returns), "margins")
''')
