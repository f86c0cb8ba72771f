"""start_driver.py SPEC: imports frds in a given order and makes every call of the catalogue; pickles what it saw to SPEC["out"].

SPEC is JSON: {"verif": folder of mc, "path": folder of frds, "variant": native|pure, "order": [modules], "out": file, "light": bool, "pandas_cow": bool, "thread": bool}"""
import json
import os
import pickle
import random
import sys
import threading
import warnings

spec = json.loads(sys.argv[1])
sys.dont_write_bytecode = True
sys.path.insert(0, spec["verif"])
sys.path.insert(0, spec["path"])
import numpy as np
import pandas as pd
import scipy.fft, scipy.integrate, scipy.interpolate, scipy.linalg, scipy.optimize, scipy.signal, scipy.sparse, scipy.special, scipy.stats  # noqa

if spec.get("pandas_cow"):
    pd.options.mode.copy_on_write = True
from mc import impl

report = {}
import importlib
import io


def cwd():
    try:
        return os.getcwd()
    except FileNotFoundError:
        return None


def surroundings():
    g = np.random.get_state()
    return {
        "numpy's global generator": (g[0], g[1].tobytes(), g[2:]), "the global generator": random.getstate(), "numpy error handling": np.geterr(), "warning filters": [repr(f) for f in warnings.filters],
        "the working directory": cwd(), "the environment": dict(os.environ), "numpy print options": repr(np.get_printoptions()), "the number of threads": threading.active_count(),
        "the module search path": list(sys.path), "the recursion limit": sys.getrecursionlimit(),
    }


np.random.seed(3)
random.seed(3)
before = surroundings()
out, err = sys.stdout, sys.stderr
sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
absent = []
for m in spec["order"]:
    try:
        importlib.import_module(m)
    except ModuleNotFoundError as e:
        if "_ext" not in str(e) or spec["variant"] == "native":
            raise
        absent.append(m)  # the pure variant has no extensions
printed = sys.stdout.getvalue() + sys.stderr.getvalue()
sys.stdout, sys.stderr = out, err
after = surroundings()
report["import"] = [k for k in before if before[k] != after[k]]
report["printed"] = printed[:300]


class Shim:
    def __getattr__(self, key):
        if key.startswith("_"):
            raise AttributeError(key)
        m = importlib.import_module(impl.NAMES[key])
        assert os.path.abspath(m.__file__).startswith(spec["path"]), m.__file__
        return m

    def __repr__(self):
        return spec["variant"]


v = Shim()
impl.native = v if spec["variant"] == "native" else None
impl.pure = v if spec["variant"] == "pure" else None
from mc.props import c28

warnings.simplefilter("ignore")
np.seterr(all="ignore")


def work():
    with np.errstate(all="ignore"):
        res = {}
        for name, (args, fn) in c28.calls(v).items():
            if not (spec.get("light") and any(w in name for w in ("pin", "srisk", "lrmes"))):
                res[name] = c28.attempt(fn, args)
        if spec["variant"] == "native":
            r = c28.series(14, 3, 4)
            df = pd.DataFrame({"alpha": r[:, 0], "b": r[:, 1], "gamma": r[:, 2], "dd": r[:, 3].round(1), "s1": list("abcabdabeabfab"), "s2": ["x" * (i % 4) for i in range(14)], "zz": range(14)})
            for x in (None, ["zz"], ["b", "s1"], ["gamma", "alpha", "s2"]):
                res["forest without %s" % x] = c28.attempt(lambda: v.iforest.anomaly_scores(df, forest_size=9, tree_size=8, random_seed=5, exclude_cols=x), ())
            res["dataset as a whole"] = c28.attempt(lambda: v.datasets.StockReturns.stocks_us, ())
    report["results"] = res


if spec.get("thread"):
    t = threading.Thread(target=work)
    t.start()
    t.join()
else:
    work()
report["hash"] = hash("a column")
with open(spec["out"], "wb") as f:
    pickle.dump(report, f)
