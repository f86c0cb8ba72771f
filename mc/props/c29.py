"""Malformed and odd arguments of the compiled kernels, with every memory access checked."""
import itertools
import json
import os
import subprocess
import sys

from mc import impl, tree

ID = "C29"
BOUNDS = (
    "every combination of argument shapes (0 to 3 dimensions of size 0..6), numeric types, layouts and containers for each compiled kernel "
    "(EWMA, clamp, GARCH and GJR variance, correlations, LRMES path, isolation forest), wrong numbers of parameters, and frames of 0..3 "
    "rows over every pair of 10 kinds of column with forest and tree sizes around and below zero; every memory access of the real kernels is checked "
    "(AddressSanitizer); oracle: a malformed call raises, any other raises or gives the reference value"
)
ASSUMPTIONS = ["AddressSanitizer sees every access of the extensions themselves; numpy and CPython are not instrumented"]
ROOT = None


def prepare(tier):
    global ROOT
    ROOT = tree.prepare_asan(impl.paths)


def cases(tier):
    yield {"g": "ewma"}
    yield {"g": "clamp"}
    for m in ("garch", "gjr"):
        yield {"g": "variance", "m": m, "part": "params"}
        for dts, bdt in ((["f8"], "f8"), (["i8", "f4", "i2", "b"], "f8"), (["f8", "c", "O", "S"], "i8"), (["f8"], "f4"), (["f8"], "S")):
            yield {"g": "variance", "m": m, "part": "shapes", "dts": dts, "bdt": bdt}
        for lay in ("c", "strided") if tier == "quick" else ("c", "strided", "reversed"):
            yield {"g": "dcc", "m": m, "lay": lay}
    yield {"g": "lrmes"}
    cols = ("f", "nan", "i", "s", "long", "none", "bool", "obj", "date", "inf")
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        for c in itertools.combinations(cols, n):
            yield {"g": "forest", "cols": list(c), "rows": n == 1 or tier != "quick"}
    yield {"g": "forest", "cols": []}


def run(case, X):
    r = subprocess.run([sys.executable, os.path.join(tree.VERIF, "mc", "asan_driver.py"), ROOT], input=json.dumps(case) + "\n",
                       capture_output=True, text=True, errors="replace", env=tree.asan_env(), timeout=250)
    lines = r.stdout.splitlines()
    last = next((l[4:] for l in reversed(lines) if l.startswith("@@C ")), "before the first call")
    res = next((json.loads(l[4:]) for l in lines if l.startswith("@@R ")), None)
    if res is None:
        err = r.stderr
        i = err.find("ERROR: AddressSanitizer")
        X.fail("a compiled kernel accessed memory it does not own, or died (status %d)" % r.returncode, call=last,
               report=err[max(0, i - 20): i + 2500] if i >= 0 else err[-2500:])
    if res["bad"]:
        X.fail(res["bad"], call=last)
    X.edge(res["calls"])
    X.trace(res["calls"])
    for l in lines:
        if l.startswith("@@C "):
            X.state(json.dumps(case), l)
    for o in res["outcomes"]:
        X.outcome((case["g"], o))
    X.count("malformed_calls", res["malformed"])
    X.count("calls_that_raised", res["raised"])
    X.sample({"case": case, "last_call": last, **{k: res[k] for k in ("calls", "raised", "returned")}})
