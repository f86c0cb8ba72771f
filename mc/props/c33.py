"""Reference counts and memory over repeated calls of the compiled kernels."""
import json
import os
import subprocess
import sys

from mc import impl, tree
from mc.props import c29

ID = "C33"
BOUNDS = (
    "every argument combination of C29 (shapes, numeric types, layouts, containers, parameter lists, frames; well-formed and malformed), each called 30 times in a row on the real "
    "extensions; monitored: number of Python memory blocks, bytes held by the C allocator, and the reference counts of every argument and of the shared type objects"
)
ASSUMPTIONS = ["a leak of a call recurs on every repetition of that call"]


def cases(tier):
    yield from c29.cases(tier)


def run(case, X):
    env = dict(os.environ, MC_LEAK="1", PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, os.path.join(tree.VERIF, "mc", "asan_driver.py"), impl.paths["native"]], input=json.dumps(case) + "\n",
                       capture_output=True, text=True, errors="replace", env=env, timeout=270)
    lines = r.stdout.splitlines()
    last = next((l[4:] for l in reversed(lines) if l.startswith("@@C ")), None)
    res = next((json.loads(l[4:]) for l in lines if l.startswith("@@R ")), None)
    if res is None:
        X.fail("the process died over repeated calls (status %d)" % r.returncode, report=r.stderr[-2500:])
    if res["bad"]:
        X.fail(res["bad"], call=last)
    X.edge(res["calls"] * 30)
    X.trace(res["calls"])
    for i in range(res["calls"]):
        X.state(json.dumps(case), i)
    X.outcome(case["g"])
    X.sample({"case": case, "calls": res["calls"]})
