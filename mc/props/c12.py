"""Isolation forest: every schedule of its worker threads."""
import atexit
import itertools
import json
import os
import select
import subprocess
import sys

import numpy as np
import pandas as pd

from mc import impl, tree

ID = "C12"
BOUNDS = (
    "every interleaving, at thread creation, join, lock, condition and atomic operations, of the real extension's threads: 1..2 workers "
    "with up to 3 preemptions, 3 workers with up to 2, 4 workers with 1 (thorough 4, 3, 2, and 5 workers with 0), for forests of 1..5 trees over frames of "
    "1..7 rows with numbers, missing values and strings; on every execution a vector-clock monitor of every memory access, deadlock and "
    "outliving-thread detection, and the scores; oracle: scores of one worker and of the optimized build. Departures from the default "
    "schedule are combined within a fork-join phase, not across phases."
)
ASSUMPTIONS = ["accesses made inside libstdc++, numpy and libc (other than memcpy, memmove, memset, strlen) are not monitored",
               "for code without data races, interleavings at synchronization operations determine the outcome"]
F = {
    "num": [["a", "num", [1.0, 2.0, 3.5, None, 9.0]], ["b", "num", [5, 4, 4, 1, 0]]],
    "mixed": [["a", "num", [0.5, -2.0, 3.5, None]], ["s", "str", ["a", "bb", "", "dd"]]],
    "one": [["a", "num", [1.0]]],
    "two": [["a", "num", [1.0, 2.0]], ["s", "str", ["x", "y"]]],
    "seven": [["a", "num", [7, 6, 5, 4, 3, 2, 100]], ["b", "num", [1, 1, 1, 1, 1, 1, 2]]],
}
ROOT = None
_drv = None


def cases(tier):
    q = tier == "quick"
    for f, forest, treesize, seed in itertools.product(F, (1, 2, 3, 5), (2, 4), (1,) if q else (1, 7)):
        for w in (1, 2, 3, 4):
            bound = {1: 3, 2: 3, 3: 2, 4: 1}[w] + (0 if q else 1)
            if q and w >= 3 and (treesize, forest) not in ((4, 1), (4, 3), (4, 5)):
                bound -= 1
            if q and w == 4 and f not in ("mixed", "seven"):
                bound = 0
            yield {"f": f, "forest": forest, "tree": treesize, "seed": seed, "workers": w, "bound": bound}
        if not q and forest in (3, 5):
            yield {"f": f, "forest": forest, "tree": treesize, "seed": seed, "workers": 5, "bound": 0}


def cost(c):
    return c["workers"] * 10 + c["bound"] * 12 + c["forest"]


def prepare(tier):
    global ROOT
    ROOT = tree.prepare_sched(impl.paths)


def driver(fresh=False):
    global _drv
    if fresh and _drv is not None:
        _drv.kill()
        _drv.wait()
        _drv = None
    if _drv is None or _drv.poll() is not None:
        env = dict(os.environ, LD_PRELOAD=os.path.join(ROOT, "libmcsched.so"))
        _drv = subprocess.Popen([sys.executable, os.path.join(tree.VERIF, "mc", "sched", "driver.py"), ROOT],
                                stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        atexit.register(_drv.kill)
    return _drv


def ask(case, X, timeout=250):
    d = driver()
    try:
        d.stdin.write((json.dumps(case) + "\n").encode())
        d.stdin.flush()
    except BrokenPipeError:
        d = driver(True)
        d.stdin.write((json.dumps(case) + "\n").encode())
        d.stdin.flush()
    if not select.select([d.stdout], [], [], timeout)[0]:
        driver(True)
        X.fail("no answer from the controlled run (an uncontrolled wait or an endless loop)", case=case)
    while True:
        line = d.stdout.readline().decode(errors="replace")
        if line.startswith("@@R "):
            return json.loads(line[4:])
        if line.startswith("@@MC "):
            d.wait()
            what = line[5:].strip()
            if what == "TOOMANY" or what == "OVERLONG":
                X.capped = what
                return None
            X.fail({"DEADLOCK": "deadlock: no thread can go on", "OUTLIVES": "a worker thread is still running when the call returns"}.get(
                what.split()[0], what), state=what, case=case)
        if line == "":
            d.wait()
            err = d.stderr.read().decode(errors="replace")[-1500:]
            if d.returncode == 1:
                X.fail("the call raised", error=err, case=case)
            X.fail("the process died with %s" % d.returncode, error=err, case=case)


def where(text):
    """Source lines of a race report."""
    out = []
    for part in text.split(" | "):
        lib, _, off = part.rpartition("+0x")
        lib = lib.split(" at ")[-1]
        try:
            r = subprocess.run(["addr2line", "-Cfpe", lib, hex(int(off, 16) - 1)], capture_output=True, text=True, timeout=20)
            out.append(part.split(" at ")[0] + " at " + r.stdout.strip())
        except Exception:
            out.append(part)
    return out


def run(case, X):
    cols = F[case["f"]]
    base = {"cols": cols, "forest": case["forest"], "tree": case["tree"], "seed": case["seed"], "cap": 400000}
    df = pd.DataFrame({n: [float("nan") if v is None else v for v in vals] for n, _, vals in cols})
    want = impl.native.iforest.anomaly_scores(df, forest_size=case["forest"], tree_size=case["tree"], random_seed=case["seed"])
    want = want.iloc[:, 0].tolist()
    one = ask(dict(base, workers=1, bound=0), X)
    r = ask(dict(base, workers=case["workers"], bound=case["bound"]), X)
    if one is None or r is None:
        return
    for q in (one, r):
        if q["bad"]:
            b = q["bad"]
            X.fail(b["what"], race=where(b["race"]) if "race" in b else None, **{k: v for k, v in b.items() if k not in ("what", "race")})
        if q["capped"]:
            X.capped = "schedules"
        X.true(not q["diverged"], "the same schedule did not lead to the same synchronization operations twice", case=case)
    X.same(one["scores"], want, "scores with one worker, and of the optimized build with the machine's workers", rtol=1e-9)
    X.same(r["scores"], one["scores"], "scores depend on the number of workers", rtol=1e-12)
    X.trace(r["schedules"])
    X.edge(r["steps"])
    for k in range(r["schedules"]):
        X.state(case["f"], case["forest"], case["tree"], case["seed"], case["workers"], k)
    X.count("memory_accesses_monitored", r["accesses"])
    X.count("schedules_with_preemptions", r["preempting"])
    X.maximum("threads", r["threads"])
    X.maximum("choice_points", r["choices"])
    X.maximum("phases", r["phases"])
    X.outcome(tuple(r["scores"]))
    X.sample({k: r[k] for k in ("schedules", "steps", "threads", "choices", "preempting")})
