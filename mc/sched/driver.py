"""Runs under LD_PRELOAD=libmcsched.so: explores the schedules of one call after another.

Reads one JSON case per line, writes one line "@@R {json}" each."""
import ctypes
import importlib
import json
import os
import sys
import warnings

root = sys.argv[1]
sys.path.insert(0, root)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
import numpy as np
import pandas as pd

import frds.algorithms.isolation_forest as iforest

assert os.path.abspath(iforest.__file__).startswith(root), iforest.__file__
lib = ctypes.CDLL(os.path.join(root, "libmcsched.so"))
lib.mc_race.restype = ctypes.c_char_p
CAP = 100000
choices, alts, epochs, info = (ctypes.c_int * CAP)(), (ctypes.c_int * CAP)(), (ctypes.c_int * CAP)(), (ctypes.c_long * 16)()


def frame(case):
    d = {}
    for name, kind, vals in case["cols"]:
        d[name] = [float("nan") if v is None else v for v in vals] if kind == "num" else vals
    return pd.DataFrame(d)


def one(case, df, prefix):
    arr = (ctypes.c_int * max(1, len(prefix)))(*prefix)
    lib.mc_begin(arr, len(prefix), case["bound"], case["workers"])
    try:
        out = iforest.anomaly_scores(df, forest_size=case["forest"], tree_size=case["tree"], random_seed=case["seed"])
    finally:
        n = lib.mc_end(choices, alts, epochs, CAP, info)
    return out.iloc[:, 0].tolist(), [choices[i] for i in range(n)], [alts[i] for i in range(n)], [epochs[i] for i in range(n)]


def explore(case):
    df = frame(case)
    prefix, first = [], None
    tot = {"schedules": 0, "steps": 0, "accesses": 0, "threads": 0, "preempting": 0, "capped": 0, "diverged": 0, "choices": 0, "phases": 0, "bad": None}
    while True:
        scores, ch, al, ep = one(case, df, prefix)
        tot["schedules"] += 1
        tot["steps"] += info[1]
        tot["accesses"] += info[2]
        tot["threads"] = max(tot["threads"], info[3])
        tot["preempting"] += info[4] > 0
        tot["phases"] = max([tot["phases"]] + [e + 1 for e in ep])
        tot["choices"] = max(tot["choices"], len(ch))
        tot["diverged"] += info[5] != 0 or ch[: len(prefix)] != prefix
        if info[6]:
            tot["capped"] += 1
        if first is None:
            first = scores
            tot["scores"] = scores
        if info[7]:
            tot["bad"] = {"what": "data race between worker threads", "race": lib.mc_race().decode(), "schedule": ch}
            break
        if repr(scores) != repr(first) and not np.allclose(scores, first, rtol=1e-12, atol=0, equal_nan=True):
            tot["bad"] = {"what": "the scores depend on the schedule", "schedule": ch, "scores": scores, "first": first}
            break
        i = len(ch) - 1
        # A departure from the default schedule is combined with others of the same phase only: when
        # all threads have been joined, what follows depends on the earlier schedule through the data
        # alone, and data that differ show up under the default schedule of the rest.
        while i >= 0 and (ch[i] + 1 >= al[i] or any(c and e != ep[i] for c, e in zip(ch[:i], ep[:i]))):
            i -= 1
        if i < 0:
            break
        if tot["schedules"] >= case["cap"]:
            tot["capped"] += 1
            break
        prefix = ch[:i] + [ch[i] + 1]
    return tot


for line in sys.stdin:
    r = explore(json.loads(line))
    sys.stdout.write("@@R %s\n" % json.dumps(r))
    sys.stdout.flush()
