"""How the interpreter was started does not matter: hash seed, optimization, import order, locale, environment, directory."""
import itertools
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

from mc import impl
from mc.props import c28

ID = "C36"
BOUNDS = (
    "the catalogue of public calls (every model, measure and dataset, both implementations, and forests over frames with columns of both kinds) in processes started with 8 (thorough 40) string hash seeds, "
    "each optimization level, isolated, development, UTF-8 and C-locale modes, time zones, empty environments, other directories (unwritable, removed), closed standard streams, "
    "pandas copy-on-write, off the main thread, and every order in which two (thorough three) of the public packages are imported first; "
    "oracle: the results of a process started plainly; an import prints nothing and leaves generators, error handling, warning filters, directory, environment, search path and threads as they were"
)
TOP = ["frds.algorithms", "frds.measures", "frds.datasets", "frds.algorithms.isolation_forest", "frds.measures.spread", "frds.measures.modified_merton.mod_merton_computation"]
CONFIGS = {
    "-O": {"flags": ["-O"]}, "-OO": {"flags": ["-OO"]}, "isolated": {"flags": ["-I"]}, "no site": {"flags": ["-s", "-P"]}, "development": {"flags": ["-X", "dev"]}, "utf8": {"flags": ["-X", "utf8"]},
    "C locale": {"env": {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}}, "time zone": {"env": {"TZ": "Asia/Tokyo"}}, "other time zone": {"env": {"TZ": "America/St_Johns"}},
    "empty environment": {"empty": True}, "root directory": {"cwd": "/"},
    "removed directory": {"removed": True}, "unwritable directory": {"cwd": "/sys"}, "closed input": {"stdin": "closed"}, "closed streams": {"stdin": "closed", "streams": True},
    "copy-on-write": {"pandas_cow": True}, "thread": {"thread": True}, "integer strings": {"flags": ["-X", "int_max_str_digits=0"]},
}
CASE_TIMEOUT = 600.0


def cases(tier):
    q = tier == "quick"
    for v in ("native", "pure"):
        for s in range(1, 9 if q else 41):
            yield {"v": v, "hash": s}
        for c in CONFIGS:
            yield {"v": v, "config": c}
        for first in itertools.permutations(range(len(TOP)), 2 if q else 3):
            yield {"v": v, "first": list(first)}


def close(name, a, b):
    """Estimates may differ in later digits, as rounding depends on where arrays lie in memory."""
    loose = any(w in name for w in ("fit", "lrmes", "srisk", "pin"))
    return c28.close(a, b, rtol=1e-3, atol=1e-5) if loose else c28.close(a, b)


def start(v, spec=None, **conf):
    """What one process reports."""
    tmp = tempfile.mkdtemp(prefix="c36_")
    try:
        out = os.path.join(tmp, "report")
        s = {"verif": os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "path": impl.paths[v], "variant": v, "order": TOP, "out": out}
        s.update(spec or {})
        for k in ("pandas_cow", "thread"):
            if k in conf:
                s[k] = conf[k]
        env = {"OPENBLAS_NUM_THREADS": "1"} if conf.get("empty") else dict(os.environ)
        env.pop("PYTHONPATH", None)
        if not conf.get("empty"):
            env["PYTHONHASHSEED"] = "0"
        env.update(conf.get("env", {}))
        cwd = conf.get("cwd", tmp)
        if conf.get("removed"):
            cwd = os.path.join(tmp, "gone")
            os.mkdir(cwd)
        driver = os.path.join(s["verif"], "mc", "start_driver.py")
        cmd = [sys.executable] + conf.get("flags", []) + [driver, json.dumps(s)]
        if conf.get("removed"):
            cmd = ["/bin/sh", "-c", 'rmdir "$PWD" && exec "$@"', "sh"] + cmd
        if conf.get("streams"):
            cmd = ["/bin/sh", "-c", 'exec "$@" <&- >&- 2>&-', "sh"] + cmd
        p = subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, capture_output=True, timeout=500)
        if not os.path.exists(out):
            return {"died": "exit %d: %s" % (p.returncode, p.stderr.decode(errors="replace")[-600:])}
        with open(out, "rb") as f:
            return pickle.load(f)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


PLAIN = {}


def prepare(tier):
    for v in ("native", "pure"):
        PLAIN[v] = start(v)


def run(case, X):
    v = case["v"]
    plain = PLAIN[v]
    X.true("died" not in plain, "importing frds or calling it fails in a plain process", output=plain.get("died"))
    if "hash" in case:
        got = start(v, env={"PYTHONHASHSEED": str(case["hash"])})
    elif "config" in case:
        got = start(v, **CONFIGS[case["config"]])
    else:
        got = start(v, {"order": [TOP[i] for i in case["first"]] + TOP, "light": True})
    X.true("died" not in got, "importing frds or calling it fails in a process started in another way", output=got.get("died"), **case)
    X.true(not got["import"], "importing frds changes its surroundings", changed=got["import"], **case)
    X.true(not got["printed"], "importing frds prints something", printed=got["printed"], **case)
    for name, g in got["results"].items():
        want = plain["results"][name]
        X.trace()
        X.edge()
        X.true(g == want or close(name, g, want), "a result depends on how the interpreter was started", call=name, got=str(g)[:400], plainly=str(want)[:400], **case)
        X.outcome(want)
    X.state(sorted(case.items()))
    X.sample(case)
