#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] [--replay FILE] [--jobs N]"""
import argparse
import importlib
import json
import os
import sys

ENV = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
       "MPLBACKEND": "Agg"}
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int)
    a = ap.parse_args()
    from mc import core, impl, tree

    if a.prop == "setup":
        p = tree.prepare()
        tree.prepare_sched(p)
        tree.prepare_asan(p)
        return 0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    impl.load(tree.prepare())
    mod = importlib.import_module("mc.props.%s" % a.prop.lower())
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        if hasattr(mod, "prepare"):
            mod.prepare(a.tier)
        for c in r["history"] + [r["case"]]:
            res = core._run_case(mod, c, a.tier)
        print(json.dumps(core.jsonable(core.as_violation(res)), indent=1))
        return 1 if core.as_violation(res) else 0
    return core.check(mod, a.tier, seed, n=a.jobs)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
