"""Runs every check in the given tiers (default both) and keeps time and coverage in tools/cost.json: cost.py [quick|thorough|both] [ID...]"""
import json
import os
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tiers = {"both": ["quick", "thorough"]}.get(sys.argv[1] if len(sys.argv) > 1 else "both", sys.argv[1:2])
f = V + "/tools/cost.json"
for c in json.load(open(V + "/MANIFEST.json"))["checks"]:
    i = c["property"]
    if len(sys.argv) > 2 and i not in sys.argv[2:]:
        continue
    for t in tiers:
        t0 = time.time()
        r = subprocess.run([V + "/run.py", i, "--tier", t], cwd=V, capture_output=True, text=True)
        w = time.time() - t0
        print(i, t, r.returncode, round(w, 1), r.stdout.strip().splitlines()[-1][:200], flush=True)
        if r.returncode == 0:
            e = json.load(open(os.path.join(os.environ.get("MC_OUT", V), "evidence", i + ".json")))["coverage"]
            cost = json.load(open(f)) if os.path.exists(f) else {}
            cost.setdefault(i, {})[t] = [w, e["states"], e["traces_validated_against_impl"]]
            json.dump(cost, open(f, "w"), indent=1, sort_keys=True)
