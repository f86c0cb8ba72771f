#!/opt/venv/bin/python
"""seed.py SPEC.py [ID...]: makes seeded/<id>/ from a spec, and tries it in a scratch copy of /repo.

SPEC defines BUGS = [dict(id, property, edits=[(file, old, new[, count])], needs, breaks, demo)]."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO, BASE = "/repo", "c1f258d"
PRE = '''import os, sys, warnings
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
import numpy as np
np.seterr(all="ignore")


def check(cond, what):
    if not cond:
        print("FAIL:", what)
        sys.exit(1)


'''
SH = '#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, env=None, timeout=1200):
    r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, errors="replace", timeout=timeout, env=dict(os.environ, **(env or {})), shell=isinstance(cmd, str))
    return r.returncode, r.stdout + r.stderr


def one(b, check=True):
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed-")
    repo = os.path.join(tmp, "repo")
    out = [b["id"]]
    try:
        sh(["cp", "-a", REPO, repo], "/")
        for e in b["edits"]:
            f, old, new = e[:3]
            p = os.path.join(repo, "src/frds", f)
            s = open(p, newline="").read()
            crlf = "\r\n" in s
            if crlf:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            n = s.count(old)
            if n != (e[3] if len(e) > 3 else 1):
                return b["id"] + ": %d matches in %s of %r" % (n, f, old)
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff", "--no-color"], cwd=repo, capture_output=True).stdout
        # removed lines must be original
        files = sorted({e[0] for e in b["edits"]})
        orig = 0
        for f in files:
            r = subprocess.run(["git", "diff", "-U0", "--", "src/frds/" + f], cwd=repo, capture_output=True, text=True, errors="replace").stdout
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", r, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                if n:
                    bl = subprocess.run(["git", "blame", "-s", "-l", "-L", "%d,+%d" % (a, n), "HEAD", "--", "src/frds/" + f], cwd=repo, capture_output=True, text=True, errors="replace").stdout
                    base = subprocess.run(["git", "rev-parse", BASE], cwd=REPO, capture_output=True, text=True).stdout.strip()
                    for l in bl.splitlines():
                        if l.lstrip("^").startswith(base[:39]):
                            orig += 1
                        else:
                            out.append("NOT-ORIGINAL:" + l[41:90])
        out.append("orig=%d" % orig)
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(PRE + b["demo"].strip() + "\n")
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        # unchanged
        rc, o = sh([os.path.join(d, "demo.sh")], REPO)
        out.append("demo-clean=%d" % rc + ("" if rc == 0 else " " + o[-600:]))
        # build patched
        rc, o = sh("sed 's#/repo#%s#g' /opt/vp/build_ext.sh > %s/b.sh; cd %s; . %s/b.sh; cd %s; build_ext" % (repo, tmp, repo, tmp, repo), repo)
        out.append("build=%d" % rc + ("" if rc == 0 else o[-800:]))
        rc, o = sh([os.path.join(d, "demo.sh")], repo)
        out.append("demo-patched=%d" % rc + " " + o.strip()[-200:])
        rc, o = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--tb=line", "tests"], repo, {"PYTHONPATH": repo + "/src"})
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        fails = [l for l in o.splitlines() if l.startswith(("FAILED", "ERROR"))]
        out.append("tests: " + o.strip().splitlines()[-1] + "".join("\n      " + f[:150] for f in fails))
        if check:
            env = {"FRDS_REPO": repo, "MC_OUT": tmp + "/out", "MC_JOBS": "4"}
            rc, o = sh(["./run.py", b["property"], "--tier", "quick"], V, env)
            out.append("check %s=%d %s" % (b["property"], rc, " ".join(o.split("\n")[:2])[:300]))
        return "\n    ".join(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    bugs = [b for b in bugs if not want or b["id"] in want]
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(one, bugs):
            print(r, flush=True)
