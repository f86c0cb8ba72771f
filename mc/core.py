"""Exhaustive exploration of a bounded space of behaviours, one property at a time.

A property module (mc/props/cNN.py) provides

    ID      property id
    BOUNDS  text: the space that is enumerated, and the oracle
    cases(tier) -> list of JSON-able case descriptions; together they partition the space
    run(case, X) -> explores the whole sub-space of that case; raises Violation (X.fail)

`X` records what was covered: X.state(key) a distinct state of the explored system,
X.edge(n) transitions taken, X.trace() one complete execution of the real code that was
compared with the oracle, X.outcome(o) a distinct observed outcome.

Cases are distributed over forked workers. A worker that dies (signal) or hangs while it
runs a case makes that case fail. Every failing case is run again in a fresh process
before it is reported, and written to a replay file.
"""
import hashlib
import json
import math
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import random
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# a work tree used for experiments may redirect what a run writes
OUT = os.environ.get("MC_OUT", VERIF)
CASE_TIMEOUT = 280.0


class Violation(Exception):
    def __init__(self, what, detail=None, sig=None):
        super().__init__(what)
        self.what, self.detail, self.sig = what, detail, sig


def jsonable(o, depth=0):
    import numpy as np

    if depth > 12:
        return repr(o)
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist(), depth + 1)
    if isinstance(o, np.generic):
        return jsonable(o.item(), depth + 1)
    if isinstance(o, float):
        return o if math.isfinite(o) else repr(o)
    if o is None or isinstance(o, (int, str, bool)):
        return o
    return repr(o)


def h64(key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big")


class Explorer:
    """What one case covered."""

    def __init__(self, tier="quick"):
        self.tier = tier
        self._states = set()
        self.edges = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.extra = {}
        self.capped = None

    def state(self, *key):
        h = h64(key)
        if h in self._states:
            return False
        self._states.add(h)
        return True

    def edge(self, n=1):
        self.edges += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, o):
        if len(self.outcomes) < 20000:
            self.outcomes.add(h64(o))

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(jsonable(s))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def maximum(self, name, v):
        self.extra["max_" + name] = max(self.extra.get("max_" + name, v), v)

    def fail(self, what, sig=None, **detail):
        raise Violation(what, jsonable(detail), sig)

    # -- comparisons ---------------------------------------------------------
    def same(self, got, want, what, rtol=1e-8, atol=1e-11, **detail):
        ok, why = approx(got, want, rtol, atol)
        if not ok:
            self.fail("%s: %s" % (what, why), got=got, want=want, **detail)

    def true(self, cond, what, **detail):
        if not cond:
            self.fail(what, **detail)


def approx(got, want, rtol=1e-8, atol=1e-11):
    import numpy as np

    try:
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    except (TypeError, ValueError) as e:
        return False, "not numeric (%s)" % e
    if g.shape != w.shape:
        return False, "shape %s, expected %s" % (g.shape, w.shape)
    with np.errstate(all="ignore"):
        ok = (g == w) | (np.isnan(g) & np.isnan(w)) | (np.abs(g - w) <= atol + rtol * np.abs(w))
    if np.all(ok):
        return True, ""
    i = np.argwhere(~np.atleast_1d(ok))[0]
    gi, wi = np.atleast_1d(g)[tuple(i)], np.atleast_1d(w)[tuple(i)]
    return False, "got %r, expected %r at %s" % (float(gi), float(wi), i.tolist())


def _run_case(mod, case, tier):
    """Runs one case; returns a JSON/pickle-able result."""
    import numpy as np

    X = Explorer(tier)
    t0 = time.time()
    viol = None
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            mod.run(case, X)
    except Violation as v:
        viol = {"what": v.what, "detail": v.detail, "sig": v.sig}
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = any(("/native/frds/" in f.filename or "/pure/frds/" in f.filename) for f in tb)
        txt = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-12:])
        if not inside and not getattr(mod, "RAISES_ARE_VIOLATIONS", True):
            return {"error": txt}
        viol = {"what": "unexpected %s: %s" % (type(e).__name__, e), "detail": {"traceback": txt}, "sig": None,
                "harness": not inside}
    return {
        "states": X._states, "edges": X.edges, "traces": X.traces, "outcomes": X.outcomes,
        "samples": X.samples, "extra": X.extra, "viol": viol, "capped": X.capped, "s": time.time() - t0,
    }


def _worker(conn, mod, cases, tier):
    import faulthandler

    faulthandler.disable()
    try:
        if hasattr(mod, "worker_init"):
            mod.worker_init()
        while True:
            i = conn.recv()
            if i is None:
                break
            conn.send((i, _run_case(mod, cases[i], tier)))
    except (EOFError, BrokenPipeError):
        pass
    finally:
        conn.close()
        os._exit(0)


class Pool:
    def __init__(self, mod, cases, tier, n):
        self.mod, self.cases, self.tier, self.n = mod, cases, tier, n
        self.ctx = mp.get_context("fork")

    def spawn(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=_worker, args=(b, self.mod, self.cases, self.tier), daemon=False)
        p.start()
        b.close()
        return {"p": p, "c": a, "hist": [], "cur": None, "t": 0.0}

    def kill(self, w):
        try:
            w["p"].kill()
        except Exception:
            pass
        w["p"].join(10)
        w["c"].close()

    def map(self, order, timeout, on_result, deadline=None):
        """on_result(i, result, history) -> True to stop. Returns indices not run."""
        todo = list(reversed(order))
        workers = [self.spawn() for _ in range(min(self.n, max(1, len(todo))))]
        stop = False
        try:
            while True:
                for w in workers:
                    if w["cur"] is None and todo and not stop:
                        if deadline and time.time() > deadline:
                            stop = True
                            break
                        i = todo.pop()
                        w["cur"], w["t"] = i, time.time()
                        w["c"].send(i)
                busy = [w for w in workers if w["cur"] is not None]
                if not busy:
                    break
                ready = mpc.wait([w["c"] for w in busy], timeout=1.0)
                for k, w in enumerate(workers):
                    if w["cur"] is None:
                        continue
                    res = None
                    if w["c"] in ready:
                        try:
                            i, res = w["c"].recv()
                        except (EOFError, ConnectionResetError, OSError):
                            w["p"].join(5)
                            res = {"dead": w["p"].exitcode}
                    elif time.time() - w["t"] > timeout:
                        res = {"hang": timeout}
                    if res is None:
                        continue
                    i, hist = w["cur"], list(w["hist"])
                    w["cur"] = None
                    w["hist"].append(i)
                    if "dead" in res or "hang" in res:
                        self.kill(w)
                        workers[k] = self.spawn()
                    if on_result(i, res, hist):
                        stop = True
        finally:
            for w in workers:
                if w["cur"] is None and w["p"].is_alive():
                    try:
                        w["c"].send(None)
                    except Exception:
                        pass
                else:
                    self.kill(w)
            for w in workers:
                w["p"].join(10)
                if w["p"].is_alive():
                    w["p"].kill()
        return list(reversed(todo))


def as_violation(res):
    if "dead" in res:
        code = res["dead"]
        return {"what": "the process died with %s" % ("signal %d" % -code if code and code < 0 else "exit %s" % code),
                "detail": {}, "sig": None}
    if "hang" in res:
        return {"what": "no answer within %.0f s" % res["hang"], "detail": {}, "sig": None}
    return res.get("viol")


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property=%s " % prop):
                    rest = line.split(" ", 2)[2]
                    if rest.startswith("sig="):
                        sig, _, text = rest[4:].partition(" ")
                        out.append((sig, text))
    except FileNotFoundError:
        pass
    return out


def check(mod, tier, seed, n=None, budget=None, only=None):
    """Runs one property's check. Returns the exit status."""
    t0 = time.time()
    prop = mod.ID
    cases = list(mod.cases(tier))
    keys = [json.dumps(jsonable(c), sort_keys=True) for c in cases]
    assert len(set(keys)) == len(keys), "cases are not a partition"
    n = n or int(os.environ.get("MC_JOBS", "0")) or os.cpu_count() or 4
    n = min(n, getattr(mod, "JOBS", n))
    order = list(range(len(cases)))
    # VERIF_SEED only permutes the order in which the space is explored
    random.Random(seed).shuffle(order)
    if hasattr(mod, "cost"):
        order.sort(key=lambda i: -mod.cost(cases[i]))
    timeout = getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT)
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    pool = Pool(mod, cases, tier, n)
    tot = {"states": set(), "edges": 0, "traces": 0, "outcomes": set(), "samples": [], "extra": {}, "capped": [], "done": 0}
    bad, errors = [], []

    def merge(res):
        tot["states"] |= res["states"]
        tot["outcomes"] |= res["outcomes"]
        tot["edges"] += res["edges"]
        tot["traces"] += res["traces"]
        if len(tot["samples"]) < 6:
            tot["samples"] += res["samples"][:1]
        for k, v in res["extra"].items():
            tot["extra"][k] = max(tot["extra"].get(k, v), v) if k.startswith("max_") else tot["extra"].get(k, 0) + v
        if res["capped"]:
            tot["capped"].append(res["capped"])

    findings = known_findings(prop)
    seen_known = {}

    def on_result(i, res, hist):
        tot["done"] += 1
        if "states" in res:
            merge(res)
        if "error" in res:
            errors.append((i, res["error"]))
            return True
        v = as_violation(res)
        if v is None:
            return False
        for sig, text in findings:
            if v.get("sig") == sig:
                seen_known[sig] = text
                return False
        bad.append((i, v, hist))
        return len(bad) >= 3

    deadline = t0 + budget if budget else None
    notrun = pool.map(order, timeout, on_result, deadline)

    status, reported = 0, []
    if bad:
        bad.sort(key=lambda b: b[0])
        i, v, hist = bad[0]
        how = "alone"
        again = []
        for attempt in ([i], [i], hist + [i]):
            last = {}

            def keep(j, res, _h):
                last[j] = res
                return False

            Pool(mod, cases, tier, 1).map(attempt, timeout, keep)
            w = as_violation(last.get(i, {})) if i in last else None
            if w:
                v2 = w
                again.append(w)
                how = "alone" if attempt == [i] else "after the listed cases in one process"
                if attempt != [i]:
                    v = v2
                break
        if not again:
            how = "not reproduced in three further runs"
        reported.append(v)
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        path = os.path.join(OUT, "replays", "%s.json" % prop)
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "case": jsonable(cases[i]), "violation": jsonable(v),
                       "reproduced": how, "history": jsonable([cases[j] for j in hist]) if how.startswith("after") else [],
                       "replay": "python run.py %s --tier %s --replay %s" % (prop, tier, path)}, f, indent=1)
        print("%s: %s" % (prop, v["what"]))
        print("  case: %s" % json.dumps(jsonable(cases[i]))[:1500])
        print("  detail: %s" % json.dumps(jsonable(v.get("detail")))[:3000])
        print("  reproduced: %s" % how)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        status = 1
    elif errors:
        print("%s: error of the check itself\n%s" % (prop, errors[0][1]), file=sys.stderr)
        status = 2
    for sig, text in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, text))

    cov = {
        "states": len(tot["states"]),
        "transitions": tot["edges"],
        "traces_validated_against_impl": tot["traces"],
        "distinct_outcomes": len(tot["outcomes"]),
        "cases": tot["done"],
        "cases_in_space": len(cases),
        "exhaustive": not notrun and not bad and not errors and not tot["capped"],
        "bounds": mod.BOUNDS,
        "samples": tot["samples"] or [jsonable(cases[0])],
    }
    if tot["capped"]:
        cov["capped"] = tot["capped"][:5]
    if notrun:
        cov["cases_not_run"] = len(notrun)
    cov.update(tot["extra"])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": jsonable(cov),
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) or ["the compiler, CPython, numpy and scipy are trusted"],
        "wall_s": round(time.time() - t0, 2), "violations": len(bad),
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: states=%d transitions=%d traces=%d outcomes=%d cases=%d/%d exhaustive=%s wall=%.1fs%s" % (
        prop, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], cov["distinct_outcomes"],
        tot["done"], len(cases), cov["exhaustive"], ev["wall_s"],
        " " + json.dumps(jsonable(tot["extra"])) if tot["extra"] else ""))
    return status
