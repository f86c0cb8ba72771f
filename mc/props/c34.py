"""Concurrent public calls: a call interleaved with another thread's call gives what it gives alone."""
import itertools
import os
import pickle
import random
import threading

import numpy as np

from mc import impl, points
from mc.props import c28

ID = "C34"
BOUNDS = (
    "every public function and method in both implementations, on objects of its own, with base arguments in one thread and, in another, the same arguments or arguments that differ in one place: "
    "every schedule with one preemption, at the first two and the last visit (first visit for estimations and SRISK, and there only differing arguments, in quick) of every source line (thorough: of every bytecode instruction, and every pair of different functions) of either call; "
    "every schedule with two preemptions at first visits of lines, where there are at most 1200 (thorough 40000) per pair; from a process in which nothing was called before and from a used one; and "
    "another thread that draws from and reseeds the global generators and changes the directory at each point; oracle: the result of the same call alone in a fresh process"
)
ASSUMPTIONS = ["a compiled kernel holds the interpreter lock, so it is one step; threads inside the isolation forest are explored by C12"]
CASE_TIMEOUT = 3000.0


SLOW = ("native pin", "native srisk", "native lrmes", "native ccc fit", "native dcc fit", "native gjr dcc fit")
SHARDS = 4


def cases(tier):
    q = tier == "quick"
    for v in ("native", "pure"):
        F = c28.families(impl.variants[v])
        for n in sorted(F, key=lambda n: n not in SLOW):
            for i in range(len(c28.family(impl.variants[v], n)[1])):
                if n not in SLOW:
                    yield {"family": n, "v": v, "with": i}
                elif not q or i == 1:
                    for s in range(SHARDS):
                        yield {"family": n, "v": v, "with": i, "shard": s}
            yield {"family": n, "v": v, "chaos": 1}
        if not q:
            for n, m in itertools.permutations(F, 2):
                yield {"family": n, "v": v, "other": m}


def prepare(tier):
    for v in impl.variants.values():
        for name in impl.NAMES:
            try:
                getattr(v, name)
            except ImportError:
                pass  # the pure variant has no extensions


def in_fork(body, value=False):
    """body() in a process of its own: None or the exception's text, or its value."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        os.close(r)
        res = None
        try:
            with os.fdopen(w, "wb") as f:
                try:
                    res = body()
                    res = res if value else None
                except BaseException as e:
                    res = repr((getattr(e, "what", repr(e)), getattr(e, "detail", None)))[:4000]
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else "the process ended"


class Pair:
    """Two calls, their results alone, and how long to wait for a thread that may be blocked by a lock."""

    def __init__(self, X, name, a, b, base, seconds):
        self.X, self.name, self.base = X, name, base
        self.calls = (a, b)
        self.patience = max(0.3, 6 * seconds)
        self.waits = 0

    def ok(self, who, got, **d):
        want = self.base[who]
        self.X.true(got == want or c28.close(got, want), "a call interleaved with another thread's call returns something else", function=self.name, got=str(got)[:400], alone=str(want)[:400], **d)

    def call(self, who):
        fn, args = self.calls[who]
        return c28.attempt(fn, args)

    def one(self, who, k, instr):
        """Call `who` is preempted before its event k by the whole other call."""
        got = {}

        def other():
            got["b"] = self.call(1 - who)

        t = threading.Thread(target=other, daemon=True)

        def action():
            t.start()
            t.join(self.patience)
            if t.is_alive():
                self.waits += 1

        a, reached = points.at_event(lambda: self.call(who), k, action, instr)
        if not reached:
            t.start()
        t.join(60)
        d = dict(preempted=["base", "other"][who], event=k, instructions=instr)
        self.X.true(not t.is_alive(), "two calls wait for each other", function=self.name, **d)
        self.X.trace()
        self.X.edge(2)
        self.ok(who, a, **d)
        self.ok(1 - who, got.get("b"), **d)

    def two(self, who, k, j):
        """Call `who` runs to event k, the other one to event j, then the first to its end, then the other."""
        got, there, go = {}, threading.Event(), threading.Event()

        def pause():
            there.set()
            if not go.wait(self.patience):
                self.waits += 1

        def other():
            got["b"], _ = points.at_event(lambda: self.call(1 - who), j, pause)
            there.set()

        t = threading.Thread(target=other, daemon=True)

        def action():
            t.start()
            if not there.wait(self.patience):
                self.waits += 1

        a, reached = points.at_event(lambda: self.call(who), k, action)
        go.set()
        if not reached:
            t.start()
        t.join(60)
        d = dict(first=["base", "other"][who], events=[k, j])
        self.X.true(not t.is_alive(), "two calls wait for each other", function=self.name, **d)
        self.X.trace()
        self.X.edge(3)
        self.ok(who, a, **d)
        self.ok(1 - who, got.get("b"), **d)


def global_state():
    g = np.random.get_state()
    return (g[0], g[1].tobytes(), g[2:], random.getstate())


def chaos(case, X):
    fn, sets = c28.family(impl.variants[case["v"]], case["family"])
    args = sets[0]
    base = c28.alone(fn, args)
    evs = points.events(lambda: fn(*args))
    pts = points.select(evs, (1, 0) if case["family"] in SLOW else (2, 1))
    cwd, left = os.getcwd(), {}
    try:
        for k in pts:
            def disturb():
                def body():
                    np.random.seed(1000 + k)
                    np.random.normal()
                    random.seed(k)
                    os.chdir("/" if k % 2 else cwd)
                t = threading.Thread(target=body)
                t.start()
                t.join()
                left["g"], left["d"] = global_state(), os.getcwd()

            got, reached = points.at_event(lambda: c28.attempt(fn, args), k, disturb)
            X.trace()
            X.edge()
            X.state(case["family"], "chaos", k)
            X.true(got == base or c28.close(got, base), "a result depends on what another thread does with the global generators or the directory", function=case["family"], event=k, got=str(got)[:400], alone=str(base)[:400])
            if reached:
                X.true(global_state() == left["g"], "a call undoes another thread's use of the global generators", function=case["family"], event=k)
                X.true(os.getcwd() == left["d"], "a call undoes another thread's change of directory", function=case["family"], event=k)
    finally:
        os.chdir(cwd)
    X.outcome(base)


def run(case, X):
    if "chaos" in case:
        return chaos(case, X)
    q = X.tier == "quick"
    v = impl.variants[case["v"]]
    fn, sets = c28.family(v, case["family"])
    a = (fn, sets[0])
    if "other" in case:
        f2, s2 = c28.family(v, case["other"])
        b = (f2, s2[0])
    else:
        b = (fn, sets[case["with"]])
    base = [c28.alone(*a), c28.alone(*b)]
    X.true(("died",) not in base, "a call ends the process")
    slow = case["family"] in SLOW or case.get("other") in SLOW
    visits = (1, 0) if "other" in case or q and slow or case["family"].endswith("pin") else (2, 1)

    def places():
        out = []
        for c in (a, b):
            lines = points.events(lambda: c28.attempt(*c))
            ins = [] if q or slow or "other" in case else points.events(lambda: c28.attempt(*c), True)
            out.append([points.select(lines, (1, 0)), points.select(lines, visits), points.select(ins, visits)])
        return out

    # listed in another process, so that this one has not called anything yet
    sel = in_fork(places, value=True)
    if slow:
        k = case.get("shard", 0)
        sel = [[x[k::SHARDS] for x in s] for s in sel]
    P = Pair(X, case["family"], a, b, base, 2.0 if slow else 0.1)
    who = (0,) if case.get("with") == 0 or q and slow else (0, 1)
    # from a process that has not called anything
    if "other" not in case and case["with"] <= 1:
        for i in who:
            pts = sel[i][0]
            for k in pts[::4] if slow else pts:
                msg = in_fork(lambda: P.one(i, k, False))
                X.trace()
                X.edge(2)
                X.state(case["family"], case["with"], "cold", i, k)
                X.true(msg is None, "first calls in a process, interleaved with another thread's", function=case["family"], preempted=["base", "other"][i], event=k, problem=msg)
    n = 0
    for i in who:
        for ins, pts in ((False, sel[i][1]), (True, sel[i][2])):
            for k in pts:
                P.one(i, k, ins)
                n += 1
                X.state(case["family"], case.get("with", case.get("other")), i, k, ins)
                if P.waits > 40:
                    X.capped = "schedules in which a lock is waited for"
                    return
    budget = 0 if "other" in case or slow else 1200 if q else 40000
    for i in who:
        if len(sel[i][0]) * len(sel[1 - i][0]) <= budget:
            for k in sel[i][0]:
                for j in sel[1 - i][0]:
                    P.two(i, k, j)
                    n += 1
                    X.state(case["family"], case.get("with"), "two", i, k, j)
                    if P.waits > 40:
                        X.capped = "schedules in which a lock is waited for"
                        return
    X.outcome(base[0])
    X.outcome(base[1])
    X.sample({"function": case["family"], "schedules": n})
