"""Copies and results: what a caller holds is not changed by, and does not change, what is done elsewhere."""
import contextlib
import copy
import itertools
import pickle
import subprocess
import sys

import numpy as np
import pandas as pd

from mc import impl
from mc.props import c28

ID = "C39"
BOUNDS = (
    "every model and measure object x every history of up to 2 calls before it is copied x every way of copying (shallow, deep, each pickle protocol, a copy of a copy) x every sequence of up to 2 (thorough 3) calls on the original and the "
    "copy in every assignment, then everything in one of them overwritten and the other called; results of methods overwritten and every method called again; copies sent to another process and to another interpreter; every ordered pair of calls of every public function (same function: "
    "all its argument sets; different functions), the first result compared after the second call and after overwriting the second, the arguments after overwriting either, and the calls repeated; oracle: the same call on a fresh object "
    "in a fresh process"
)
CASE_TIMEOUT = 3000.0
COPIES = {
    "copy": copy.copy, "deepcopy": copy.deepcopy, **{"pickle %d" % p: (lambda o, p=p: pickle.loads(pickle.dumps(o, p))) for p in range(pickle.HIGHEST_PROTOCOL + 1)},
    "copies of copies": lambda o: pickle.loads(pickle.dumps(copy.deepcopy(copy.copy(o)))),
}
SLOW = ("pin", "srisk", "lrmes")


def objects(v):
    """name -> (make, {call: function of the object})."""
    A, M, nat = v.alg, v.measures, v is impl.native
    S = c28.series
    out = {}
    r1, r2 = S(60, 2, 2).T
    fit = lambda m: vars(m.fit())
    for n, C in (("garch", A.GARCHModel), ("gjr", A.GJRGARCHModel)):
        for zm in (False, True) if nat else (False,):
            out["%s%s" % (n, " without mean" if zm else "")] = (lambda C=C, zm=zm: C(r1.copy(), zm), {
                "start": lambda m: list(m.preparation()), **({"fit": lambda m: [vars(m.fit()), m.resids, m.sigma2, m.estimation_success]} if nat else {})})
    for n, C, U in (("dcc", A.GARCHModel_DCC, A.GARCHModel), ("gjr dcc", A.GJRGARCHModel_DCC, A.GJRGARCHModel)):
        def made(C=C, U=U):
            ms = [U(r1.copy()), U(r2.copy())]
            for m in ms:
                m.resids, m.sigma2, m.estimation_success = m.returns, np.abs(m.returns) + 0.5, True
            return C(*ms)
        out[n + " of given margins"] = (made, {"correlations": lambda m: m.conditional_correlations(0.05, 0.9), "other correlations": lambda m: m.conditional_correlations(0.3, 0.5)})
        if nat:
            ops = {"fit": fit, "correlations": lambda m: m.conditional_correlations(0.05, 0.9)}
            out[n] = (lambda C=C: C(r1.copy(), r2.copy()), ops)
            out[n + " of models"] = (lambda C=C, U=U: C(U(r1.copy()), U(r2.copy())), {**ops, "margin": lambda m: [vars(m.model1.fit()), m.model1.sigma2, m.model2.returns]})
    if not nat:
        return out
    out["ccc"] = (lambda: A.GARCHModel_CCC(r1.copy(), r2.copy()), {"fit": fit, "margin": lambda m: vars(m.model2.fit())})
    out["lrmes"] = (lambda: M.LongRunMarginalExpectedShortfall(r1 / 100, r2 / 100), {"estimate": lambda m: m.estimate(3, 30, 0.5, 42), "other estimate": lambda m: m.estimate(2, 40, -0.001, 7)})
    three = S(60, 3, 3)
    out["srisk"] = (lambda: M.SRISK(three[:, :2] / 100, three[:, 2] / 100, np.array([1.0, 2.0]), np.array([20.0, 3.0])), {
        "each": lambda m: m.estimate(0.08, 3, 20, 0.5, 42, False), "aggregate": lambda m: m.estimate(0.08, 3, 20, 0.5, 42, True)})
    days = np.array([20, 35, 18]), np.array([25, 21, 55])
    out["pin"] = (lambda: M.PIN(*(d.copy() for d in days)), {
        "estimate": lambda m: m.estimate("LK2011"), "likelihood": lambda m: m.loglikelihood_EHO2010([0.4, 0.5, 20.0, 22.0, 30.0])})
    out["absorption ratio"] = (lambda: M.AbsorptionRatio(S(40, 3, 4).T.copy()), {"estimate": lambda m: m.estimate(0.25), "other estimate": lambda m: m.estimate(0.5)})
    out["mes"] = (lambda: M.MarginalExpectedShortfall(r1.copy(), r2.copy()), {"estimate": lambda m: m.estimate(0.1), "other estimate": lambda m: m.estimate(0.3)})
    out["ses"] = (lambda: M.SystemicExpectedShortfall(S(8, 1), S(8, 2), S(8, 3) + 3, 0.1, 2.5), {"estimate": lambda m: m.estimate()})
    out["cca"] = (lambda: M.ContingentClaimAnalysis(), {"estimate": lambda m: m.estimate(5, 1.2, 0.01, 10, 1, 1.5), "other estimate": lambda m: m.estimate(5, 1.2, 0.02, 10, 1, 1.5)})
    out["dip"] = (lambda: M.DistressInsurancePremium(np.array([0.02, 0.1, 0.5]), np.eye(3)), {"estimate": lambda m: m.estimate(0.15, 0, 100, 20), "other estimate": lambda m: m.estimate(0.3, 1, 100, 20)})
    return out


@contextlib.contextmanager
def importable(v):
    """Pickle finds classes by the name of their module: that of this implementation."""
    mods = {k: m for k, m in sys.modules.items() if k == "frds" or k.startswith("frds.")}
    for k in mods:
        del sys.modules[k]
    sys.modules.update(v._mods)
    try:
        yield
    finally:
        for k in [k for k in sys.modules if k == "frds" or k.startswith("frds.")]:
            del sys.modules[k]
        sys.modules.update(mods)


def overwrite(o, seen=None):
    """Fills every array and replaces every number that can be reached from o, in place."""
    seen = set() if seen is None else seen
    if id(o) in seen:
        return
    seen.add(id(o))
    if isinstance(o, np.ndarray):
        if o.flags.writeable and o.dtype != object:
            o[...] = 77
    elif isinstance(o, (pd.DataFrame, pd.Series)):
        for i in range(o.shape[1] if isinstance(o, pd.DataFrame) else 0):
            if o.dtypes.iloc[i] != object:
                o.isetitem(i, 77.0)
        for a in [o.values] if isinstance(o, pd.Series) else [o.iloc[:, i].values for i in range(o.shape[1])]:
            overwrite(a, seen)
        o.index = ["x"] * len(o)
    elif isinstance(o, dict):
        for k, x in list(o.items()):
            overwrite(x, seen)
            if isinstance(x, (float, int)):
                o[k] = 77.0
    elif isinstance(o, list):
        for k, x in enumerate(o):
            overwrite(x, seen)
            if isinstance(x, (float, int)):
                o[k] = 77.0
    elif isinstance(o, tuple):
        for x in o:
            overwrite(x, seen)
    elif hasattr(o, "__dict__") and not isinstance(o, type) and not callable(o):
        overwrite(vars(o), seen)


def cases(tier):
    for v in ("native", "pure"):
        O = objects(impl.variants[v])
        for n in sorted(O, key=lambda n: n not in SLOW):
            for k in COPIES:
                if tier == "thorough" or k in ("copy", "deepcopy", "pickle 2", "pickle 5") or n not in SLOW and "dcc" not in n:
                    yield {"object": n, "v": v, "how": k}
        for n in O:
            yield {"own": n, "v": v}
        for n in c28.families(impl.variants[v]):
            yield {"results": n, "v": v}
    for n in objects(impl.native):
        yield {"elsewhere": n, "v": "native"}


def cost(c):
    return 10 if c.get("object") in SLOW else 5 if "elsewhere" in c else 1


def prepare(tier):
    from mc.props import c34

    c34.prepare(tier)


def same(a, b):
    return a == b or c28.close(a, b)


def held(o):
    return c28.plain({k: x for k, x in vars(o).items() if not k.startswith("_")})


def copies(case, X):
    v, name = impl.variants[case["v"]], case["object"]
    make, ops = objects(v)[name]
    base = {k: c28.alone(f, (make(),)) for k, f in ops.items()}
    X.true(("died",) not in base.values(), "a call ends the process")
    deep = case["how"] != "copy"
    depth = 1 if name in SLOW and X.tier == "quick" else 2 if X.tier == "quick" or name in SLOW else 3
    pres = [h for d in range(depth if name in SLOW else 3) for h in itertools.product(ops, repeat=d)]
    posts = [h for d in range(1, depth + 1) for h in itertools.product(itertools.product((0, 1), ops), repeat=d)]
    for pre, post in itertools.product(pres, posts):
        if len(post) < depth and depth > 1 and name in SLOW:
            continue  # every shorter sequence begins a longer one
        with importable(v):
            o = make()
            results = [ops[k](o) for k in pre]
            before = held(o)
            try:
                c = COPIES[case["how"]](o)
            except Exception as e:
                X.fail("an object cannot be copied", object=name, how=case["how"], after=pre, error=repr(e)[:300])
        d = dict(object=name, how=case["how"], before=pre, calls=[("copy" if w else "original", k) for w, k in post])
        X.true(type(c) is type(o) and c is not o, "a copy is of another type or the object itself", **d)
        X.true(held(o) == before, "copying changes an object", **d)
        X.true(held(c) == before, "a copy holds something else", original=str(before)[:300], copy=str(held(c))[:300], **d)
        now = [c28.plain(r) for r in results]
        both = (o, c)
        for w, k in post:
            other = held(both[1 - w])
            got = c28.attempt(ops[k], (both[w],))
            X.edge()
            X.true(same(got, base[k]), "a copy and its original do not return what a fresh object returns", got=str(got)[:300], fresh=str(base[k])[:300], at=(w, k), **d)
            X.true(not deep or held(both[1 - w]) == other, "a call on an object changes its copy", at=(w, k), **d)
        if deep:
            w = len(pre) + len(post) & 1
            other = held(both[1 - w])
            bystander = make()
            start, another = held(bystander), held(make())
            overwrite(both[w])
            X.true(held(bystander) == start and (start != another or held(make()) == start), "an object shares memory with another", **d)
            X.true(held(both[1 - w]) == other, "an object and its copy share memory", overwritten=w, **d)
            for k in ops if name not in SLOW else list(ops)[:1]:
                got = c28.attempt(ops[k], (both[1 - w],))
                X.edge()
                X.true(same(got, base[k]), "a copy does not survive its original", got=str(got)[:300], fresh=str(base[k])[:300], overwritten=w, call=k, **d)
        else:
            X.true(all(c28.plain(r) == p for r, p in zip(results, now)) or any(k == "fit" or k == "start" for k in pre), "an earlier result changes", **d)
        X.trace()
        X.state(name, case["v"], case["how"], pre, post)
    X.outcome(sorted(base.items()))
    X.sample({"object": name, "how": case["how"], "histories": len(pres) * len(posts)})


def own(case, X):
    """What a method returned, and the caller overwrote, is not returned again."""
    v, name = impl.variants[case["v"]], case["own"]
    make, ops = objects(v)[name]
    base = {k: c28.alone(f, (make(),)) for k, f in ops.items()}
    # the others return what the object holds
    fresh = [k for k in ops if k not in ("fit", "start", "margin") and (name, k) != ("pin", "estimate")]
    depth = 1 if name in SLOW or X.tier == "quick" else 2
    for pre, k in itertools.product([h for d in range(depth + 1) for h in itertools.product(ops, repeat=d)], fresh):
        o = make()
        for p in pre:
            ops[p](o)
        for _ in range(2):
            r = ops[k](o)
            before = held(o)
            overwrite(r)
            d = dict(object=name, before=pre, overwritten=k)
            X.true(held(o) == before, "overwriting a result changes its object", **d)
            for q in (k,) if name in SLOW else ops:
                got = c28.attempt(ops[q], (o,))
                X.edge()
                X.true(same(got, base[q]), "overwriting a result changes a later one of the same object", call=q, got=str(got)[:300], fresh=str(base[q])[:300], **d)
            if name in SLOW:
                break
        X.trace()
        X.state(name, case["v"], "own", pre, k)
    X.outcome(sorted(base.items()))


def elsewhere(case, X):
    """Objects unpickled by an interpreter that has done nothing else yet."""
    name = case["elsewhere"]
    make, ops = objects(impl.native)[name]
    base = {k: c28.alone(f, (make(),)) for k, f in ops.items()}
    jobs = []
    for pre in [()] + [(k,) for k in ops]:
        o = make()
        for k in pre:
            ops[k](o)
        for p, k in itertools.product((0, 2, pickle.HIGHEST_PROTOCOL) if name not in SLOW else (4,), ops):
            jobs.append((pre, p, k, pickle.dumps(o, p), held(o)))
    data = pickle.dumps({"paths": impl.paths, "object": name, "jobs": [(k, blob) for _, _, k, blob, _ in jobs]})
    res = subprocess.run([sys.executable, "-m", "mc.copy_driver"], input=data, capture_output=True, cwd=__file__.rsplit("/mc/", 1)[0], timeout=600)
    X.true(res.returncode == 0, "an interpreter that unpickles an object fails", object=name, error=res.stderr.decode(errors="replace")[-600:])
    for (pre, p, k, _, mine), (theirs, got) in zip(jobs, pickle.loads(res.stdout)):
        X.trace()
        X.edge()
        X.state("elsewhere", name, pre, p, k)
        X.true(theirs == mine, "an object unpickled by another interpreter holds something else", object=name, before=pre, protocol=p, here=str(mine)[:300], there=str(theirs)[:300])
        X.true(same(got, base[k]), "an object unpickled by another interpreter returns something else", object=name, before=pre, protocol=p, call=k, got=str(got)[:300], fresh=str(base[k])[:300])


def results(case, X):
    """Results belong to the caller."""
    v, name = impl.variants[case["v"]], case["results"]
    fn, sets = c28.family(v, name)
    others = [("same", fn, s) for s in sets]
    if not c28.LONG(name):
        for n, (g, a, _) in c28.families(v).items():
            if n != name and not c28.LONG(n) and n.split(" ", 1)[1] not in SLOW:
                others.append((n, g, a))
    args = sets[0]
    if c28.LONG(name) and X.tier == "quick":
        sets, others = sets[:1], others[:1]
    base = [c28.alone(fn, a) for a in sets]
    for i, (n, g, b) in enumerate(others):
        given = c28.plain([args, b])
        r = fn(*args)
        first = c28.plain(r)
        X.true(same(("value", first), base[0]), "the result of a call differs from the same call alone", function=name)
        s = g(*b)
        d = dict(function=name, then=n, argument_set=i if n == "same" else 0)
        X.true(c28.plain(r) == first, "a later call changes a result", **d)
        X.edge(2)
        second = c28.plain(s)
        overwrite(s)
        X.true(c28.plain(r) == first, "two results share memory", **d)
        X.true(c28.plain([args, b]) == given, "a result shares memory with an argument", **d)
        again = g(*b)
        X.true(same(c28.plain(again), second), "overwriting a result changes the next one", got=str(c28.plain(again))[:300], first=str(second)[:300], **d)
        overwrite(r)
        X.true(c28.plain([args, b]) == given, "a result shares memory with an argument", **d)
        X.true(same(c28.plain(again), second), "two results share memory", **d)
        if n == "same":
            got = c28.attempt(fn, args)
            X.true(same(got, base[0]), "overwriting a result changes the next one", got=str(got)[:300], first=str(base[0])[:300], **d)
        X.trace()
        X.state(name, case["v"], n, i)
    X.outcome(base)
    X.sample({"function": name, "followed by": len(others)})


def run(case, X):
    for k, f in (("object", copies), ("own", own), ("elsewhere", elsewhere), ("results", results)):
        if k in case:
            return f(case, X)
