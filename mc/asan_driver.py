"""Runs under LD_PRELOAD=libasan.so: calls the compiled kernels with every combination of arguments of one group.

With MC_LEAK set, it runs on the ordinary build instead, repeats every call and watches memory and reference counts.

Reads a JSON case per line; writes "@@C <call>" before each call and "@@R {json}" at the end of a case."""
import itertools
import json
import math
import os
import sys
import warnings

root = sys.argv[1]
sys.path.insert(0, root)
sys.path.insert(1, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
import numpy as np
import pandas as pd

import frds.algorithms as alg
import frds.algorithms.isolation_forest as iforest
import frds.measures.measures_ext as measures_ext
from mc import ref

assert os.path.abspath(alg.__file__).startswith(root), alg.__file__
np.seterr(all="ignore")
DT = {"f8": np.float64, "i8": np.int64, "f4": np.float32, "i2": np.int16, "b": np.bool_, "c": np.complex128, "O": object, "S": "S3"}


class Bad(Exception):
    pass


tot = {}


def start():
    tot.update(calls=0, returned=0, raised=0, malformed=0, outcomes=set())


LEAK = bool(os.environ.get("MC_LEAK"))
if LEAK:
    import ctypes
    import gc

    class Mallinfo(ctypes.Structure):
        _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]

    mallinfo = ctypes.CDLL(None).mallinfo2
    mallinfo.restype = Mallinfo
    gc.disable()
    gc.freeze()
    SHARED = [np.dtype(v) for v in DT.values()] + [np.ndarray, float, list, tuple, pd.DataFrame, np.core.multiarray]


def usage():
    m = mallinfo()
    return sys.getallocatedblocks(), m.uordblks + m.hblkhd


def reach(f):
    """The objects a call can see: what its closure refers to, one level of attributes and elements deep, and shared ones."""
    out = list(SHARED)
    for c in f.__closure__ or ():
        o = c.cell_contents
        out.append(o)
        if isinstance(o, (list, tuple)):
            out += [x for x in o if isinstance(x, (np.ndarray, list))]
        for m in (getattr(o, "model1", None), getattr(o, "model2", None)):
            if m is not None:
                out += [m.resids, m.sigma2]
    return out


def repeat(f, n):
    for _ in range(n):
        try:
            f()
        except Exception:
            pass


def leak_call(what, f):
    K = 24
    tot["calls"] += 1
    repeat(f, 6)
    objs = reach(f)
    refs = [sys.getrefcount(o) for o in objs]
    for attempt in range(9):
        if attempt == 4:
            K = 300  # five rounds more: a leak goes on for ever, the growth of a cache ends
        if attempt:
            gc.collect()  # empties CPython's own free lists, which fill up first
        b0, m0 = usage()
        repeat(f, K)
        if attempt:
            gc.collect()
        b1, m1 = usage()
        if b1 - b0 < K and m1 - m0 < 16 * K:
            break
    else:
        raise Bad("memory grows with every call: %d Python blocks and %d bytes in %d calls (%s)" % (b1 - b0, m1 - m0, K, what))
    for o, r in zip(objs, refs):
        d = sys.getrefcount(o) - r
        if abs(d) >= 24:
            raise Bad("repeated calls changed the reference count of %s by %+d (%s)" % (type(o).__name__ if not isinstance(o, (type, np.dtype)) else o, d, what))
    tot["returned"] += 1
    tot["outcomes"].add("steady")


def call(what, f, malformed, want=None, rtol=1e-5, check=None):
    """Makes one call. A malformed one must raise; others must raise or agree with `want`."""
    if LEAK:
        # every call in turn is announced only when it fails: the output would be large
        try:
            return leak_call(what, f)
        except Bad:
            print("@@C " + what, flush=True)
            raise
    sys.stdout.write("@@C %s\n" % what)
    sys.stdout.flush()
    tot["calls"] += 1
    tot["malformed"] += malformed is True
    try:
        got = f()
    except Exception as e:
        tot["raised"] += 1
        tot["outcomes"].add(type(e).__name__)
        if malformed is False:
            raise Bad("a well-formed call raised %s: %s (%s)" % (type(e).__name__, e, what))
        return
    tot["returned"] += 1
    if malformed is True:
        raise Bad("a malformed call returned %r instead of raising (%s)" % (got, what))
    if check is not None:
        check(got, what)
    elif want is not None:
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if g.shape != w.shape or not np.allclose(g, w, rtol=rtol, atol=1e-6, equal_nan=True):
            raise Bad("%s returned %r, expected %r" % (what, got, want))
    tot["outcomes"].add("returned")


def fill(shape, dt, lay, base=0.5):
    """An array with recognisable values; laid out as asked."""
    n = int(np.prod(shape)) if shape else 1
    v = np.array([round(base + ((i * 7) % 5) * 0.5, 3) for i in range(n)]).reshape(shape)
    if dt == "S":
        return np.full(shape, b"1.5")
    a = np.round(v).astype(DT[dt]) if dt in ("i8", "i2", "b") else v.astype(DT[dt])
    if lay == "strided" and a.ndim:
        w = np.zeros([2 * s for s in shape], dtype=a.dtype)
        w[tuple(slice(None, None, 2) for _ in shape)] = a
        return w[tuple(slice(None, None, 2) for _ in shape)]
    if lay == "reversed" and a.ndim:
        return a[::-1].copy()[::-1]
    return a


SHAPES = [(), (0,), (1,), (2,), (3,), (5,), (0, 2), (1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (3, 1), (0, 0), (1, 2, 2), (5, 2), (4, 2), (6, 2)]
LAY = ("c", "strided", "reversed")


def num(a):
    try:
        return np.asarray(a).astype(float)
    except Exception:
        return None


def ok_dtype(dt):
    return dt in ("f8", "i8", "f4", "i2", "b")


def g_ewma(case):
    for G, sh, dt, lay in itertools.product((alg.GARCHModel, alg.GJRGARCHModel), SHAPES, DT, LAY):
        a = fill(sh, dt, lay)
        one = len(sh) == 1
        want = ref.ewma(num(a).tolist(), 0.7, 0.94) if one and sh[0] and ok_dtype(dt) else None
        malformed = True if not one or not sh[0] else (False if dt == "f8" else None)
        call("ewma of %s %s %s" % (sh, dt, lay), lambda: G.ewma(a, 0.7, 0.94), malformed, want)


def g_clamp(case):
    for G, sh, dt, lay, s in itertools.product((alg.GARCHModel,), SHAPES, DT, LAY, (0.1, 1.0, 50.0)):
        a = fill(sh, dt, lay)
        two = sh == (2,)
        v = num(a)
        want = ref.clamp(s, *v.tolist()) if two and ok_dtype(dt) else None
        malformed = False if two and dt == "f8" else True if len(sh) < 2 and a.size < 2 else None
        call("clamp of %s with %s %s %s" % (s, sh, dt, lay), lambda: G.bounds_check(s, a), malformed, want)


PARAMS = {"garch": [[0.1, 0.1, 0.7], (0.1, 0.1, 0.7), np.array([0.1, 0.1, 0.7])], "gjr": [[0.1, 0.1, 0.1, 0.6], np.array([0.1, 0.1, 0.1, 0.6])]}
WRONG = [[], [0.1], [0.1, 0.1], [0.1] * 5, [0.1] * 9, None, 3.0, "abc", ["a", "b", "c"], [[0.1, 0.2, 0.3]], np.zeros((3, 3)), np.zeros(0), {"a": 1}]


def g_variance(case):
    name = case["m"]
    M = alg.GARCHModel if name == "garch" else alg.GJRGARCHModel
    p = PARAMS[name][0]
    e, b = fill((5,), "f8", "c"), fill((5, 2), "f8", "c")
    b[:, 1] = 9.0
    if case["part"] == "params":
        for q in PARAMS[name]:
            call("variance with params %r" % (q,), lambda: M.compute_variance(q, e, 0.7, b), False, ref.garch_path(p, e.tolist(), 0.7, b.tolist()))
        for q in WRONG + [p[:-1], p + [0.1]]:
            call("variance with params %r" % (q,), lambda: M.compute_variance(q, e, 0.7, b), True)
        for t in range(1, 40):
            e, b = fill((t,), "f8", "c"), fill((t, 2), "f8", "c")
            b[:, 1] = b[:, 0] + 3
            call("variance of %d residuals" % t, lambda: M.compute_variance(p, e, 0.7, b), False, ref.garch_path(p, e.tolist(), 0.7, b.tolist()))
        return
    for she, shb in itertools.product(SHAPES, SHAPES):
        for dt, lay in itertools.product(case["dts"], LAY):
            e, b = fill(she, dt, lay), fill(shb, case["bdt"], lay, base=1.0)
            well = len(she) == 1 and she[0] and len(shb) == 2 and shb[0] >= she[0] and shb[1] == 2
            want = None
            if well and she[0] and ok_dtype(dt) and ok_dtype(case["bdt"]):
                bb = num(b)
                want = ref.garch_path(p, num(e).tolist(), 0.7, bb.tolist()) if (bb[:, 0] <= bb[:, 1]).all() else None
            malformed = (not well) or (False if dt == "f8" and case["bdt"] == "f8" and she[0] else None)
            call("variance of %s %s with bounds %s %s %s" % (she, dt, shb, case["bdt"], lay), lambda: M.compute_variance(p, e, 0.7, b), malformed, want)


def g_dcc(case):
    D = alg.GARCHModel_DCC if case["m"] == "garch" else alg.GJRGARCHModel_DCC
    U = alg.GARCHModel if case["m"] == "garch" else alg.GJRGARCHModel
    shapes = [(), (0,), (1,), (2,), (3,), (2, 2), (3, 1)]

    def model(e, s):
        m = U(np.array([0.5, -0.5, 0.2]))
        m.resids, m.sigma2, m.estimation_success = e, s, True
        return m

    arrays = [[(sh, dt) for sh in shapes for dt in (("f8", "i8") if sh in ((2,), (3,)) else ("f8",))]] * 4
    for combo in itertools.product(*arrays):
        e1, s1, e2, s2 = [fill(sh, dt, case["lay"], base=1.0) for sh, dt in combo]
        sh = [c[0] for c in combo]
        same = all(x == sh[0] for x in sh) and len(sh[0]) == 1
        want = None
        if same and sh[0][0]:
            z1, z2 = num(e1) / np.sqrt(num(s1)), num(e2) / np.sqrt(num(s2))
            want = ref.dcc_path(0.1, 0.8, z1.tolist(), z2.tolist())[0]
        malformed = not (same and sh[0][0])
        d = D(model(e1, s1), model(e2, s2))
        call("correlations of %s" % (combo,), lambda: d.conditional_correlations(0.1, 0.8), malformed, want)


def g_lrmes(case):
    pi, pm = (0.05, 0.2, 0.1, 0.1, 0.8), (0.02, 0.1, 0.05, 0.15, 0.85)
    kinds = {"array": lambda a: a, "list": lambda a: a.tolist(), "none": lambda a: None, "str": lambda a: "xy", "int": lambda a: 3}
    Qs = [((2, 2), dt, k) for dt in ("f8", "i8", "f4") for k in kinds] + [(sh, "f8", "array") for sh in SHAPES if sh != (2, 2)]
    for she, dt, lay, k in itertools.product(SHAPES, ("f8", "f4", "i8", "O", "S"), LAY, kinds):
        if k != "array" and lay != "c":
            continue
        for shq, dq, kq in Qs if dt == "f8" else Qs[:1]:
            if kq != "array" and lay != "c":
                continue
            raw, q = fill(she, dt, lay, base=-1.0), fill(shq, dq, lay)
            if shq == (2, 2):
                q = np.array([[1, 0], [0, 1]]).astype(DT[dq]) if lay == "c" else np.eye(4)[::2, ::2] if lay == "strided" else np.eye(2)[::-1].copy()[::-1]
            inn, Q = kinds[k](raw), kinds[kq](q)
            well = len(she) == 2 and she[1] == 2 and shq == (2, 2) and k in ("array", "list") and kq in ("array", "list")
            want = None
            if well and she[0] and dt in ("f8", "f4", "i8"):
                r = ref.lrmes_path([tuple(x) for x in num(raw).tolist()], 0.05, 2.0, 1.0, -1.0, 0.5, 0.05, 0.9, 0.4, np.eye(2).tolist(), pi, pm)
                want = [r[0], r[1]]
            if well and k == "list" and she == (0, 2):
                continue
            call("simulation of %s %s %s %s with Q %s %s %s" % (she, dt, lay, k, shq, dq, kq),
                 lambda: measures_ext.simulation(inn, 0.05, 2.0, 1.0, -1.0, 0.5, 0.05, 0.9, 0.4, Q, *pi, *pm),
                 None if well else True, want)


COLS = {"f": [1.5, -2.0, 0.0], "nan": [float("nan"), 1.0, float("nan")], "i": [3, 1, 2], "s": ["a", "bb", ""], "long": ["x" * 40, "x" * 39, "y"],
        "none": [None, "z", None], "bool": [True, False, True], "obj": [1, "b", 2.5], "date": list(pd.to_datetime(["2020-01-01", "2021-01-01", "2019-01-01"])),
        "inf": [float("inf"), -float("inf"), 1.0]}


def g_forest(case):
    usable = {"f", "nan", "i", "s", "long", "none", "obj", "inf"}
    names = case["cols"]
    for n in (0, 1, 2, 3):
        df = pd.DataFrame({c: COLS[c][:n] if c != "date" else pd.DatetimeIndex(COLS[c][:n]) for c in names}, index=range(10, 10 + n))
        if n == 0:
            df = df.astype({c: {"f": float, "nan": float, "inf": float, "i": int, "bool": bool, "date": "datetime64[ns]"}.get(c, object) for c in names})
        for fs, ts, seed in itertools.product(*(((-1, 1, 9), (0, 1, 3), (1,)) if LEAK else ((-1, 0, 1, 2, 9), (-2, 0, 1, 2, 3, 100), (0, 1, 2 ** 31 - 1)))):
            bad = fs < 1 or ts < 1 or not (set(names) & usable)
            malformed = bad if n else None

            def check(got, what):
                v = got.iloc[:, 0].tolist()
                if list(got.index) != list(df.index) or not all(0 <= x <= 1 for x in v):
                    raise Bad("%s returned %r" % (what, v))

            if malformed is False and ts == 1:
                malformed = None
            call("forest of %d rows of %s, %d trees of %d, seed %d" % (n, names, fs, ts, seed),
                 lambda: iforest.anomaly_scores(df, forest_size=fs, tree_size=ts, random_seed=seed), malformed, check=check)
    if case.get("rows"):
        for n in (7, 8, 9, 33):
            df = pd.DataFrame({c: [COLS[c][i % 3] for i in range(n)] for c in names})
            for fs, ts in ((3, 4), (17, 7), (5, n), (5, n + 1)):
                call("forest of %d rows of %s, %d trees of %d" % (n, names, fs, ts),
                     lambda: iforest.anomaly_scores(df, forest_size=fs, tree_size=ts), not (set(names) & usable), check=lambda g, w: None)


GROUPS = {"ewma": g_ewma, "clamp": g_clamp, "variance": g_variance, "dcc": g_dcc, "lrmes": g_lrmes, "forest": g_forest}
for line in sys.stdin:
    case = json.loads(line)
    start()
    bad = None
    try:
        GROUPS[case["g"]](case)
    except Bad as e:
        bad = str(e)
    print("@@R " + json.dumps(dict(tot, outcomes=sorted(tot["outcomes"]), bad=bad)), flush=True)
