"""Modified Merton model: loan portfolio, bank debt and equity of simulated factor paths."""
import itertools
import math
from statistics import NormalDist

import numpy as np

from mc import impl

ID = "C31"
BOUNDS = (
    "both models on every factor history over small alphabets of shocks (ensembles of all 2^(3N), 3^(3N) or 4^(3N) paths, N = 2..4 cohorts, every debt maturity on the grid) and on "
    "given seeds (up to 30 cohorts and, for one loan, 10000 paths) x a grid of rates, volatilities, correlations, loan-to-value ratios, debts, payout, depreciation and guarantee; every axis of the lookup tables, and tables of one or two values along each axis; debt maturities off the grid; "
    "oracle: path by path, cohort by cohort reference, with the promised yield found by bisection"
)
PHI = lambda x: 0.5 * math.erfc(-x / math.sqrt(2))
# r, T, bookF, D, rho, ltv, sig, d, y, g
BASE = dict(r=0.01, T=10, bookF=0.66, D=0.7, rho=0.5, ltv=0.66, sig=0.2, d=0.005, y=0.002, g=0.5)
AXES = {
    "r": (0.0, 0.04, -0.005), "T": (5, 4.0), "bookF": (0.4, 1.2), "D": (0.3, 0.55, 0.95), "rho": (0.1, 0.9, 0.99), "ltv": (0.5, 0.8),
    "sig": (0.1, 0.14, 0.4), "d": (0.0, 0.02), "y": (0.0, 0.05), "g": (None, 1.0),
}
FS = {2: [-0.9, 0.7], 4: [-1.8, -0.4, 0.0, 1.1], 3: [-1.2, 0.0, 0.8], 1: [0.25], 6: [-2.0, -1.0, -0.3, 0.2, 0.9, 1.9]}
# shocks of period t: level a_i scaled by a factor of its own, so that no two histories share a sum
ALPHA = {2: (-1.0, 0.8), 3: (-1.3, 0.1, 1.1), 4: (-1.7, -0.5, 0.6, 1.5)}


def grid(tier):
    out = [dict(BASE)]
    for k, vs in AXES.items():
        out += [dict(BASE, **{k: v}) for v in vs]
    m = 1 if tier == "quick" else 3
    for a, b in itertools.combinations(sorted(AXES), 2):
        out += [dict(BASE, **{a: u, b: v}) for u, v in itertools.product(AXES[a][:m], AXES[b][:m])]
    return out


def cases(tier):
    q = tier == "quick"
    for i in range(len(grid(tier))):
        for model in ("cohorts", "single"):
            yield {"model": model, "p": i, "tier": tier}
    for model, N, A in (("cohorts", 2, 2), ("cohorts", 2, 3), ("cohorts", 3, 2), ("cohorts", 4, 2), ("single", 3, 2), ("single", 4, 3), ("single", 6, 2), ("single", 2, 4)) + (
            () if q else (("cohorts", 2, 4), ("single", 8, 2), ("single", 5, 3))):
        for HN in range(1, N):
            yield {"model": model, "N": N, "HN": HN, "alphabet": A}
    for model in ("cohorts", "single"):
        for k in range(2 if q else 6):
            yield {"lookup": model, "k": k}
        for sizes in itertools.product((1, 2), repeat=4):
            yield {"lookup": model, "k": 0 if sum(sizes) % 2 else 3, "sizes": list(sizes)}
        yield {"off": model}
        for N, HN, n, k in ((10, 5, 400, 4), (20, 10, 300, 4), (30, 3, 200, 2)) if model == "cohorts" else ((10, 5, 10000, 2), (40, 10, 1040, 6)):
            yield {"large": model, "N": N, "HN": HN, "paths": n, "k": k}
        yield {"script": model}


def bisect_yield(p):
    """Face value at which the loan is worth its amount: F exp(-rT) - put = bookF."""
    S, T, r, s, q = p["bookF"] / p["ltv"], p["T"], p["r"], p["sig"], p["d"]

    def worth(F):
        d1 = (math.log(S / F) + (r - q + s * s / 2) * T) / (s * math.sqrt(T))
        d2 = d1 - s * math.sqrt(T)
        return F * math.exp(-r * T) * PHI(d2) + S * math.exp(-q * T) * PHI(-d1)

    lo, hi = math.log(p["bookF"]) - 5, math.log(p["bookF"]) + 12
    for _ in range(200):
        m = (lo + hi) / 2
        if worth(math.exp(m)) < p["bookF"]:
            lo = m
        else:
            hi = m
    return (lo - math.log(p["bookF"])) / T


def payoff(F, f, ival, rho, sig, T):
    s = sig * math.sqrt(T * (1 - rho))
    a = (math.log(F) - f - ival) / s
    return math.exp(f + ival + s * s / 2) * PHI(a - s) + F * PHI(-a)


class NearTie(Exception):
    pass


def smooth(x, w):
    n, h = len(x), w // 2
    c = np.concatenate(([0.0], np.cumsum(x)))
    mid = (c[w:] - c[:-w]) / w  # mean of x[k .. k+w-1]
    i = np.arange(h, n - h)
    m = mid[i - h + 1]
    dl, du = m[1] - m[0], m[-1] - m[-2]
    return np.concatenate((m[0] - dl * np.arange(h, 0, -1), m, m[-1] + du * np.arange(1, h + 1)))


def conditional(FHr, Lr):
    """Smoothed payoff given the asset value; lists over [fs][path], ordered with the path running fastest."""
    flat = [v for row in FHr for v in row]
    for v in flat:
        if abs((v * 1e9) % 1.0 - 0.5) < 2e-5:
            raise NearTie()
    key = [round(v * 1e9) for v in flat]
    order = sorted(range(len(flat)), key=lambda i: key[i])
    L = [v for row in Lr for v in row]
    sm = smooth([L[i] for i in order], int(len(flat) / 20))
    out = [0.0] * len(flat)
    for k, i in enumerate(order):
        out[i] = float(sm[k])
    n = len(FHr[0])
    return [out[j * n:(j + 1) * n] for j in range(len(FHr))]


def factor(w, N, p):
    """Accumulated log factor with and without drift, one list per path."""
    dt = p["T"] / N
    sf = math.sqrt(p["rho"]) * p["sig"]
    f, fw = [], []
    for row in w:
        a, b = [0.0], [0.0]
        for v in row:
            a.append(a[-1] + (p["r"] - p["d"] - 0.5 * p["sig"] ** 2) * dt + sf * math.sqrt(dt) * v)
            b.append(b[-1] - 0.5 * p["rho"] * p["sig"] ** 2 * dt + sf * math.sqrt(dt) * v)
        f.append(a)
        fw.append(b)
    return f, fw


def balance(LH, face, FH, Ft, p, H, n, mu, F):
    """LH, face, FH: [fs][path]; Ft: [fs][path]."""
    r, y, D, g = p["r"], p["y"], p["D"], p["g"] or 0
    BH = [[min(D, v * math.exp(-y * H)) for v in row] for row in LH]
    EH = [[v - b for v, b in zip(lr, br)] for lr, br in zip(LH, BH)]
    dfl = [[0.0 if v * math.exp(-y * H) - b > 0 else 1.0 for v, b in zip(lr, br)] for lr, br in zip(LH, BH)]
    GH = [[g * max(D - v * math.exp(-y * H), 0) for v in row] for row in LH]
    mean = lambda m, k=1.0: [math.fsum(row) / len(row) * k for row in m]
    disc = math.exp(-r * H)
    Lt, Bt, Et, Gt = mean(LH, disc), mean(BH, disc), mean(EH, disc), mean(GH, disc)
    lg = lambda v: math.log(v) if v > 0 else (-math.inf if v == 0 else math.nan)
    vol = lambda v: [5 * (lg(v[n + i]) - lg(v[2 * n + i])) for i in range(n)]
    T = lambda m: np.array(m[:n]).T
    return dict(Lt=Lt[:n], Bt=Bt[:n], Et=Et[:n], LH=T(LH), BH=T(BH), EH=T(EH), sigEt=vol(Et), mFt=mean(Ft)[:n], default=T(dfl), mdef=mean(dfl)[:n],
                face=T(face), FH=T(FH), Gt=Gt[:n], mu=mu, F=F, sigLt=vol(Lt))


def shocks_of_fs(fs, p, weight):
    sf = math.sqrt(p["rho"]) * p["sig"]
    return [v * sf * math.sqrt(p["T"]) * weight + b * sf / 10 for b in (0, 1, -1) for v in fs]


def cohorts_ref(fs, p, H, N, HN, w, mu):
    r, T, rho, sig, ltv, bookF = p["r"], p["T"], p["rho"], p["sig"], p["ltv"], p["bookF"]
    dt, ival = T / N, math.log(bookF / ltv)
    F = bookF * math.exp(mu * T)
    f, fw = factor(w, N, p)
    S, J = len(w), 3 * len(fs)
    LH = [[0.0] * S for _ in range(J)]
    face, FHm, Ft = ([[0.0] * S for _ in range(J)] for _ in range(3))
    for c in range(N):
        rolled = c < HN  # the loan standing at t+H is the second of its cohort
        at = (N - c) / N
        aH = (HN - c) / N if c <= HN else (N + HN - c) / N
        fsa = shocks_of_fs(fs, p, at)
        FHr, Lr, sc = ([[0.0] * S for _ in range(J)] for _ in range(3))
        left = T * (c - HN + (N if rolled else 0)) / N
        for s in range(S):
            past = fw[s][N] - fw[s][c]
            l2 = None
            for j in range(J):
                L1 = payoff(F, f[s][N + c] - f[s][c] - past + fsa[j], ival, rho, sig, T)
                Ft[j][s] += math.exp(f[s][N] - f[s][c] - past + fsa[j] + ival + 0.5 * (1 - rho) * T * at * sig ** 2) / N
                jen = 0.5 * (1 - rho) * T * aH * sig ** 2
                if rolled:
                    # everything about the second loan scales with its amount L1
                    if l2 is None:
                        l2 = payoff(F, f[s][2 * N + c] - f[s][N + c], ival, rho, sig, T)
                    sc[j][s] = L1 / bookF
                    Lr[j][s] = l2
                    FHr[j][s] = math.exp(f[s][N + HN] - f[s][N + c] + ival + jen)
                    fc = L1 * math.exp(mu * T)
                else:
                    sc[j][s] = 1.0
                    Lr[j][s] = L1
                    FHr[j][s] = math.exp(f[s][N + HN] - f[s][c] - past + fsa[j] + ival + jen)
                    fc = F
                face[j][s] += fc * math.exp(-r * left) / N
                FHm[j][s] += FHr[j][s] / N
        sm = conditional(FHr, Lr)
        for j in range(J):
            for s in range(S):
                LH[j][s] += sm[j][s] * sc[j][s] * math.exp(-r * left) / N
    return balance(LH, face, FHm, Ft, p, H, len(fs), mu, F)


def single_ref(fs, p, H, N, HN, w, mu):
    r, T, rho, sig = p["r"], p["T"], p["rho"], p["sig"]
    ival = math.log(p["bookF"] / p["ltv"])
    F = p["bookF"] * math.exp(mu * T)
    f, _ = factor(w, N, p)
    fsa = shocks_of_fs(fs, p, 1.0)
    FH = [[math.exp(f[s][HN] + a + ival + 0.5 * (1 - rho) * H * sig ** 2) for s in range(len(w))] for a in fsa]
    L1 = [[payoff(F, f[s][N] + a, ival, rho, sig, T) for s in range(len(w))] for a in fsa]
    left = math.exp(-r * (T - H))
    LH = [[v * left for v in row] for row in conditional(FH, L1)]
    face = [[F * left] * len(w) for _ in fsa]
    Ft = [[math.exp(a + ival)] * len(w) for a in fsa]
    return balance(LH, face, FH, Ft, p, H, len(fs), mu, F)


REF = {"cohorts": cohorts_ref, "single": single_ref}
NAMES = ("Lt", "Bt", "Et", "LH", "BH", "EH", "sigEt", "mFt", "default", "mdef", "face", "FH", "Gt", "mu", "F", "sigLt")


def code(model):
    return impl.native.mod_merton.mod_merton_computation if model == "cohorts" else impl.native.single.mod_single_cohort_computation


def plist(p, H):
    out = [p["r"], p["T"], p["bookF"], H, p["D"], p["rho"], p["ltv"], p["sig"], p["d"], p["y"]]
    return out if p["g"] is None else out + [p["g"]]


def compare(X, model, p, fs, N, HN, w, **kw):
    """Runs the code and the reference; nudges the loan amount off rounding ties."""
    H = p["T"] * HN / N
    for k in range(12):
        p = dict(p, bookF=p["bookF"] * (1 + 7e-4 * (k > 0)))
        mu = bisect_yield(p)
        try:
            ref = REF[model](fs, p, H, N, HN, w, mu)
            break
        except NearTie:
            X.count("nudged")
    else:
        X.fail("no loan amount away from a tie")
    wa, col = np.array(w), np.array(fs).reshape(-1, 1)
    par = plist(p, H)
    p0, w0, c0 = list(par), wa.copy(), col.copy()
    got = code(model)(col, par, N, len(w), wa, **kw)
    X.trace()
    X.edge(len(w) * N * 3 * len(fs))
    d = dict(model=model, params=p, fs=fs, N=N, HN=HN, paths=len(w))
    X.true(len(got) == len(NAMES), "number of results", **d)
    res = dict(zip(NAMES, got))
    X.same(float(res["mu"]), mu, "promised yield", rtol=1e-6, atol=1e-8, **d)
    X.same(float(res["F"]), p["bookF"] * math.exp(float(res["mu"]) * p["T"]), "face value", rtol=1e-10, **d)
    ref = REF[model](fs, p, H, N, HN, w, float(res["mu"]))
    # close to the boundary of default the sign of a rounding error decides
    edge = np.abs(ref["LH"] * math.exp(-p["y"] * H) - p["D"]) < 1e-8
    for k in NAMES:
        a, b = np.asarray(res[k], dtype=float), np.asarray(ref[k], dtype=float)
        if k == "default":
            a, b = np.where(edge, 0, a), np.where(edge, 0, b)
        if k == "mdef" and edge.any():
            continue
        if k == "sigEt":  # a logarithm of a value that may be zero up to rounding
            small = np.array([min(e) < 1e-6 for e in zip(ref["Et"], ref["Et"])])
            a, b = np.where(small, 0, a), np.where(small, 0, b)
        X.same(a, b, "%s of the %s model" % (k, model), rtol=1e-7, atol=1e-9, **d)
    Lt, Bt, Et = (np.asarray(res[k], dtype=float) for k in ("Lt", "Bt", "Et"))
    X.true(np.allclose(Lt, Bt + Et, rtol=1e-9, atol=1e-12), "assets are not debt plus equity", **d)
    X.true(par == p0 and (wa == w0).all() and (col == c0).all(), "the inputs were modified", **d)
    X.outcome([round(float(v), 8) for v in Et])
    return p, H, ref, res


def rng_shocks(seed, cols, n):
    u = np.random.RandomState(seed).rand(cols, n)
    inv = NormalDist().inv_cdf
    return [[inv(float(u[t, s])) for t in range(cols)] for s in range(n)]


def run(case, X):
    if "lookup" in case:
        return lookup(case, X)
    if "off" in case:
        return off(case, X)
    if "script" in case:
        return script(case, X)
    if "large" in case:
        model, N, n = case["large"], case["N"], case["paths"]
        w = rng_shocks(5, 3 * N if model == "cohorts" else N, n)
        X.state(model, N, case["HN"], n)
        compare(X, model, dict(BASE), FS[case["k"]], N, case["HN"], w)
        return
    model = case["model"]
    if "p" in case:
        p = grid(case["tier"])[case["p"]]
        cfg = [(4, 1, 2, 20, 1), (4, 3, 2, 20, 3), (5, 2, 4, 20, 1), (2, 1, 1, 40, 7), (10, 5, 2, 40, 1), (8, 7, 2, 40, 2)]
        for N, HN, k, n, seed in cfg:
            H = p["T"] * HN / N
            if not float(H * (N / p["T"])).is_integer():
                continue
            cols = 3 * N if model == "cohorts" else N
            w = rng_shocks(seed, cols, n)
            X.state(model, case["p"], N, HN, k, n, seed)
            q, H, _, res = compare(X, model, p, FS[k], N, HN, w)
            # the same shocks drawn by the code itself, and numbers of another type
            own = code(model)(np.array(FS[k]).reshape(-1, 1), plist(q, H), N, n, random_seed=seed)
            for a, b, name in zip(own, res.values(), NAMES):
                X.same(a, b, "%s with shocks of the model's own seed" % name, rtol=1e-6, atol=1e-8, model=model, params=q, N=N, seed=seed)
            if seed == 1:
                own = code(model)(np.array(FS[k]).reshape(-1, 1), tuple(plist(q, H)), N, n)
                for a, b, name in zip(own, res.values(), NAMES):
                    X.same(a, b, "%s with shocks of the default seed" % name, rtol=1e-6, atol=1e-8, model=model, params=q, N=N)
            flat = code(model)(np.array(FS[k]), plist(q, H), N, n, np.asfortranarray(np.array(w)))
            for a, b, name in zip(flat, res.values(), NAMES):
                X.same(a, b, "%s of a flat vector of factor values" % name, rtol=1e-7, atol=1e-10, model=model, params=q, N=N)
        X.sample({"model": model, "params": p})
        return
    # every factor history over an alphabet
    N, HN, A = case["N"], case["HN"], case["alphabet"]
    cols = 3 * N if model == "cohorts" else N
    lev = ALPHA[A]
    scale = [1 + 0.07 * math.sqrt(t + 2) for t in range(cols)]
    w = [[lev[i] * s for i, s in zip(h, scale)] for h in itertools.product(range(A), repeat=cols)]
    for h in range(len(w)):
        X.state(model, N, HN, A, h)
    want = next(k for k in (2, 1, 4, 3, 6) if int(len(w) * 3 * k / 20) % 2 == 0 and int(len(w) * 3 * k / 20) >= 2 and len(w) * 3 * k % 2 == 0)
    p = dict(BASE)
    compare(X, model, p, FS[want], N, HN, w)
    if len(w) < 1000:
        compare(X, model, dict(p, D=0.5, sig=0.4, r=0.03), FS[want], N, HN, w)
        # the order of the factor values is the order of the results
        q, H, _, a = compare(X, model, p, FS[want], N, HN, w)
        _, _, _, b = compare(X, model, q, FS[want][::-1], N, HN, w)
        X.same(np.asarray(b["mFt"], dtype=float)[::-1], a["mFt"], "results of reversed factor values", rtol=1e-9)
    X.sample({"model": model, "N": N, "HN": HN, "paths": len(w), "factor_values": FS[want]})


def lookup(case, X):
    model, k = case["lookup"], case["k"]
    f = impl.native.mod_lookup.mod_merton_create_lookup if model == "cohorts" else impl.native.single_lookup.mod_single_merton_create_lookup
    N, HN, n = ((4, 1, 20), (5, 2, 40), (4, 2, 40), (2, 1, 20), (5, 4, 20), (10, 5, 20))[k]
    T, d, y, rho, ltv, bookD = 10, 0.005, 0.002, 0.5 if k % 2 else 0.9, 0.66, 0.55
    H = T * HN / N
    fs, sig, r, F = FS[2] if k % 2 else FS[4], [0.1, 0.2], [0.01, 0.0, 0.03], [0.5, 0.66, 0.9, 1.1]
    if "sizes" in case:
        fs, sig, r, F = (list(v)[-z:] for v, z in zip((fs, sig, r, F), case["sizes"]))
        n = 40  # the smoother takes even windows only
    grids = np.meshgrid(fs, sig, r, F, indexing="ij")
    xfs, xsig, xr, xF = grids
    g0 = [g.copy() for g in grids]
    got = f(d, y, T, H, bookD, rho, ltv, xfs, xr, xF, xsig, N, n)
    X.true(all((a == b).all() for a, b in zip(grids, g0)), "the grids were modified")
    u = rng_shocks(1, 3 * N, n)
    for (j, s), (a, rr), (b, FF) in itertools.product(enumerate(sig), enumerate(r), enumerate(F)):
        X.state(model, k, j, a, b)
        X.edge()
        X.trace()
        p = dict(r=rr, T=T, bookF=FF, D=bookD * math.exp(rr * H), rho=rho, ltv=ltv, sig=s, d=d, y=y, g=None)
        try:
            ref = REF[model](fs, p, H, N, HN, u, bisect_yield(p))
        except NearTie:
            X.count("skipped_near_tie")
            continue
        edge = (np.abs(ref["LH"] * math.exp(-y * H) - p["D"]) < 1e-6).any()
        for t, name in zip(got, ("Lt", "Bt", "Et", "mFt", "mdef", "sigEt")):
            X.true(t.shape == xfs.shape, "shape of a lookup table", table=name)
            if name == "mdef" and edge:
                continue
            x, z = t[:, j, a, b], np.asarray(ref[name], dtype=float)
            if name == "sigEt":
                small = np.asarray(ref["Et"]) < 1e-4
                x, z = np.where(small, 0, x), np.where(small, 0, z)
            X.same(x, z, "lookup table of %s, %s model" % (name, model), rtol=1e-4 if name == "sigEt" else 1e-5, atol=1e-7, at=(j, a, b), params=p, N=N, HN=HN)
        X.outcome([round(v, 7) for v in ref["Et"]])
    X.sample({"lookup": model, "N": N, "HN": HN, "points": list(xfs.shape)})


def off(case, X):
    """Debt maturities that are not a whole number of periods are rejected, not truncated."""
    model = case["off"]
    for N, T, H in ((4, 10, 4), (5, 10, 3), (4, 10, 2.6), (10, 10, 5.5), (3, 10, 5)):
        X.state(model, N, T, H)
        X.edge()
        p = dict(BASE, T=T)
        cols = 3 * N if model == "cohorts" else N
        w = np.array(rng_shocks(1, cols, 20))
        try:
            got = code(model)(np.array(FS[2]).reshape(-1, 1), plist(p, H), N, 20, w)
        except Exception:
            X.outcome("rejected")
            X.trace()
            continue
        X.fail("a debt maturity between two periods is accepted", model=model, N=N, T=T, H=H, got=got[:3])


def script(case, X):
    """The documented setting, and repeated calls."""
    model = case["script"]
    fs = np.arange(-0.8, 0.85, 0.05) / (0.2 * np.sqrt(0.5) * np.sqrt(10))
    N, n = 10, 40
    p = dict(BASE, bookF=0.66, D=0.63 * math.exp(0.05) * float(np.mean(np.exp(0.01 * np.arange(1, 11)))))
    fs = fs[:32]
    w = rng_shocks(1, 3 * N if model == "cohorts" else N, n)
    X.state("script", model)
    q, H, _, a = compare(X, model, p, fs.tolist(), N, 5, w)
    for other in (dict(q, sig=0.4), dict(q, g=None), q):
        X.edge()
        code(model)(fs.reshape(-1, 1), plist(other, H), N, n, np.array(w))
        b = code(model)(fs.reshape(-1, 1), plist(q, H), N, n, np.array(w))
        for x, z, name in zip(a.values(), b, NAMES):
            X.true(np.array_equal(x, z, equal_nan=True), "%s depends on an earlier call" % name, model=model)
    # market values move with the factor
    X.true((np.diff(a["mFt"]) > 0).all(), "the asset value does not increase in the factor")
