"""Reference models: plain scalar Python, written from the documentation, one step at a time."""
import math

INF = float("inf")
NAN = float("nan")


# -- volatility ---------------------------------------------------------------
def clamp(v, lo, hi):
    if v < lo:
        v = lo
    if v > hi:
        v = hi + 1000 if math.isinf(v) else hi + math.log(v / hi)
    return v


def garch_step(params, e, v):
    """Next unbounded variance; params = (omega, alpha, beta) or (omega, alpha, gamma, beta)."""
    if len(params) == 3:
        w, a, b = params
        return w + a * e * e + b * v
    w, a, g, b = params
    return w + a * e * e + b * v + (g * e * e if e < 0 else 0.0)


def garch_first(params, backcast):
    if len(params) == 3:
        w, a, b = params
        return w + (a + b) * backcast
    w, a, g, b = params
    return w + (a + g / 2 + b) * backcast


def garch_path(params, e, backcast, bounds):
    v = [garch_first(params, backcast)]
    for t in range(1, len(e)):
        v.append(clamp(garch_step(params, e[t - 1], v[-1]), bounds[t][0], bounds[t][1]))
    return v


def forecast_path(params, e, v0):
    v = [v0]
    for t in range(1, len(e)):
        v.append(garch_step(params, e[t - 1], v[-1]))
    return v[1:]


def ewma(e, v0, lam=0.94):
    v = [v0]
    for t in range(1, len(e)):
        v.append(lam * v[-1] + (1 - lam) * e[t - 1] ** 2)
    return v


def backcast(e):
    n = min(75, len(e))
    w = [0.94 ** i for i in range(n)]
    return math.fsum(wi * x * x for wi, x in zip(w, e)) / math.fsum(w)


def var(x):
    m = math.fsum(x) / len(x)
    return math.fsum((v - m) ** 2 for v in x) / len(x)


def mean(x):
    return math.fsum(x) / len(x)


def variance_bounds(e):
    lo, hi = var(e) / 1e8, 1e7 * (1 + max(x * x for x in e))
    out = []
    for v in ewma(e, backcast(e)):
        v = min(max(v, lo), hi)
        out.append((v / 1e6, v * 1e6))
    return out


def norm_ll(e, v):
    return math.fsum(-0.5 * (math.log(2 * math.pi) + math.log(vi) + ei * ei / vi) for ei, vi in zip(e, v))


def bvn_ll(e1, v1, e2, v2, rho):
    s = []
    for a, x, b, y in zip(e1, v1, e2, v2):
        r = rho[len(s)] if isinstance(rho, (list, tuple)) else rho
        z1, z2 = a / math.sqrt(x), b / math.sqrt(y)
        s.append(-0.5 * (2 * math.log(2 * math.pi) + math.log(x) + math.log(y) + math.log(1 - r * r)
                         + (z1 * z1 + z2 * z2 - 2 * r * z1 * z2) / (1 - r * r)))
    return math.fsum(s)


def garch_nll(returns, params, bc, bounds, zero_mean):
    if zero_mean:
        e, vp = list(returns), params
    else:
        e, vp = [r - params[0] for r in returns], params[1:]
    return -norm_ll(e, garch_path(list(vp), e, bc, bounds))


# -- DCC ----------------------------------------------------------------------
def dcc_path(a, b, z1, z2):
    n = len(z1)
    q11b = math.fsum(x * x for x in z1) / n
    q22b = math.fsum(x * x for x in z2) / n
    q12b = math.fsum(x * y for x, y in zip(z1, z2)) / n
    q11, q22, q12 = q11b, q22b, q12b
    rho, states = [], []
    for t in range(n):
        if t:
            q11 = (1 - a - b) * q11b + a * z1[t - 1] ** 2 + b * q11
            q22 = (1 - a - b) * q22b + a * z2[t - 1] ** 2 + b * q22
            q12 = (1 - a - b) * q12b + a * z1[t - 1] * z2[t - 1] + b * q12
        rho.append(q12 / math.sqrt(q11 * q22) if q11 * q22 > 0 else NAN)
        states.append((q11, q22, q12))
    return rho, states


# -- LRMES --------------------------------------------------------------------
def lrmes_path(innov, C, vi, vm, ei, em, a, b, rho, Qb, pi, pm):
    """pi, pm = (mu, omega, alpha, gamma, beta). Returns (firm return, event, states)."""
    qi = qm = 1.0
    qim = rho
    zi, zm = ei / math.sqrt(vi), em / math.sqrt(vm)
    ri = rm = 0.0
    states = []
    for xi, xm in innov:
        vi = garch_step(pi[1:], ei, vi)
        vm = garch_step(pm[1:], em, vm)
        qi = (1 - a - b) * Qb[0][0] + a * zi * zi + b * qi
        qm = (1 - a - b) * Qb[1][1] + a * zm * zm + b * qm
        qim = (1 - a - b) * Qb[1][0] + a * zi * zm + b * qim
        r = qim / math.sqrt(qi * qm)
        zm = xm
        zi = r * xm + math.sqrt(1 - r * r) * xi
        em = math.sqrt(vm) * zm
        ei = math.sqrt(vi) * zi
        rm += (pm[0] + em) / 100
        ri += (pi[0] + ei) / 100
        states.append((vi, vm, qi, qm, qim, ei, em, ri, rm))
    event = math.exp(rm) - 1 < C
    return (math.exp(ri) - 1 if event else 0.0), event, states, math.exp(rm) - 1


# -- series used by the checks ---------------------------------------------------
def lcg(seed):
    """Deterministic uniforms in (0, 1), independent of numpy's generators."""
    s = (seed * 2654435761 + 12345) & 0xFFFFFFFFFFFFFFFF
    while True:
        s = (s * 6364136223846793005 + 1442695040888963407) & 0xFFFFFFFFFFFFFFFF
        yield ((s >> 11) + 0.5) / float(1 << 53)


def normals(seed):
    u = lcg(seed)
    while True:
        r, t = math.sqrt(-2 * math.log(next(u))), 2 * math.pi * next(u)
        yield r * math.cos(t)
        yield r * math.sin(t)


def garch_series(seed, T, mu=0.05, omega=0.1, alpha=0.1, beta=0.8, gamma=0.0, burn=100):
    g = normals(seed)
    v, e, out = omega / max(1 - alpha - gamma / 2 - beta, 0.05), 0.0, []
    for t in range(T + burn):
        v = omega + (alpha + (gamma if e < 0 else 0.0)) * e * e + beta * v
        e = math.sqrt(v) * next(g)
        if t >= burn:
            out.append(mu + e)
    return out


def pair_series(seed, T, rho=0.5, **kw):
    """Two correlated GARCH-type series."""
    g = normals(seed)
    om, al, be, ga = kw.get("omega", 0.1), kw.get("alpha", 0.1), kw.get("beta", 0.8), kw.get("gamma", 0.0)
    v1 = v2 = om / max(1 - al - be - ga / 2, 0.05)
    e1 = e2 = 0.0
    x, y = [], []
    for t in range(T + 50):
        v1 = om + (al + (ga if e1 < 0 else 0)) * e1 * e1 + be * v1
        v2 = om + (al + (ga if e2 < 0 else 0)) * e2 * e2 + be * v2
        a, b = next(g), next(g)
        e1, e2 = math.sqrt(v1) * a, math.sqrt(v2) * (rho * a + math.sqrt(1 - rho * rho) * b)
        if t >= 50:
            x.append(kw.get("mu", 0.03) + e1)
            y.append(kw.get("mu", 0.03) + e2)
    return x, y


# -- probability of informed trading ----------------------------------------------
def pin_ll(B, S, par):
    """Log-likelihood of (alpha, delta, eB, eS, mu), without the factorials of the counts."""
    a, d, eb, es, mu = par

    def pois(k, lam):  # log of lam**k exp(-lam)
        return (k * math.log(lam) if k else 0.0) - lam if lam > 0 else (0.0 if k == 0 else -INF)

    out = []
    for b, s in zip(B, S):
        terms = [(a * (1 - d), pois(b, mu + eb) + pois(s, es)), (a * d, pois(b, eb) + pois(s, mu + es)), (1 - a, pois(b, eb) + pois(s, es))]
        terms = [(w, x) for w, x in terms if w > 0 and x > -INF]
        if not terms:
            return -INF
        m = max(x for _, x in terms)
        out.append(m + math.log(math.fsum(w * math.exp(x - m) for w, x in terms)))
    return math.fsum(out)


def pin_starts(B, S):
    grid = (0.1, 0.3, 0.5, 0.7, 0.9)
    mb, ms = mean(B), mean(S)
    for a in grid:
        for d in grid:
            for g in grid:
                eb = g * mb
                mu = (mb - eb) / (a * (1 - d))
                es = ms - a * d * mu
                if es >= 0:
                    yield (a, d, eb, es, mu)
