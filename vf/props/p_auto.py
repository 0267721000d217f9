"""S01-S04: automatic order selection (auto_arima)."""
import numpy as np
from hypothesis import strategies as st
from ..core import sub, close, require, Violation, Discard
from .. import gen, models as M

NAMES = "ordmax stepwise nmodels approx stationary seasonal drift mean ic test type seas st0 st1 st2 st3 method".split()
IC = ["aic", "bic", "aicc"]


class Sel:
    pass


def run(W, c, x, xr, nx=None, L=0, nexec=1, fill=0):
    r = 0 if xr is None else xr.shape[1]
    a = [c.get("alpha", [.05, .05]), x]
    if r:
        a.append(xr.T.ravel())
        if L: a.append(nx.T.ravel())
    v = W.call("auto_arima", list(c["max"]) + [c["s"], r, len(x)] + [c["set"].get(k, -1) for k in NAMES] + [L, nexec, fill], *a)
    f = Sel()
    (f.retval, f.p, f.d, f.q, f.s, f.P, f.D, f.Q, f.M, f.ncoeff, f.lvcov, f.Nused) = (int(t) for t in v[:12])
    f.mean, f.var, f.loglik, f.aic, f.bic, f.aicc, f.sigma2 = v[12:19]
    f.drift = int(v[19]) if v[19] in (0, 1) else v[19]
    require(f.drift in (0, 1), "idrift is %r after the search" % v[19])
    k = 20
    def take(n):
        nonlocal k
        t = np.array(v[k:k + n]); k += n
        return t
    f.phi, f.theta, f.PHI, f.THETA, f.exog = take(f.p), take(f.q), take(f.P), take(f.Q), take(r + f.drift)
    f.vcov, f.res, f.pred, f.mse = take(f.lvcov), take(f.Nused), take(L), take(L)
    f.raw = v
    return f


@st.composite
def c_auto(draw, small=True, approx=(0, 0, 0, -1), regs=(0, 0, 0, 1, 2), L=None, seasonal=True, nmin=30, nmax=90):
    c = {"s": draw(st.sampled_from([0, 1, 4, 4, 3, 2] if seasonal else [0, 1])), "seed": draw(gen.seeds()),
         "kind": draw(st.sampled_from(["arma", "arma", "rwdrift", "trend", "seasonal", "seasonal", "white", "i2"])),
         "n": draw(st.integers(nmin, nmax)), "r": draw(st.sampled_from(regs)), "scale": draw(st.sampled_from([1.0, 1.0, 50.0, 0.05])),
         "shift": draw(st.sampled_from([0.0, 3.0, -40.0]))}
    c["max"] = [draw(st.sampled_from([0, 1, 2, 3, 3, 5])), draw(st.sampled_from([2, 1, 2, 0])), draw(st.sampled_from([0, 1, 2, 3, 3, 5])), draw(st.integers(0, 2)), draw(st.sampled_from([1, 1, 1, 0])), draw(st.integers(0, 2))]
    if c["kind"] == "seasonal" and seasonal and draw(st.integers(0, 3)): c["s"] = draw(st.sampled_from([4, 3, 4, 6, 2]))
    g = {"approx": draw(st.sampled_from(approx)), "stepwise": draw(st.sampled_from([1, 1, 0]))}
    for k, v in (("ordmax", [-1, -1, 3, 2]), ("stationary", [-1, -1, -1, 1]), ("seasonal", [-1, -1, -1, 0]), ("drift", [-1, -1, 0]), ("mean", [-1, -1, 0]),
                 ("ic", [-1, 0, 1, 2]), ("st0", [-1, -1, 0, 1, 3]), ("st1", [-1, -1, 0, 1, 3]), ("st2", [-1, -1, 0, 2]), ("st3", [-1, -1, 0, 2])):
        g[k] = draw(st.sampled_from(v))
    g["test"] = draw(st.sampled_from([-1, -1, 0, 1, 2]))
    if g["test"] >= 0: g["type"] = draw(st.sampled_from([0, 1]))
    c["alpha"] = [draw(st.sampled_from([.05, .01, .1])), .05]
    if not g["stepwise"]:      # bound the number of candidate fits
        c["max"][0], c["max"][2] = min(c["max"][0], 2), min(c["max"][2], 2)
        c["max"][3], c["max"][5] = min(c["max"][3], 1), min(c["max"][5], 1)
    c["set"] = {k: v for k, v in g.items() if v >= 0}
    if L: c["L"] = draw(st.sampled_from(L))
    return c


def data(c):
    rng = gen.rng_of(c["seed"]); n, s = c["n"], max(c["s"], 2)
    k = c["kind"]
    e = rng.standard_normal(n)
    ar = gen.coef_poly(rng, int(rng.integers(0, 3)), .85)
    ma = -gen.coef_poly(rng, int(rng.integers(0, 3)), .8)
    x = gen.arma_sim(rng, ar, ma, n)
    t = np.arange(n)
    if k == "rwdrift": x = np.cumsum(x + rng.uniform(-1, 1) * 2)
    elif k == "trend": x = x + rng.uniform(-.5, .5) * t
    elif k == "seasonal": x = x + 6 * np.resize(rng.standard_normal(s), n)
    elif k == "white": x = e
    elif k == "i2": x = np.cumsum(np.cumsum(x))
    x = x * c["scale"] + c["shift"]
    xr = rng.standard_normal((n, c["r"])) if c["r"] else None
    if c["r"]: x = x + xr @ rng.uniform(-2, 2, c["r"]) * c["scale"]
    nx = rng.standard_normal((c.get("L", 1), c["r"])) if c["r"] else None
    return x, xr, nx


def bounds(c, n):
    """Largest orders the search may use, from the settings."""
    g = c["set"]
    m = c["s"] if c["s"] > 1 and g.get("seasonal", 1) else 1
    p, d, q, P, D, Q = c["max"]
    if m == 1: P = Q = D = 0
    p, q, P, Q = min(p, n // 3), min(q, n // 3), min(P, n // 3 // m), min(Q, n // 3 // m)
    if m > 1 and P > 0: p = min(p, m - 1)
    if m > 1 and Q > 0: q = min(q, m - 1)
    if g.get("stationary", 0): d = D = 0
    return p, d, q, P, D, Q, m


def kpss(x, trend, alpha):
    """True when level (trend) stationarity is rejected; statistic and critical values of Kwiatkowski et al. (1992)."""
    n = len(x)
    t = np.arange(1, n + 1.0)
    Z = np.column_stack([np.ones(n), t]) if trend else np.ones((n, 1))
    e = x - Z @ np.linalg.lstsq(Z, x, rcond=None)[0]
    S = np.cumsum(e)
    l = int(3 * np.sqrt(n) / 13)
    s2 = e @ e / n + 2 / n * sum((1 - j / (l + 1)) * (e[j:] @ e[:n - j]) for j in range(1, l + 1))
    stat = S @ S / n ** 2 / s2
    crit = [0.119, 0.146, 0.176, 0.216] if trend else [0.347, 0.463, 0.574, 0.739]
    return stat, float(np.interp(stat, crit, [.10, .05, .025, .01]))


def close_to(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


@st.composite
def c_short(draw):
    c = draw(c_auto(regs=(0, 0, 0, 1)))
    c["n"] = draw(st.one_of(st.integers(3, 40), st.integers(3, 9))) + 2 * c["r"]; c["s"] = draw(st.sampled_from([0, 4, 5, 6, 8, 12])); c["kind"] = draw(st.sampled_from(["seasonal", "seasonal", "arma", "rwdrift"]))
    c["max"] = [draw(st.integers(0, 2)), draw(st.sampled_from([2, 1])), draw(st.integers(0, 2)), draw(st.integers(0, 2)), draw(st.sampled_from([1, 0])), draw(st.integers(0, 2))]
    c["set"].pop("seasonal", None)
    return c


@sub("S01", lambda tier: st.one_of(c_auto(approx=(0, 1, -1)), c_short()), 600, 12000, "selected model has at least one ARMA term or a difference",
     lambda c: c["kind"] != "white")
def orders_within_settings(c, W, ctx):
    x, xr, _ = data(c)
    f = run(W, c, x, xr)
    p, d, q, P, D, Q, m = bounds(c, len(x))
    ctx.label("d%d D%d drift%d" % (f.d, f.D, f.drift))
    for nm, got, mx in (("p", f.p, p), ("d", f.d, d), ("q", f.q, q), ("P", f.P, P), ("D", f.D, D), ("Q", f.Q, Q)):
        require(0 <= got <= mx, "%s = %d selected, settings allow 0..%d" % (nm, got, mx))
    if f.P + f.D + f.Q: require(f.s == m, "seasonal model with period %d, the period of the data is %d" % (f.s, m))
    g = c["set"]
    if not g.get("stepwise", 1): require(f.p + f.q + f.P + f.Q <= g.get("ordmax", 5), "exhaustive search selected %d ARMA terms, maximum is %d" % (f.p + f.q + f.P + f.Q, g.get("ordmax", 5)))
    if f.drift: require(f.d + f.D == 1 and g.get("drift", 1), "drift selected with d=%d D=%d, allowed=%d" % (f.d, f.D, g.get("drift", 1)))
    r = 0 if xr is None else xr.shape[1]
    mean = f.M - r - f.drift
    require(mean in (0, 1), "M = %d does not fit r=%d drift=%d" % (f.M, r, f.drift))
    if mean: require(f.d + f.D == 0 and g.get("mean", 1), "mean selected with d=%d D=%d, allowed=%d" % (f.d, f.D, g.get("mean", 1)))
    else: require(f.mean == 0, "model without mean reports mean %r" % f.mean)
    require(f.ncoeff == f.p + f.q + f.P + f.Q + f.M and f.lvcov == f.ncoeff ** 2, "ncoeff/lvcov do not match the model")
    require(f.Nused == len(x) - f.d - f.s * f.D, "Nused = %d" % f.Nused)
    if not (f.p + f.q + f.P + f.Q + f.d + f.D): ctx.trivial()


@st.composite
def c_diff(draw):
    c = draw(c_auto(regs=(0, 0, 1), seasonal=True))
    c["kind"] = draw(st.sampled_from(["rwdrift", "i2", "trend", "arma", "seasonal"]))
    g = c["set"]; g.pop("stationary", None); g["test"] = 0; g["type"] = draw(st.sampled_from([0, 0, 1])); g["approx"] = 0
    c["alpha"] = [draw(st.sampled_from([.05, .1])), .05]      # p-values come from a table ending at 0.01
    c["max"] = [1, draw(st.sampled_from([2, 2, 1])), 1, 1, draw(st.sampled_from([1, 0])), 1]
    return c


@sub("S01", c_diff(), 600, 15000, "every case; labels count the selected orders of differencing")
def number_of_differences(c, W, ctx):
    """d is the smallest number of differences after which KPSS no longer rejects stationarity."""
    x, xr, _ = data(c)
    f = run(W, c, x, xr)
    m = c["s"] if c["s"] > 1 and c["set"].get("seasonal", 1) else 1
    y = x
    if xr is not None:
        Z = np.column_stack([np.ones(len(x)), xr]); y = x - Z @ np.linalg.lstsq(Z, x, rcond=None)[0]
    y = M.difference(y, 0, m, f.D)
    if len(y) < 12: raise Discard()
    # ndiffs decides on a p-value; stay away from the threshold
    want = 0
    for k in range(c["max"][1] + 1):
        if k == c["max"][1]: want = k; break
        stat, pv = kpss(y, c["set"]["type"] == 1, 0)
        al = c["alpha"][0]
        if abs(pv - al) < 1e-6 and al not in (.01, .1): raise Discard()
        lim = {(0, .05): .463, (0, .01): .739, (0, .1): .347, (1, .05): .146, (1, .01): .216, (1, .1): .119}[(c["set"]["type"], al)]
        if abs(stat - lim) < 1e-6 * lim: raise Discard()
        if stat <= lim: want = k; break
        y = np.diff(y)
        if np.ptp(y) < 1e-9: raise Discard()
    ctx.label("d%d" % want)
    require(f.d == want, "d = %d selected; KPSS at level %g asks for %d" % (f.d, c["alpha"][0], want))


# ------------------------------------------------------------------ S02
def fit_candidate(W, f, x, xr, p, q, P, Q, const, s):
    d, D = f.d, f.D
    Z = xr
    drift = const and d + D == 1
    if drift:
        t = np.arange(1.0, len(x) + 1)[:, None]
        Z = t if xr is None else np.hstack([t, xr])
    if P + Q + D == 0: s = s          # same call as for a non-seasonal model; the period is then without effect
    return M.call_sarimax(W, x, p, d, q, P, D, Q, s, Z, int(bool(const)), 0)


def criteria(aic, k, n):
    return {"aic": aic, "bic": aic + k * (np.log(n) - 2), "aicc": aic + 2.0 * k * (k + 1) / (n - k - 1)}


def cand_ic(W, f, x, xr, key, s, ic):
    """Criterion of one candidate; inf when not admissible, None when admissibility is a matter of rounding."""
    p, q, P, Q, const = key
    g = fit_candidate(W, f, x, xr, p, q, P, Q, const, s)
    if g.retval != 1: return np.inf, g
    ar, ma = M.expand(g.phi, g.theta, g.PHI, g.THETA, s)
    root = min(M.min_root(ar), M.min_root(-ma))
    if abs(root - 1.01) < 1e-5: return None, g
    if root < 1.01: return np.inf, g
    if not np.isfinite(g.aic): return np.inf, g
    return criteria(g.aic, g.ncoeff + 1, g.Nused)[ic], g


@sub("S02", lambda tier: c_auto(approx=(0, 1, -1)), 500, 12000, "model has a coefficient", None)
def criteria_consistent(c, W, ctx):
    x, xr, _ = data(c)
    f = run(W, c, x, xr)
    if f.retval != 1: raise Discard()
    n, k = f.Nused, f.ncoeff + 1
    if f.ncoeff == 0: ctx.trivial()
    w = criteria(f.aic, k, n)
    require(close_to(f.aic, -2 * f.loglik + 2 * k), "aic = %.12g, -2 loglik + 2k = %.12g" % (f.aic, -2 * f.loglik + 2 * k))
    require(close_to(f.bic, w["bic"]), "bic = %.12g, expected %.12g" % (f.bic, w["bic"]))
    require(close_to(f.aicc, w["aicc"]), "aicc = %.12g, expected %.12g" % (f.aicc, w["aicc"]))
    require(close_to(f.sigma2, f.res @ f.res / (n - f.ncoeff)), "sigma2 = %.12g, residual sum of squares / degrees of freedom = %.12g" % (f.sigma2, f.res @ f.res / (n - f.ncoeff)))
    # the reported parameters are those of the reported likelihood
    Z = xr
    if f.drift:
        t = np.arange(1.0, len(x) + 1)[:, None]
        Z = t if xr is None else np.hstack([t, xr])
    r = 0 if xr is None else xr.shape[1]
    pr = M.Problem(x, f.p, f.d, f.q, f.s, f.P, f.D, f.Q, Z, f.M - r - f.drift)
    ar, ma = M.expand(f.phi, f.theta, f.PHI, f.THETA, f.s)
    require(M.min_root(ar) >= 1.01 - 1e-6 and M.min_root(-ma) >= 1.01 - 1e-6, "selected model has a root within 1.01")
    b = pr.params(f)
    if M.min_root(ar) < 1.02 or M.min_root(-ma) < 1.0101: raise Discard()
    l, s2, z = M.exact_l(ar, ma, pr.err(b))
    ctx.label("ncoeff%d" % min(f.ncoeff, 6))
    require(abs(f.loglik - M.loglik_of(l, n)) < 1e-3 + 2e-5 * n, "loglik = %.10g, exact likelihood of the reported model %.10g" % (f.loglik, M.loglik_of(l, n)))
    require(close_to(f.var, s2, 1e-4), "var = %.10g, exact %.10g" % (f.var, s2))


@sub("S02", lambda tier: c_auto(approx=(0,), regs=(0, 0, 0, 1)), 300, 8000, "at least three neighbours compared", None)
def not_beaten_by_candidates(c, W, ctx):
    """Stepwise: no neighbour of the chosen model is better; exhaustive: no model within the limits is better."""
    x, xr, _ = data(c)
    f = run(W, c, x, xr)
    if f.retval != 1: raise Discard()
    p_, d_, q_, P_, D_, Q_, m = bounds(c, len(x))
    g = c["set"]
    ic = IC[g.get("ic", 2)]
    s = c["s"]
    r = 0 if xr is None else xr.shape[1]
    const = int(f.M - r > 0)
    mine = {"aic": f.aic, "bic": f.bic, "aicc": f.aicc}[ic]
    allow = (g.get("drift", 1) and f.d + f.D == 1) or (g.get("mean", 1) and f.d + f.D == 0)
    cand = set()
    if g.get("stepwise", 1):
        if (f.p, f.q, f.P, f.Q, const) == (0, 0, 0, 0, 0) and allow: ctx.label("null without constant"); raise Discard()
        for dp, dq, dP, dQ in ((0, 0, -1, 0), (0, 0, 1, 0), (0, 0, 0, -1), (0, 0, 0, 1), (0, 0, -1, -1), (0, 0, 1, 1), (0, 0, -1, 1), (0, 0, 1, -1),
                               (-1, 0, 0, 0), (1, 0, 0, 0), (0, -1, 0, 0), (0, 1, 0, 0), (-1, -1, 0, 0), (1, 1, 0, 0), (-1, 1, 0, 0), (1, -1, 0, 0)):
            cand.add((f.p + dp, f.q + dq, f.P + dP, f.Q + dQ, const))
        cand = {k for k in cand if 0 <= k[0] <= p_ and 0 <= k[1] <= q_ and 0 <= k[2] <= P_ and 0 <= k[3] <= Q_}
        if allow: cand.add((f.p, f.q, f.P, f.Q, 1 - const))
        cand |= {(0, 0, 0, 0, int(bool(allow)))}
        if p_: cand.add((1, 0, int(P_ > 0), 0, int(bool(allow))))
        if q_: cand.add((0, 1, 0, int(Q_ > 0), int(bool(allow))))
    else:
        mo = g.get("ordmax", 5)
        for a in range(p_ + 1):
            for b in range(q_ + 1):
                for A in range(P_ + 1):
                    for B in range(Q_ + 1):
                        if a + b + A + B <= mo:
                            cand.add((a, b, A, B, 0))
                            if allow: cand.add((a, b, A, B, 1))
    cand.discard((f.p, f.q, f.P, f.Q, const))
    if len(cand) < 3: ctx.trivial()
    ctx.label("%s %d" % ("step" if g.get("stepwise", 1) else "full", min(len(cand), 40) // 10 * 10))
    for k in sorted(cand):
        v, h = cand_ic(W, f, x, xr, k, s if m > 1 else 0, ic)
        if v is None: continue
        require(mine <= v + 1e-7 * max(1, abs(v)), "%s of the selected (%d,%d,%d)(%d,%d,%d) const %d is %.10g, (%d,%d,%d)(%d,%d,%d) const %d has %.10g" % (
            ic, f.p, f.d, f.q, f.P, f.D, f.Q, const, mine, k[0], f.d, k[1], k[2], f.D, k[3], k[4], v))


# ------------------------------------------------------------------ S03
@sub("S03", lambda tier: c_auto(approx=(0, 1, -1), regs=(0, 0, 1, 2, 4), L=(1, 3, 8)), 500, 12000, "model has drift, regressors, or ARMA terms", None)
def forecasts(c, W, ctx):
    x, xr, nx = data(c)
    L = c["L"]
    f = run(W, c, x, xr, nx, L)
    if f.retval != 1: raise Discard()
    Z, Zn = xr, nx
    if f.drift:
        t = np.arange(1.0, len(x) + L + 1)[:, None]
        Z = t[:len(x)] if xr is None else np.hstack([t[:len(x)], xr])
        Zn = t[len(x):] if xr is None else np.hstack([t[len(x):], nx])
    ar, ma = M.expand(f.phi, f.theta, f.PHI, f.THETA, f.s)
    if M.min_root(ar) < 1.02 or M.min_root(-ma) < 1.005: raise Discard()
    y = x - f.mean
    if Z is not None: y = y - Z @ f.exog
    w = M.difference(y, f.d, f.s, f.D)
    m, C, z = M.forecast(ar, ma, w, L)
    pred, v = M.integrate(y, f.d, f.s, f.D, m, C)
    pred = pred + f.mean
    if Z is not None: pred = pred + Zn @ f.exog
    s2 = z @ z / len(w)
    if not f.ncoeff and not f.d + f.D: ctx.trivial()
    ctx.label("drift%d r%d d%d D%d" % (f.drift, c["r"], f.d, f.D))
    sd = np.sqrt(s2 * v.max())
    close("forecast", f.pred, pred, 0, 2e-4 * sd + 1e-7 * (np.max(np.abs(x)) + sd))
    close("mse", f.mse, s2 * v, 5e-3)


@st.composite
def c_exact(draw):
    return {"kind": draw(st.sampled_from(["const", "line", "periodic", "periodic+line", "zero"])), "n": draw(st.integers(24, 80)), "s": draw(st.sampled_from([0, 2, 3, 4, 5, 12])),
            "a": draw(st.integers(-9, 9)), "b": draw(st.sampled_from([-3, -1, 1, 2, 0.5])), "seed": draw(gen.seeds()), "L": draw(st.integers(1, 14)),
            "stepwise": draw(st.sampled_from([1, 0])), "scale": draw(st.sampled_from([1.0, 0.25, 1024.0]))}


@sub("S03", c_exact(), 300, 6000, "series is not identically zero", lambda c: c["kind"] != "zero")
def deterministic_series_are_continued(c, W, ctx):
    """A constant, a straight line and an exactly periodic series are continued exactly, with error variance zero."""
    n, L, s = c["n"], c["L"], c["s"]
    t = np.arange(n + L)
    k = c["kind"]
    if k.startswith("periodic") and (s < 2 or n < 4 * s): raise Discard()
    y = np.zeros(n + L)
    if k in ("const", "line"): y = y + c["a"]
    if k.endswith("line"): y = y + c["b"] * t
    if k.startswith("periodic"):
        pat = gen.rng_of(c["seed"]).integers(-20, 20, s)
        if np.ptp(pat) < 8: raise Discard()
        if k == "periodic+line": y = y + 2 * np.resize(pat, n + L)
        else: y = y + np.resize(pat, n + L)
    y = y * c["scale"]
    f = run(W, {"max": [3, 2, 3, 2, 1, 2], "s": s, "set": {"stepwise": c["stepwise"]}}, y[:n], None, None, L)
    ctx.label("%s d%d D%d" % (k, f.d, f.D))
    if k == "const" or k == "zero": require(f.d + f.D == 0, "a constant series was differenced")
    if k == "line" and f.d + f.D != 1: raise Discard()
    if k.startswith("periodic") and f.D != 1: raise Discard()
    sc = np.max(np.abs(y)) + 1
    close("continuation", f.pred, y[n:], 1e-9, 1e-9 * sc)
    require(np.all(np.abs(f.mse) <= 1e-9 * sc ** 2), "error variance %.3g of a series without error" % np.max(np.abs(f.mse)))


# ------------------------------------------------------------------ S04
@sub("S04", lambda tier: st.tuples(c_auto(approx=(0, 1, -1), L=(3,)), st.sampled_from([0, 1, 2, 3])).map(lambda t: dict(t[0], fill=t[1])), 250, 6000,
     "object was used before on another series or twice on this one", None)
def search_has_no_memory(c, W, ctx):
    """The result depends on the data and the settings only, not on what the object was used for before."""
    x, xr, nx = data(c)
    a = run(W, c, x, xr, nx, c["L"])
    b = run(W, c, x, xr, nx, c["L"], nexec=2 if c["fill"] == 0 else 1, fill=c["fill"])
    ctx.label("fill%d" % c["fill"])
    require(len(a.raw) == len(b.raw) and np.array_equal(a.raw, b.raw, equal_nan=True),
            "model (%d,%d,%d)(%d,%d,%d)%d drift %d loglik %.10g from a fresh object, (%d,%d,%d)(%d,%d,%d)%d drift %d loglik %.10g after another use" % (
            a.p, a.d, a.q, a.P, a.D, a.Q, a.s, a.drift, a.loglik, b.p, b.d, b.q, b.P, b.D, b.Q, b.s, b.drift, b.loglik))


@sub("S04", lambda tier: st.tuples(c_auto(approx=(0,), regs=(0,)), st.sampled_from([2.0, 0.125, 64.0, -1.0])).map(lambda t: dict(t[0], k=t[1])), 250, 6000,
     "unchanged model without moving-average terms, or comparison of the differencing orders", None)
def orders_do_not_depend_on_units(c, W, ctx):
    """Rescaling the series by a power of two (or -1) leaves the differences unchanged and scales the model."""
    x, xr, _ = data(c)
    a, b = run(W, c, x, xr), run(W, c, x * c["k"], xr)
    require((a.d, a.D) == (b.d, b.D), "d,D = %d,%d, after multiplying the data by %g %d,%d" % (a.d, a.D, c["k"], b.d, b.D))
    if a.retval != 1 or b.retval != 1: raise Discard()
    n = a.Nused
    ic = IC[c["set"].get("ic", 2)]
    va, vb = ({"aic": f.aic, "bic": f.bic, "aicc": f.aicc}[ic] for f in (a, b))
    same = (a.p, a.q, a.P, a.Q, a.M) == (b.p, b.q, b.P, b.Q, b.M)
    ctx.label("same" if same else "other model")
    if not same: raise Discard()
    if a.q + a.Q: raise Discard()      # moving-average terms: the optimiser may end in another local optimum
    require(abs(vb - va - 2 * n * np.log(abs(c["k"]))) < 0.3, "%s changed by %.6g, expected %.6g" % (ic, vb - va, 2 * n * np.log(abs(c["k"]))))
