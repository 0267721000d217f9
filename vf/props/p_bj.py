"""M06: estimation by the unconditional (backforecast) sum of squares of Box and Jenkins."""
import numpy as np
from hypothesis import strategies as st
from scipy.signal import lfilter
from ..core import sub, close, require, Violation, Discard
from .. import gen, models as M
from .p_model import c_fit, data, fit, problem, check_shape, structural, interior


def steps(c): return max(15 + c["D"] * c["s"], c["q"] + c["s"] * c["Q"] + 20 * (c["p"] + c["s"] * c["P"]))


def innovations(ar, ma, w, qd):
    """Backward residuals (zero beyond the end), qd backcasts, forward residuals over backcasts and series; the first is dropped."""
    k = max(len(ar), len(ma)); n = len(w); P = np.r_[1.0, -ar]; T = np.r_[1.0, ma]
    v = lfilter(P, [1.0], w[::-1])[k:]                       # w_i - sum ar w_{i+t}, from i = n-k-1 down to 0
    e = lfilter([1.0], T, v)[::-1]                           # e_0 ... e_{n-k-1}
    x = np.r_[np.zeros(qd), w]
    for j in range(qd - 1, -1, -1):
        s = ar @ x[j + 1:j + 1 + len(ar)] if len(ar) else 0.0
        for t in range(len(ma)):
            i = j + 1 + t - qd
            if 0 <= i < len(e): s += ma[t] * e[i]
        x[j] = s
    return lfilter(P, T, x)[1:]


def uss(c, pr, b):
    ar, ma = pr.arma(b)
    with np.errstate(all="ignore"): a = innovations(ar, ma, pr.err(b), steps(c))
    return a


def newton_gain(c, pr, b, h0=1e-4):
    if not pr.k: return 0.0
    sd = np.std(pr.err(b)); m = pr.Z.shape[1]; h = np.r_[np.full(pr.k - m, h0), np.full(m, h0 * sd)]
    f = lambda t: 0.5 * pr.n * np.log(np.sum(uss(c, pr, t) ** 2))
    l, g, H = M.grad_hess(f, b, h)
    if not np.isfinite(H).all() or not (np.diag(H) > 0).all(): return None
    d = np.sqrt(np.diag(H))
    if np.linalg.eigvalsh(H / np.outer(d, d)).min() < 5e-3: return None
    return 0.5 * g @ np.linalg.solve(H, g)


KW = dict(apis=("arima", "sarima"), maxp=4, maxq=4, maxP=2, maxQ=2, nmax=120, periods=(2, 3, 4, 7, 12), slow=False, opts=(5,), scales=(1.0, 1.0, 100.0, 0.01, 1e-4, 1e5))


def usable(c, pr, f):
    b = pr.params(f); require(np.isfinite(b).all(), "parameters %s" % b)
    if not interior(c, pr, f): raise Discard()
    return b


@sub("M06", c_fit(["bj"], **KW), 900, 12000, "(seasonal) ARIMA fits, scales 1e-4..1e5; non-trivial = at least one coefficient and a converged fit", structural)
def box_jenkins_fit(case, W, ctx):
    """Reported variance, residuals and covariance belong to the reported parameters, which minimise the sum of squares."""
    c = case; x, xr, nx, true = data(c); f = fit(W, c, x, xr); pr = problem(c, x, xr)
    require(f.retval in (1, 4), "return code %d" % f.retval); ctx.label("%s ret%d" % (c["api"], f.retval))
    check_shape(f, c, pr)
    require(np.isfinite(f.var) and f.var > 0, "variance %g" % f.var)
    if f.retval != 1: raise Discard()
    b = usable(c, pr, f); a = uss(c, pr, b); S = a @ a; dof = pr.n - pr.k; sd = np.sqrt(S / pr.n)
    close("variance", f.var, S / dof, 1e-6); close("residuals", f.res, a[steps(c) - 1:], 0, 1e-5 * sd)
    if pr.k:
        g = newton_gain(c, pr, b)
        if g is None: ctx.label("flat"); return
        require(g <= (0.01 if max(c["p"], c["q"]) <= 2 and max(c["P"], c["Q"]) <= 1 else 0.1), "the reported estimate is no minimiser: one Newton step gains %.4g" % g)
        J = np.zeros((len(a), pr.k)); h = np.r_[np.full(pr.k - pr.Z.shape[1], 1e-5), np.full(pr.Z.shape[1], 1e-5 * sd)]
        for i in range(pr.k):
            e = np.zeros(pr.k); e[i] = h[i]; J[:, i] = (uss(c, pr, b + e) - uss(c, pr, b - e)) / (2 * h[i])
        d = np.linalg.norm(J, axis=0); R = (J / d).T @ (J / d)
        if np.linalg.eigvalsh(R).min() > 1e-3:
            V = f.var * np.linalg.inv(R) / np.outer(d, d); s = np.sqrt(np.diag(V)); close("covariance matrix", f.vcov / np.outer(s, s), V / np.outer(s, s), 0, 2e-2)


@sub("M06", c_fit(["bj"], **dict(KW, L=[1, 2, 3, 5, 13, 30])), 300, 4000, "forecasts from Box-Jenkins fits against the exact predictor; non-trivial = coefficients or differencing", lambda c: structural(c) or c["d"] + c["D"] > 0)
def box_jenkins_forecast(case, W, ctx):
    from .p_model import forecasts
    forecasts(case, W, ctx)


@st.composite
def c_eq(draw):
    c = draw(c_fit(["bj"], **dict(KW, scales=(1.0,)))); c["a"] = draw(st.sampled_from([1e-4, .01, 50.0, 1e5])); c["b"] = draw(st.sampled_from([0.0, -7.0, 1000.0]))
    return c


@sub("M06", c_eq(), 300, 4000, "change of unit and origin; non-trivial = at least one coefficient", structural)
def box_jenkins_equivariance(case, W, ctx):
    c = case; x, xr, nx, _ = data(c); f = fit(W, c, x, xr); y = c["a"] * (x + (c["b"] if c["d"] + c["D"] == 0 else 0)); g = fit(W, c, y, xr)
    pr = problem(c, x, xr); py = problem(c, y, xr)
    if f.retval != 1 or g.retval != 1: raise Discard()
    b = usable(c, pr, f); b2 = usable(c, py, g); n1, n2 = (0.5 * pr.n * np.log(np.sum(uss(c, p, t) ** 2)) for p, t in ((pr, b), (py, b2)))
    # the sums of squares are equal up to the unit unless the search ends in another local minimum
    if newton_gain(c, pr, b) is None: raise Discard()
    d = n2 - n1 - pr.n * np.log(c["a"])
    require(d <= 0.05 or np.max(np.abs(b[:pr.k - pr.mean] - b2[:pr.k - pr.mean]), initial=0) > .1, "another unit or origin makes the fit worse by %g" % d)
    if d > 0.05: ctx.label("another local minimum"); ctx.trivial()


@st.composite
def c_pacf(draw): return {"n": draw(st.integers(30, 200)), "M": draw(st.integers(1, 5)), "seed": draw(gen.seeds()), "scale": draw(st.sampled_from([1.0, .01, 1e3])), "shift": draw(st.sampled_from([0.0, 10.0]))}


@sub("M06", c_pacf(), 300, 4000, "pacf_opt, method 2, of AR series; non-trivial = two lags or more", lambda c: c["M"] > 1)
def box_jenkins_pacf(case, W, ctx):
    c = case; rng = gen.rng_of(c["seed"]); x = c["scale"] * (gen.arma_sim(rng, gen.coef_poly(rng, 2, .85), np.zeros(0), c["n"]) + c["shift"])
    g = W.call("pacf", [2, c["n"], c["M"]], x)
    for k in range(1, c["M"] + 1):
        cc = {"p": k, "q": 0, "P": 0, "Q": 0, "s": 0, "D": 0}; f = M.call_arima(W, x, k, 0, 0, 2); pr = M.Problem(x, k, 0, 0)
        if f.retval != 1: continue
        close("partial autocorrelation %d" % k, g[k - 1], f.phi[-1], 0, 1e-9)
        if M.min_root(f.phi) > 1.02:
            t = newton_gain(cc, pr, pr.params(f)); require(t is None or t < .01, "AR(%d): one Newton step gains %g" % (k, t or 0))
