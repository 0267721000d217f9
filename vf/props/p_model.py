"""M01-M06, F01-F02: (seasonal) ARIMA models with regressors: likelihood, CSS, optimality, covariance, equivalence, forecasts."""
import numpy as np
from hypothesis import strategies as st
from ..core import sub, close, require, Violation, Discard, Crash
from .. import gen, models as M

LOG2PI = np.log(2 * 3.14159)      # the library's constant; the tolerance covers the difference to 2*pi


@st.composite
def c_fit(draw, methods, apis=("arima", "sarima", "sarimax"), maxp=3, maxq=3, maxP=2, maxQ=2, slow=True, nmin=40, nmax=120, maxr=2, L=None, dmax=2, Dmax=1,
          scales=(1.0, 1.0, 100.0, 0.01), periods=(2, 3, 4, 7, 12), opts=(-1, 5, 5, 6, 7, 0)):
    """methods: 'mle' and/or 'css'."""
    api = draw(st.sampled_from(apis))
    c = {"api": api, "p": draw(st.integers(0, maxp)), "q": draw(st.integers(0, maxq)), "d": draw(st.sampled_from([0, 0, 1, 2][:2 + dmax])),
         "P": 0, "Q": 0, "D": 0, "s": 0, "r": 0, "imean": 1}
    if api != "arima":
        c["s"] = draw(st.sampled_from(periods))
        c["P"], c["Q"], c["D"] = draw(st.integers(0, maxP)), draw(st.integers(0, maxQ)), draw(st.sampled_from([0, 0, 1, 2][:2 + Dmax]))
        if c["s"] >= 7:
            c["P"], c["Q"] = min(c["P"], 1), min(c["Q"], 1)
            if c["P"] + c["Q"]: c["p"], c["q"] = min(c["p"], 2), min(c["q"], 2)      # keep a fit under a second
    if api == "sarimax":
        c["r"], c["imean"] = draw(st.integers(0, maxr)), draw(st.sampled_from([1, 1, 0]))
    c["method"] = draw(st.sampled_from(methods))
    c["opt"] = draw(st.sampled_from(opts))
    c["cssml"] = draw(st.sampled_from([-1, 0, 1]))
    c["n"] = draw(st.integers(nmin, nmax)) + c["s"] * c["D"] + c["d"]
    if slow and c["p"] + c["q"] + c["P"] + c["Q"] <= 3 and c["s"] * max(c["P"], c["Q"]) <= 8 and draw(st.integers(0, 2)) == 0:
        c["opt"] = draw(st.sampled_from([1, 2, 3, 4])); c["n"] = min(c["n"], 70)
    if c["opt"] in (0, 6) and c["p"] + c["q"] + c["P"] + c["Q"] + c["r"] > 6: c["opt"] = 5      # these need seconds for many coefficients
    c["seed"] = draw(gen.seeds())
    c["scale"] = draw(st.sampled_from(scales)); c["shift"] = draw(st.sampled_from([0, 0, 10]))
    if L: c["L"] = draw(st.sampled_from(L))
    return c


def data(c):
    rng = gen.rng_of(c["seed"])
    phi, th = gen.coef_poly(rng, c["p"], .9), -gen.coef_poly(rng, c["q"], .9)
    PHI, TH = gen.coef_poly(rng, c["P"], .8), gen.coef_poly(rng, c["Q"], .8)
    ar, ma = M.expand(phi, -th, PHI, TH, c["s"])
    n, s = c["n"], c["s"]
    x = gen.arma_sim(rng, ar, ma, n)
    for _ in range(c["d"]): x = np.cumsum(x)
    for _ in range(c["D"]):
        for i in range(s, n): x[i] += x[i - s]
    x = c["scale"] * (x + c["shift"])
    xr = rng.standard_normal((n, c["r"])) if c["r"] else None
    if c["r"]: x = x + xr @ rng.standard_normal(c["r"]) * c["scale"]
    nx = rng.standard_normal((c.get("L", 1), c["r"])) if c["r"] else None
    return x, xr, nx, np.r_[phi, -th, PHI, TH]


def fit(W, c, x, xr, nx=None, L=0, **kw):
    k = {"css": {"arima": 1, "sarima": 1, "sarimax": 2}[c["api"]], "mle": 0 if (c["api"] != "sarimax" or c["cssml"] != 0) else 1, "bj": 2}[c["method"]]
    if c["api"] == "arima":
        f = M.call_arima(W, x, c["p"], c["d"], c["q"], k, c["opt"], c["cssml"], L, **kw)
    elif c["api"] == "sarima":
        f = M.call_sarima(W, x, c["p"], c["d"], c["q"], c["s"], c["P"], c["D"], c["Q"], k, c["opt"], c["cssml"], L, **kw)
    else:
        f = M.call_sarimax(W, x, c["p"], c["d"], c["q"], c["P"], c["D"], c["Q"], c["s"], xr, c["imean"], k, c["opt"], L, nx, **kw)
    return f


def problem(c, x, xr):
    return M.Problem(x, c["p"], c["d"], c["q"], c["s"], c["P"], c["D"], c["Q"], xr, c["imean"] if c["api"] == "sarimax" else 1)


def ok(f, ctx, c):
    ctx.label("%s ret%d" % (c["api"], f.retval))
    require(f.retval in (0, 1, 4, 7, 10, 12, 15), "undocumented return code %d" % f.retval)
    if f.retval != 1: raise Discard()


def check_shape(f, c, pr):
    n = c["n"] - c["d"] - c["s"] * c["D"]
    require((f.p, f.d, f.q, f.P, f.D, f.Q) == (c["p"], c["d"], c["q"], c["P"], c["D"], c["Q"]), "orders changed by the fit")
    require(f.Nused == n, "Nused is %d, expected %d" % (f.Nused, n))
    require(f.ncoeff == pr.k, "ncoeff is %d, expected %d" % (f.ncoeff, pr.k))
    require(f.lvcov == pr.k ** 2, "lvcov is %d, expected %d" % (f.lvcov, pr.k ** 2))
    if not pr.mean: require(f.mean == 0.0, "mean is %r in a model without mean" % f.mean)


def structural(c):
    return c["p"] + c["q"] + c["P"] + c["Q"] >= 1


@sub("M01", c_fit(["mle"], maxp=5, maxq=4), 600, 9000, "fits by maximum likelihood of (S)ARIMA(X) models with random orders, periods, optimisers, scales; non-trivial = at least one ARMA coefficient and a converged stationary fit", structural)
def mle_values(case, W, ctx):
    c = case; x, xr, nx, _ = data(c)
    f = fit(W, c, x, xr); ok(f, ctx, c)
    pr = problem(c, x, xr); check_shape(f, c, pr)
    b = pr.params(f); ar, ma = pr.arma(b)
    rt = M.min_root(ar)
    if rt <= 1.00001: ctx.label("non-stationary estimate"); raise Discard()
    l, s2, z = M.exact_l(ar, ma, pr.err(b))
    def compare(dl=0.0, dv=0.0, dz=0.0):
        tol = 1e-6 * pr.n + 1e-6 + 1e-9 / (rt - 1) + dl * pr.n
        ll = -0.5 * pr.n * (2 * l + 1 + np.log(2 * np.pi))
        close("log-likelihood", f.loglik, ll, rtol=0, atol=tol)
        close("variance", f.var, s2, rtol=1e-6 + 1e-10 / (rt - 1) + dv)
        close("aic", f.aic, -2 * ll + 2 * (pr.k + 1), rtol=0, atol=2 * tol)
        close("residuals", f.res, z, rtol=0, atol=np.sqrt(s2) * (1e-6 + 1e-10 / (rt - 1)) + dz)
    try: compare()
    except Violation:
        # many roots near the circle: as much again as the reference itself moves when the coefficients change in the twelfth digit
        k = [M.exact_l(ar * (1 + e), ma, pr.err(b)) for e in 1e-12 * gen.rng_of(1).standard_normal((4, len(ar)))]
        compare(*(8 * max(np.max(np.abs(v[i] - r)) for v in k) / g for i, r, g in ((0, l, 1), (1, s2, s2), (2, z, 1))))
    for nm, t in (("MA", f.theta), ("seasonal MA", f.THETA)):
        require(M.min_root(t) > 1 - 1e-6, "%s polynomial reported in a non-invertible form" % nm)


@sub("M02", c_fit(["css"], maxp=5, maxq=4), 900, 12000, "fits by conditional sum of squares; non-trivial = at least one ARMA coefficient and a converged fit", structural)
def css_values(case, W, ctx):
    c = case; x, xr, nx, _ = data(c)
    f = fit(W, c, x, xr); ok(f, ctx, c)
    pr = problem(c, x, xr); check_shape(f, c, pr)
    b = pr.params(f); ar, ma = pr.arma(b)
    if len(ma) and M.min_root(-ma) < 0.999: ctx.label("non-invertible estimate")
    e = M.css_fast(ar, ma, pr.err(b))
    k = pr.n - len(ar)
    require(np.isfinite(e).all(), "conditional residuals at the reported parameters overflow")
    s = e @ e
    # errors of the recursion grow with the non-invertible part
    amp = max(1.0, np.abs(M.psi(-ma, np.zeros(0), pr.n)).max()) if len(ma) else 1.0
    t = 1e-8 + 1e-12 * amp
    close("variance", f.var, s / (k if c["api"] == "sarimax" else pr.n), rtol=t)
    close("log-likelihood", f.loglik, -0.5 * pr.n * (np.log(s / k) + 1 + np.log(2 * np.pi)), rtol=0, atol=pr.n * (1e-6 + t))
    close("residuals", f.res, e, rtol=0, atol=np.sqrt(s / k) * (1e-6 + 1e-6 * amp * 1e-3))


@sub("M02", c_fit(["css"], maxp=3, maxq=3, maxP=1, maxQ=1, nmin=150, nmax=500, maxr=5, periods=(13, 24, 52, 4), opts=(-1, 5), slow=False), 150, 2500, "long series, weekly and hourly periods, up to five regressors", structural)
def css_values_of_long_series(case, W, ctx): css_values(case, W, ctx)


@sub("M01", c_fit(["mle"], maxp=3, maxq=3, maxP=1, maxQ=1, nmin=150, nmax=500, maxr=5, periods=(2, 4), opts=(-1, 5), slow=False), 80, 1500, "long series, up to five regressors", structural)
def mle_values_of_long_series(case, W, ctx): mle_values(case, W, ctx)


@sub("F01", c_fit(["css"], maxp=2, maxq=2, maxP=1, maxQ=1, nmin=100, nmax=300, maxr=5, periods=(13, 24, 4), opts=(-1, 5), slow=False, L=[1, 24, 60, 150]), 60, 1200, "long series and horizons, hourly periods, up to five regressors", lambda c: structural(c) or c["d"] + c["D"] > 0)
def long_forecasts(case, W, ctx): forecasts(case, W, ctx)


def decrement(c, pr, f, fun, h0=1e-4):
    b = pr.params(f)
    k = pr.k - pr.Z.shape[1]
    sd = np.std(pr.err(b))
    zs = np.sqrt((pr.Z ** 2).mean(0)) if pr.Z.shape[1] else np.zeros(0)
    h = np.r_[np.full(k, h0), h0 * sd / np.maximum(zs, 1e-300)]
    l, g, H = M.grad_hess(fun, b, h)
    if not np.isfinite(H).all() or not (np.diag(H) > 0).all(): return None
    dg = np.sqrt(np.diag(H))
    ev = np.linalg.eigvalsh(H / np.outer(dg, dg)).min()
    if ev < 5e-3: return None
    return 0.5 * pr.n * g @ np.linalg.solve(H, g), H, ev


def near_double(t):
    """Real and (nearly) coinciding inverse roots: flipping one root of such a polynomial is a stationary point of the
    unconstrained likelihood that is no maximum (theta_2 = 1 line), a known limit of the method and no defect."""
    if len(t) == 0: return False
    r = np.roots(np.r_[1.0, -np.asarray(t)])
    if len(r) < len(t) or np.abs(r).min() < 0.05: return True   # root driven to infinity, where the likelihood is flat, then inverted
    if len(t) < 2: return False
    d = np.abs(r[:, None] - r[None, :]) + np.eye(len(r))
    return d.min() < 0.03


def interior(c, pr, f):
    b = pr.params(f); ar, ma = pr.arma(b)
    return M.min_root(ar) > 1.02 and (len(ma) == 0 or M.min_root(-ma) > 1.02)


UNITS = (1.0, 1.0, 0.2, 5.0, 100.0, 1e6, 1e-6, 1e12)


@sub("M03", c_fit(["mle", "css"], maxp=4, maxq=3, maxP=2, maxQ=2, nmax=90, periods=(2, 3, 4), scales=UNITS, opts=(-1, 5, 5, 6, 7)), 700, 9000,
     "converged interior fits: predicted gain of one Newton step of the reference objective; non-trivial = at least one ARMA coefficient", structural)
def fit_is_optimal(case, W, ctx):
    c = dict(case)
    rough = c["opt"] in (1, 2, 3, 4, 6, 7)
    g = gain(c, W, ctx)
    if g is None: raise Discard()
    if isinstance(g, str):
        if g == "empty": ctx.trivial(); return
        ctx.label(g); raise Discard()
    if g > (0.1 if rough else 0.01):
        if c["opt"] in (4, 6, 7):
            # documented code 6 (line search cannot improve) is a "possible success": one stall is no defect, systematic stalls are
            others = []
            for k in range(1, 9):
                h = gain(dict(c, seed=c["seed"] + k), W, ctx)
                if isinstance(h, float): others.append(h > 0.1)
            if sum(others) <= len(others) / 2: ctx.label("isolated line-search stall"); raise Discard()
        raise Violation("reported estimate is not a maximiser: one Newton step gains %.4g in log-likelihood" % g)
    ctx.label(c["method"])


def gain(c, W, ctx):
    x, xr, nx, true = data(c)
    f = fit(W, c, x, xr)
    require(f.retval in (0, 1, 4, 7, 10, 12, 15), "undocumented return code %d" % f.retval)
    if f.retval != 1: return "ret%d" % f.retval
    pr = problem(c, x, xr)
    if pr.k == 0: return "empty"
    if not interior(c, pr, f): return "boundary estimate"
    if near_double(f.theta) or near_double(f.THETA): return "double MA root"
    r = decrement(c, pr, f, pr.mle if c["method"] == "mle" else pr.css)
    return "flat objective" if r is None else float(r[0])


@sub("M03", c_fit(["mle", "css"], maxp=3, maxq=0, maxP=0, maxQ=0, nmax=90, periods=(2, 3, 4), scales=UNITS, opts=(-1, 5, 6, 7)), 400, 6000,
     "pure AR fits (one optimum): objective no worse than at the generating coefficients with least-squares mean/regressors; non-trivial = at least one coefficient", structural)
def fit_beats_truth(case, W, ctx):
    c = case; x, xr, nx, true = data(c)
    f = fit(W, c, x, xr); ok(f, ctx, c)
    pr = problem(c, x, xr)
    if not structural(c): ctx.trivial()
    fun = pr.mle if c["method"] == "mle" else pr.css
    b = pr.params(f)
    b0 = np.r_[true, np.linalg.lstsq(pr.Z, pr.w, rcond=None)[0] if pr.Z.shape[1] else []]
    a, a0 = fun(b), fun(b0)
    if not np.isfinite(a): raise Discard()
    require(pr.n * (a - a0) <= 1e-3, "objective at the reported estimate is %.6g worse than at the generating parameters" % (pr.n * (a - a0)))


@sub("M04", c_fit(["mle", "css"], maxp=4, maxq=3, maxP=2, maxQ=2, nmin=28, nmax=90, periods=(2, 3, 4, 12), scales=UNITS, opts=(-1, 5, 6, 7)), 700, 9000,
     "converged interior fits: covariance matrix against the inverse numerical information of the reference objective; non-trivial = at least two coefficients",
     lambda c: c["p"] + c["q"] + c["P"] + c["Q"] + c["r"] + (c["d"] == 0) >= 2)
def covariance_is_inverse_information(case, W, ctx):
    c = case; x, xr, nx, _ = data(c)
    f = fit(W, c, x, xr); ok(f, ctx, c)
    pr = problem(c, x, xr); k = pr.k
    require(f.ncoeff == k and f.vcov.shape == (k, k), "covariance matrix has the wrong size")
    if k == 0: ctx.trivial(); return
    if not interior(c, pr, f): ctx.label("boundary estimate"); raise Discard()
    if near_double(f.theta) or near_double(f.THETA): ctx.label("double MA root"); raise Discard()
    r = decrement(c, pr, f, pr.mle if c["method"] == "mle" else pr.css)
    if r is None: ctx.label("flat objective"); raise Discard()
    if r[0] > 1e-2: ctx.label("not at optimum"); raise Discard()
    V = np.linalg.inv(pr.n * r[1])
    r3 = decrement(c, pr, f, pr.mle if c["method"] == "mle" else pr.css, 3e-4)
    if r3 is None: ctx.label("flat objective"); raise Discard()
    close("covariance symmetry", f.vcov, f.vcov.T, rtol=1e-6)
    S = np.r_[np.ones(c["p"]), -np.ones(c["q"]), np.ones(c["P"]), -np.ones(c["Q"]), np.ones(pr.Z.shape[1])]
    L = np.linalg.cholesky(V); Li = np.linalg.inv(L)
    e = [np.abs(Li @ A @ Li.T - np.eye(k)).max() for A in (f.vcov, f.vcov * np.outer(S, S))]   # either sign convention of the MA block
    # both second differences are inexact: more so on ridges (small eigenvalue) and where the curvature changes within the step
    tol = min(0.2, 0.04 + 0.001 / r[2] + 5 * np.abs(Li @ np.linalg.inv(pr.n * r3[1]) @ Li.T - np.eye(k)).max())
    require(min(e) <= tol, "covariance matrix is not the inverse information (relative deviation %.3g); standard errors %s vs %s"
            % (min(e), np.sqrt(np.abs(np.diag(f.vcov)))[:6], np.sqrt(np.diag(V))[:6]))


@sub("M05", c_fit(["mle", "css"], apis=("arima",), nmax=100, opts=(-1, 5, 6, 7), slow=False, L=[1, 3, 10]), 300, 4000,
     "the same ARIMA model through arima, sarima and sarimax; non-trivial = p+q>=1", structural)
def apis_agree(case, W, ctx):
    c = dict(case); x, xr, nx, _ = data(c)
    L = c["L"]
    cs = c["cssml"] = 1
    r = {}
    for api, s in (("arima", 0), ("sarima", 4), ("sarimax", 4)):
        k = dict(c, api=api, s=s)
        r[api] = fit(W, k, x, None, None, L)
    a = r["arima"]
    if any(f.retval != 1 for f in r.values()): raise Discard()
    pr = problem(c, x, None)
    if not interior(c, pr, a) : ctx.label("boundary estimate"); raise Discard()
    for api in ("sarima", "sarimax"):
        f = r[api]
        dl = abs(f.loglik - a.loglik)
        if dl > 1e-3:
            if c["q"] >= 2 or (c["p"] >= 1 and c["q"] >= 1): ctx.label("another local optimum"); continue
            k = pr.n - c["p"]
            raise Violation("%s and arima reach different optima of a model with one: %.8g vs %.8g" % (api, f.loglik, a.loglik))
        if dl < 1e-6:
            sc = np.sqrt(a.mse.max())
            if near_double(a.theta) or c["p"] and c["q"]: continue
            close("%s vs arima forecasts" % api, f.pred, a.pred, rtol=0, atol=0.05 * sc)
            close("%s vs arima forecast errors" % api, f.mse, a.mse, rtol=0.02)


@sub("M05", c_fit(["mle", "css"], maxp=2, maxq=1, maxP=1, maxQ=1, nmax=90, periods=(2, 3, 4), scales=(1.0,), opts=(-1, 5, 6, 7), slow=False), 400, 4000,
     "y -> a*y (+ c when a mean is fitted, + multiples of the regressors), regressors in other units; non-trivial = at least one ARMA coefficient", structural)
def equivariance(case, W, ctx):
    c = case; x, xr, nx, _ = data(c)
    rng = gen.rng_of(c["seed"] + 1)
    f = fit(W, c, x, xr)
    a = float(rng.choice([0.5, 2.0, 4.0, 1.0, -1.0, 2.0 ** 10, 2.0 ** -10, 1e6, 1e-6, 1e12]))
    pr = problem(c, x, xr)
    if pr.k == 0: raise Discard()
    sh = float(rng.choice([0, 3.0, -20.0, 1e4])) * abs(a) if pr.mean else 0.0
    be = a * rng.standard_normal(c["r"]) if c["r"] else np.zeros(0)
    u = rng.choice([1.0, 1.0, 1e3, 1e-6, -4.0], c["r"])
    y = a * x + sh + (xr @ be if c["r"] else 0)
    g = fit(W, c, y, xr * u if c["r"] else xr)
    if f.retval != 1 or g.retval != 1: raise Discard()
    if not interior(c, pr, f): ctx.label("boundary estimate"); raise Discard()
    m = pr.n
    want = f.loglik - m * np.log(abs(a))
    if abs(g.loglik - want) > 2e-3:
        if (c["p"] and c["q"]) or (c["P"] and c["Q"]) or (c["s"] and c["s"] <= max(c["p"], c["q"])): ctx.label("another local optimum"); raise Discard()
        if c["q"] or c["Q"]: ctx.label("another local optimum"); raise Discard()
        raise Violation("log-likelihood of a*y+c is %.8g, expected %.8g" % (g.loglik, want))
    r = decrement(c, pr, f, pr.mle if c["method"] == "mle" else pr.css)
    if r is None: ctx.label("flat objective"); raise Discard()
    se = np.sqrt(np.diag(np.linalg.inv(m * r[1])))
    b, b2 = pr.params(f), pr.params(g)
    k = pr.k - pr.Z.shape[1]
    exp = np.r_[b[:k], a * b[k:]]
    if pr.mean: exp[k] += sh
    if c["r"]: exp[pr.k - c["r"]:] += be
    sc = np.r_[se[:k], abs(a) * se[k:]]
    if c["r"]: exp[pr.k - c["r"]:] /= u; sc[pr.k - c["r"]:] /= np.abs(u)
    mixed = c["p"] * c["q"] + c["P"] * c["Q"] + (c["s"] <= max(c["p"], c["q"])) * (c["P"] + c["Q"]) > 0    # common factors make the surface a ridge
    if pr.k:
        dv = np.abs(b2 - exp) / sc
        require(dv.max() <= (2.0 if mixed else 0.2), "estimates of a*y+c+X*g do not transform accordingly: %s, expected %s" % (b2, exp))
    close("variance", g.var, a * a * f.var, rtol=1e-2)


@st.composite
def c_collinear(draw):
    c = draw(c_fit(["mle", "css"], apis=("sarimax",), maxp=1, maxq=1, maxP=0, maxQ=0, nmax=60, slow=False, opts=(5,)))
    c["r"] = draw(st.integers(2, 3)); c["kind"] = draw(st.sampled_from(["duplicate", "combination", "constant", "zero"]))
    return c


@sub("M05", c_collinear(), 60, 600, "sarimax with exactly dependent regressor columns is refused with return code 7; non-trivial = always")
def collinear_regressors_are_refused(case, W, ctx):
    c = case; x, xr, nx, _ = data(c)
    xr = xr.copy()
    if c["kind"] == "duplicate": xr[:, -1] = xr[:, 0]
    elif c["kind"] == "combination": xr[:, -1] = 2 * xr[:, 0] - (xr[:, 1] if c["r"] > 2 else 0)
    elif c["kind"] == "zero": xr[:, -1] = 0
    else:
        if not c["imean"] and c["d"] + c["D"] == 0: c = dict(c, imean=1)
        xr[:, -1] = 4.0
    f = fit(W, c, x, xr)
    require(f.retval == 7, "return code %d for exactly collinear regressors (%s)" % (f.retval, c["kind"]))


def forecasts(case, W, ctx):
    c = case; L = c["L"]; x, xr, nx, _ = data(c)
    f = fit(W, c, x, xr, nx, L); ok(f, ctx, c)
    pr = problem(c, x, xr); b = pr.params(f); ar, ma = pr.arma(b)
    rt = M.min_root(ar)
    if rt <= 1.0005: ctx.label("boundary estimate"); raise Discard()
    y = x - (xr @ f.exog if c["r"] else 0)
    w = M.difference(y, c["d"], c["s"], c["D"]) - f.mean
    m, C, z = M.forecast(ar, ma, w, L)
    s2 = z @ z / len(w)
    F, V = M.integrate(y, c["d"], c["s"], c["D"], m + f.mean, C * s2)
    F = F + (nx @ f.exog if c["r"] else 0)
    close("forecasts", f.pred, F, rtol=1e-9, atol=np.sqrt(V.max()) * 1e-6 + 1e-10 * np.abs(x).max())
    require(np.all(np.abs(f.mse / V - 1) <= 1e-6), "forecast error variances %s, expected %s" % (f.mse[:5], V[:5]))


F_KW = dict(maxp=4, maxq=4, maxP=2, maxQ=2, Dmax=2, periods=(2, 3, 4, 7, 12), L=[1, 2, 3, 5, 13, 30])
F_RULE = "converged stationary fits; forecasts and error variances for 1..30 steps against the exact finite-sample predictor of a dense covariance matrix, integrated through the differencing filter; non-trivial = ARMA coefficients or differencing"


def f_nontriv(c): return structural(c) or c["d"] + c["D"] > 0


@sub("F01", c_fit(["mle", "css"], apis=("arima",), **F_KW), 400, 6000, "arima: " + F_RULE, f_nontriv)
def arima_forecast(case, W, ctx): forecasts(case, W, ctx)


@sub("F01", c_fit(["mle", "css"], apis=("sarima",), **F_KW), 400, 6000, "sarima: " + F_RULE, f_nontriv)
def sarima_forecast(case, W, ctx): forecasts(case, W, ctx)


@sub("F01", c_fit(["mle", "css"], apis=("sarimax",), **F_KW), 500, 7000, "sarimax with 0..2 regressors and new regressor values: " + F_RULE, f_nontriv)
def sarimax_forecast(case, W, ctx): forecasts(case, W, ctx)
