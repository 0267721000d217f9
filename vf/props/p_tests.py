"""R01 regression, U01 unit-root tests, U02 seasonality tests, D01 STL decompositions, B01 Box-Cox and error measures."""
import numpy as np
from scipy import stats as ss, optimize as so
from hypothesis import strategies as st
from ..core import sub, close, require, Discard, Crash, Violation
from .. import gen


# ------------------------------------------------------------------ R01
def ols(X, y, ic):
    """Least squares by QR; dictionary of the classical statistics."""
    n, p = X.shape
    Q, R = np.linalg.qr(X)
    b = np.linalg.solve(R, Q.T @ y)
    e = y - X @ b
    rss = e @ e
    V = np.linalg.inv(R) @ np.linalg.inv(R).T
    d = {"b": b, "e": e, "rss": rss, "V0": V, "s2": rss / (n - p), "n": n, "p": p}
    f = X @ b
    d["tss"] = np.sum((y - y.mean()) ** 2) if ic else y @ y
    d["r2"] = 1 - rss / d["tss"]
    d["r2adj"] = 1 - (1 - d["r2"]) * (n - ic) / (n - p)
    d["ll"] = -n / 2 * (np.log(2 * np.pi) + np.log(rss / n) + 1)
    d["F"] = (d["r2"] / (p - ic)) / ((1 - d["r2"]) / (n - p)) if p > ic else np.nan
    d["pF"] = ss.f.sf(d["F"], p - ic, n - p) if p > ic else np.nan
    return d


@st.composite
def c_reg(draw):
    ic = draw(st.sampled_from([1, 1, 1, 0]))
    p = draw(st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(7, 16)))
    return {"p": p, "ic": ic, "n": draw(st.one_of(st.integers(p + 2, p + 60), st.integers(p + 2, p + 60), st.integers(60, 600))), "seed": draw(gen.seeds()), "m": draw(st.sampled_from([0, 0, 0, 1, 2])), "poly": draw(st.sampled_from([0, 0, 0, 1])) if 1 <= p - ic <= 4 else 0,
            "alpha": draw(st.sampled_from([.05, .1, .01, .5])), "noise": draw(st.sampled_from([1.0, .1, 1e-3, 1e-5])), "shift": draw(st.sampled_from([0.0, 3.0, 1000.0])), "xs": draw(st.sampled_from([1.0, 1.0, 20.0, .01])),
            "times": draw(st.sampled_from([1, 1, 2]))}


@sub("R01", c_reg(), 2500, 60000, "at least one regressor besides the intercept", lambda c: c["p"] > c["ic"])
def regression(c, W, ctx):
    rng = gen.rng_of(c["seed"]); n, p, ic = c["n"], c["p"], c["ic"]
    if n <= p + 1: raise Discard()
    k = p - ic
    if c["poly"]:
        if k < 1 or k > 4: raise Discard()
        x = rng.uniform(-1.7, 1.7, n); X = np.array([x ** (i + 1) for i in range(k)]); arg = x
    else:
        X = rng.standard_normal((k, n)) * c["xs"]; arg = X
    D = np.vstack([np.ones((ic, n)), X]).T
    b = rng.uniform(-2, 2, p)
    y = D @ b + c["noise"] * rng.standard_normal(n) + (c["shift"] if ic else 0)
    d = ols(D, y, ic)
    cond = np.linalg.cond(D) ** 2
    if c["m"] == 1: cond = max(cond, cond ** 2 / 100)      # the Cholesky solver squares the normal matrix once more
    if cond > 1e8: raise Discard()
    z = rng.standard_normal(k) if k else np.zeros(0)
    r = W.call("regress", [n, p, ic, c["m"], c["poly"], c["times"]], c["alpha"], arg, y, z)
    B = r[:4 * p].reshape(p, 4); o = 4 * p
    (s2, slo, shi, r2, r2a, tss, ess, rss, dfe, dfr, df, F, pF, ll, aic, bic, aicc, R20, R21) = r[o:o + 19]; o += 19
    V = r[o:o + p * p].reshape(p, p); o += p * p
    e = r[o:o + n]; o += n
    tol = 1e-11 * cond
    sy = np.max(np.abs(y))
    close("coefficients", B[:, 0], d["b"], 0, tol * sy / max(1e-300, np.min(np.linalg.norm(D, axis=0) / np.sqrt(n))))
    close("residuals", e, d["e"], 0, tol * sy)
    rel = 1e-8 + tol * (sy ** 2 / d["s2"]) * 1e-3 + tol * sy / np.sqrt(d["s2"])   # residual variance: rounding of the fit only
    if rel > .01: raise Discard()
    close("residual variance", s2, d["s2"], rel)
    close("covariance matrix", V, d["s2"] * d["V0"], rel + tol)
    se = np.sqrt(d["s2"] * np.diag(d["V0"]))
    close("standard errors", B[:, 3] / se, np.ones(p), rel + tol)
    t = ss.t.isf(c["alpha"] / 2, n - p)
    close("confidence limits", np.c_[(B[:, 0] - B[:, 1]) / se, (B[:, 2] - B[:, 0]) / se], np.full((p, 2), t), rel + 2e-6)
    q = ss.chi2.ppf([1 - c["alpha"] / 2, c["alpha"] / 2], n - p)
    close("confidence limits of the variance", np.array([slo, shi]) * q / d["s2"] / (n - p), np.ones(2), rel + 2e-6)
    close("R squared", 1 - r2, 1 - d["r2"], rel); close("adjusted R squared", 1 - r2a, 1 - d["r2adj"], rel)
    require(R20 == r2 and R21 == r2a, "the two copies of R squared differ")
    close("sums of squares", [tss, ess + rss], [d["tss"], d["tss"]], rel)
    close("residual sum of squares", rss, d["rss"], rel)
    require(dfe == p - ic and dfr == n - p and df == n - p, "degrees of freedom %g %g %g" % (dfe, dfr, df))
    if p > ic:
        close("F statistic", F, d["F"], 10 * rel, 1e-10 * max(1, c.get("n", 1) if isinstance(c, dict) else 1))
        close("p-value of F", pF, d["pF"], 0, 1e-6 + 100 * rel * d["pF"])
    else: require(np.isnan(F) and np.isnan(pF), "F statistic %g, p-value %g of a model without regressors (undefined)" % (F, pF))
    ll0 = d["ll"]
    close("log-likelihood", ll, ll0, 1e-9, n * rel)
    close("AIC", aic, -2 * ll + 2 * p, 1e-9, 1e-9); close("BIC", bic, -2 * ll + np.log(n) * p, 1e-9, 1e-9)
    close("AICc", aicc, -2 * ll + 2 * p + 2 * (p - ic) * (n / (n - (p - ic) - 1) - 1), 1e-9, 1e-9)
    rank = r[o]; o += 1
    if c["m"] == 0: require(rank == p, "rank %g of a full-rank regression with %d coefficients" % (rank, p))
    if not c["poly"]:
        x0 = np.r_[np.ones(ic), z]
        v = x0 @ V @ x0
        close("prediction", r[o], x0 @ B[:, 0], 1e-10, 1e-10 * sy); close("prediction variances", r[o + 1:o + 3], [v, v + s2], 1e-9, 1e-12 * s2); o += 3
    tv = np.abs(B[:, 0]) / B[:, 3]
    close("t values", r[o:o + p], tv, 1e-9); o += p
    close("one-sided p-values", r[o:o + p], ss.t.sf(tv, n - p), 0, 1e-7)


@sub("R01", st.fixed_dictionaries({"n": st.integers(4, 60), "seed": gen.seeds(), "alpha": st.sampled_from([.05, .1, .01])}), 500, 10000, "at least 6 points", lambda c: c["n"] > 5)
def simple_regression(c, W, ctx):
    rng = gen.rng_of(c["seed"]); n = c["n"]
    x = rng.standard_normal(n) * 3 + 1; y = 2 - x + rng.standard_normal(n)
    d = ols(np.c_[np.ones(n), x], y, 1)
    r = W.call("linreg_clrm", [n], c["alpha"], x, y)
    close("coefficients", r[:2], d["b"], 1e-9)
    V = d["s2"] * d["V0"]
    close("variances", r[2:7], [d["s2"], V[0, 0], V[1, 1], V[0, 1], d["r2"]], 1e-8)
    close("analysis of variance", r[7:13], [d["tss"], d["tss"] - d["rss"], d["rss"], 1, n - 2, d["F"]], 1e-8)
    close("p-value of F", r[13], d["pF"], 0, 1e-7)
    t = ss.t.isf(c["alpha"] / 2, n - 2); se = np.sqrt(np.diag(V))
    q = ss.chi2.ppf([1 - c["alpha"] / 2, c["alpha"] / 2], n - 2)
    close("lower limits", r[14:17], np.r_[d["b"] - t * se, (n - 2) * d["s2"] / q[0]], 1e-6)
    close("upper limits", r[17:20], np.r_[d["b"] + t * se, (n - 2) * d["s2"] / q[1]], 1e-6)
    close("residuals", r[20:], d["e"], 1e-9)


# ------------------------------------------------------------------ U01
def bartlett(e, l):
    n = len(e)
    return e @ e / n + 2 / n * sum((1 - i / (l + 1)) * (e[i:] @ e[:n - i]) for i in range(1, l + 1))


def autolag(n, ls): return int((4.0 if ls == 1 else 12.0) * (n / 100) ** .25)


def kpss(y, trend, l):
    n = len(y)
    t = np.arange(n)
    e = y - np.polyval(np.polyfit(t, y, 1), t) if trend else y - y.mean()
    s = np.cumsum(e)
    stat = s @ s / n ** 2 / bartlett(e, l)
    tab = [.119, .146, .176, .216] if trend else [.347, .463, .574, .739]
    return stat, np.interp(stat, tab, [.1, .05, .025, .01])


DFT = -np.array([4.38, 4.15, 4.04, 3.99, 3.98, 3.96, 3.95, 3.80, 3.73, 3.69, 3.68, 3.66, 3.60, 3.50, 3.45, 3.43, 3.42, 3.41, 3.24, 3.18, 3.15, 3.13, 3.13, 3.12, 1.14, 1.19, 1.22, 1.23, 1.24, 1.25, .80, .87, .90, .92, .93, .94,
                 .50, .58, .62, .64, .65, .66, .15, .24, .28, .31, .32, .33]).reshape(8, 6)
ZAT = -np.array([22.5, 25.7, 27.4, 28.4, 28.9, 29.5, 19.9, 22.4, 23.6, 24.4, 24.8, 25.1, 17.9, 19.8, 20.7, 21.3, 21.5, 21.8, 15.6, 16.8, 17.5, 18.0, 18.1, 18.3, 3.66, 3.71, 3.74, 3.75, 3.76, 3.77, 2.51, 2.60, 2.62, 2.64, 2.65, 2.66,
                 1.53, 1.66, 1.73, 1.78, 1.78, 1.79, .43, .65, .75, .82, .84, .87]).reshape(8, 6)
PR = [.01, .025, .05, .1, .9, .95, .975, .99]
NT = [25, 50, 100, 250, 500, 100000]


def tabp(tab, n, s): return np.interp(s, [np.interp(n, NT, r) for r in tab], PR)


def fitok(D, y):
    if np.linalg.cond(D / np.linalg.norm(D, axis=0)) > 3e3 or np.linalg.cond(D) > 1e5: raise Discard()
    d = ols(D, y, 0)
    if d["s2"] < 1e-9 * np.max(np.abs(y)) ** 2 + 1e-12 * np.max(np.abs(D)) ** 2: raise Discard()
    d["se"] = np.sqrt(d["s2"] * np.diag(d["V0"]))
    return d


def ctol(D, y, e, base):
    """base tolerance plus what solving the normal equations costs (the condition number of D enters squared)"""
    t = base + 2e-15 * np.linalg.cond(D) ** 2 * np.max(np.abs(y)) / max(np.std(e), 1e-300)
    if t > 1e-3: raise Discard()
    return t


def embed(z, k): return np.array([z[k - 1 - i:len(z) - i] for i in range(k)]).T     # column i is lag i


UK = ["white", "ar1", "ar2", "ma1", "rw", "i2", "season", "trend", "heavy", "ints"]
c_ur = lambda lo, hi: st.one_of(gen.explicit(lo, lo + 8, -30, 30), gen.series(lo, hi, UK, scales=(1.0, 1.0, 37.5, .02), shifts=(0.0, 0.0, 5.0, -120.0)))


def c_u(tier):
    return st.fixed_dictionaries({"x": st.one_of(c_ur(12, 200), c_ur(12, 200), gen.series(1200, 1600 if tier == "quick" else 50000, ["white", "rw", "ar1"])), "trend": st.booleans(), "ls": st.sampled_from([1, 0]), "lag": st.sampled_from([-9, -9, 0, 1, 2, 5]), "ex": st.booleans(), "ty": st.booleans()})


@sub("U01", c_u, 1200, 30000, "series not constant", None)
def kpss_test(c, W, ctx):
    y = gen.make(c["x"]); n = len(y)
    if np.ptp(y) == 0: raise Discard()
    l = c["lag"] if c["lag"] > 0 else autolag(n, c["ls"])
    s, p = kpss(y, c["trend"], l)
    if not np.isfinite(s) or abs(bartlett(y - y.mean(), l)) < 1e-9 * np.var(y): raise Discard()
    D = np.c_[np.ones(n), np.arange(1, n + 1.0)][:, :1 + c["trend"]]
    e0 = ols(D, y, 1)["e"]; t = 1e-6 + 100 * ctol(D, y, e0, 0) + 1e-15 * n * np.max(np.abs(y)) / np.std(e0)
    r = W.call("ur_kpss", [n, int(c["trend"]), c["ls"], c["lag"]], y)
    close("KPSS statistic", r[0], s, t)
    close("p-value", r[1], p, 0, t)
    if c["lag"] != -9: require(r[2] == l, "reported lag %g, expected %d" % (r[2], l))
    ctx.label("n %s" % ("<100" if n < 100 else "<=200" if n <= 200 else ">1000"))


@sub("U01", c_u, 1500, 30000, "series not constant", None)
def phillips_perron_tests(c, W, ctx):
    y = gen.make(c["x"]); N = len(y); n = N - 1
    yt, y1 = y[1:], y[:-1]
    l = c["lag"] if c["lag"] > 0 else autolag(n, c["ls"])
    k = np.arange(1, n + 1.0)
    D = np.c_[np.ones(n), k - n / 2, y1]
    d = fitok(D, yt); t = ctol(D, yt, d["e"], 1e-5)
    s2 = d["e"] @ d["e"] / n; sl = bartlett(d["e"], l)
    if sl < 1e-3 * s2: raise Discard()
    # regressor sum of squares after removing constant and trend
    u = y1 - np.polyval(np.polyfit(k, y1, 1), k)
    Dx = n * n * (n * n - 1) / 12.0 * (u @ u)
    tst = (d["b"][2] - 1) / d["se"][2]
    if c["ty"]: s = np.sqrt(s2 / sl) * tst - n ** 3 / (4 * np.sqrt(3) * np.sqrt(Dx) * np.sqrt(sl)) * (sl - s2)
    else: s = n * (d["b"][2] - 1) - float(n) ** 6 / (24 * Dx) * (sl - s2)
    p = tabp(DFT if c["ty"] else ZAT, n, s)
    if np.sum((k - k.mean()) ** 2) * (y1 @ y1) > 1e9 * (u @ u) * np.sum((k - k.mean()) ** 2): raise Discard()
    r = W.call("ur_pp", [N, int(c["ex"]), int(c["ty"]), c["ls"], c["lag"]], y)
    close("Phillips-Perron statistic", r[0], s, t, t)
    close("p-value", r[1], 1 - p if c["ex"] else p, 0, t)
    # urca form
    tr = c["trend"]
    D = np.c_[np.ones(n), y1, k - n / 2] if tr else np.c_[np.ones(n), y1]
    d = fitok(D, yt); t = 10 * ctol(D, yt, d["e"], 1e-5)
    s0 = d["e"] @ d["e"] / n; sig = bartlett(d["e"], l); lam = (sig - s0) / 2; lp = lam / sig
    if sig < 1e-3 * s0: raise Discard()
    myb = np.sum((yt - yt.mean()) ** 2) / n ** 2; myy = yt @ yt / n ** 2; mty = n ** -2.5 * (k @ yt); my = n ** -1.5 * yt.sum()
    v = (1 - n ** -2.0) * myy - 12 * mty ** 2 + 12 * (1 + 1 / n) * mty * my - (4 + 6 / n + 2 / n ** 2) * my ** 2 if tr else myb
    if v <= 1e-9 * myy: raise Discard()
    ts = d["b"] / d["se"]
    if c["ty"]: s = np.sqrt(s0 / sig) * (d["b"][1] - 1) / d["se"][1] - lp * np.sqrt(sig) / np.sqrt(v)
    else: s = n * (d["b"][1] - 1) - lam / v
    r = W.call("ur_pp2", [N, int(c["ty"]), int(tr), c["ls"], c["lag"]], y)
    close("Phillips-Perron statistic (urca form)", r[0], s, t, t)
    cv = [-3.9638 - 8.353 / n - 47.44 / n ** 2, -3.4126 - 4.039 / n - 17.83 / n ** 2, -3.1279 - 2.418 / n - 7.58 / n ** 2] if tr else [-3.4335 - 5.999 / n - 29.25 / n ** 2, -2.8621 - 2.738 / n - 8.36 / n ** 2, -2.5671 - 1.438 / n - 4.48 / n ** 2]
    if c["ty"]: close("critical values", r[1:4], cv, 1e-9)
    else: require(np.all(np.isnan(r[1:4])), "critical values of Z-alpha are not NaN")
    close("critical levels", r[4:7], [.01, .05, .1], 0)
    if tr:
        aux = [np.sqrt(s0 / sig) * ts[0] - lp * np.sqrt(sig) * my / (np.sqrt(v) * np.sqrt(v + my * my)), np.sqrt(s0 / sig) * ts[2] - lp * np.sqrt(sig) * (.5 * my - mty) / (np.sqrt(v / 12) * np.sqrt(myb))]
    else: aux = [np.sqrt(s0 / sig) * ts[0] - lp * np.sqrt(sig) * my / (np.sqrt(myy) * np.sqrt(myb))]
    require(r[7] == len(aux), "number of auxiliary statistics %g" % r[7])
    close("auxiliary statistics", r[8:8 + len(aux)], aux, 10 * t, 10 * t)


CV = {0: [[[-2.66, -1.95, -1.60], [-2.62, -1.95, -1.61], [-2.60, -1.95, -1.61], [-2.58, -1.95, -1.62], [-2.58, -1.95, -1.62], [-2.58, -1.95, -1.62]]],
      1: [[[-3.75, -3.00, -2.63], [-3.58, -2.93, -2.60], [-3.51, -2.89, -2.58], [-3.46, -2.88, -2.57], [-3.44, -2.87, -2.57], [-3.43, -2.86, -2.57]],
          [[7.88, 5.18, 4.12], [7.06, 4.86, 3.94], [6.70, 4.71, 3.86], [6.52, 4.63, 3.81], [6.47, 4.61, 3.79], [6.43, 4.59, 3.78]]],
      2: [[[-4.38, -3.60, -3.24], [-4.15, -3.50, -3.18], [-4.04, -3.45, -3.15], [-3.99, -3.43, -3.13], [-3.98, -3.42, -3.13], [-3.96, -3.41, -3.12]],
          [[8.21, 5.68, 4.67], [7.02, 5.13, 4.31], [6.50, 4.88, 4.16], [6.22, 4.75, 4.07], [6.15, 4.71, 4.05], [6.09, 4.68, 4.03]],
          [[10.61, 7.24, 5.91], [9.31, 6.73, 5.61], [8.73, 6.49, 5.47], [8.43, 6.49, 5.47], [8.34, 6.30, 5.36], [8.27, 6.25, 5.34]]]}


def df2(y, ty, lags, sel):
    z = np.diff(y); n = len(z)
    E = embed(z, lags + 1); yt = E[:, 0]; m = len(yt)
    y1 = y[lags:n]; tt = np.arange(lags + 1.0, n + 1)
    base = [y1] if ty == 0 else [np.ones(m), y1] if ty == 1 else [np.ones(m), y1, tt]
    L = lags
    if lags > 0 and sel:
        cr = []
        for i in range(1, lags + 1):
            d = fitok(np.array(base + list(E[:, 1:i + 1].T)).T, yt)
            cr.append(-2 * d["ll"] + (2 if sel == 1 else np.log(m)) * d["p"])
        s = np.sort(cr)
        if len(s) > 1 and s[1] - s[0] < 1e-6: raise Discard()
        L = int(np.argmin(cr)) + 1
    ex = list(E[:, 1:L + 1].T)
    d = fitok(np.array(base + ex).T, yt)
    out = [d["b"][min(ty, 1)] / d["se"][min(ty, 1)]]
    sc = d["s2"]
    def sub_rss(cols):
        if not cols: return yt @ yt, 0
        X = np.array(cols).T
        return ols(X, yt, 0)["rss"], X.shape[1]
    if ty >= 1:
        r, k = sub_rss(ex); out.append((r - d["rss"]) / (d["p"] - k) / sc)
    if ty == 2:
        r, k = sub_rss([np.ones(m)] + ex); out.append((r - d["rss"]) / (d["p"] - k) / sc)
    n1 = n
    row = 0 if n1 < 25 else 1 if n1 < 50 else 2 if n1 < 100 else 3 if n1 < 250 else 4 if n1 < 500 else 5
    return out, [t[row] for t in CV[ty]]


def df1(y, lag):
    z = np.diff(y); n = len(z)
    k = int((len(y) - 1.0) ** (1 / 3)) if lag == -9 else lag
    E = embed(z, k + 1)
    d = fitok(np.c_[np.ones(len(E)), y[k:n], np.arange(k + 1.0, n + 1), E[:, 1:]], E[:, 0])
    return d["b"][1] / d["se"][1], k


@sub("U01", lambda tier: st.fixed_dictionaries({"x": st.one_of(c_ur(20, 260), c_ur(20, 260), c_ur(20, 260), gen.series(261, 2500, UK)), "ty": st.integers(0, 2), "lag": st.sampled_from([-9, 0, 1, 2, 4]), "sel": st.integers(0, 2), "ex": st.booleans()}), 1500, 30000, "at least one lag", lambda c: c["lag"] > 0)
def dickey_fuller_tests(c, W, ctx):
    y = gen.make(c["x"]); N = len(y)
    s, k = df1(y, c["lag"])
    r = W.call("ur_df", [N, int(c["ex"]), c["lag"]], y)
    close("Dickey-Fuller statistic", r[0], s, 1e-5, 1e-6)
    p = tabp(DFT, N - 1, s)
    close("p-value", r[1], 1 - p if c["ex"] else p, 0, 1e-5)
    if c["lag"] >= 0: require(r[2] == k, "reported lag %g, expected %d" % (r[2], k))
    lag = 1 if c["lag"] == -9 else c["lag"]
    want, cv = df2(y, c["ty"], lag, c["sel"])
    r = W.call("ur_df2", [N, c["ty"], c["lag"], c["sel"]], y)
    m = c["ty"] + 1
    require(r[0] == m and r[1] == 3 and r[2] == m, "sizes %g %g %g of the result, expected %d, 3, %d" % (r[0], r[1], r[2], m, m))
    close("critical values", r[3:3 + 3 * m], np.ravel(cv), 0)
    close("levels", r[12:15], [.01, .05, .1], 0)
    close("Dickey-Fuller statistics", r[15:15 + m], want, 1e-5, 1e-5)
    ctx.label("type %d lag %d" % (c["ty"], c["lag"]))


def decide(x, test, trend, a):
    """1: another difference; also the distance of the p-value from the level."""
    n = len(x)
    if test == 0:
        l = int(3 * np.sqrt(n) / 13); l = l if l > 0 else autolag(n, 1)
        s, p = kpss(x, trend, l); return p < a, p
    if test in (1, 2):
        o, cv = df2(x, 2 if trend else 1, 1, 0)
        p = np.interp(o[0], cv[0], [.01, .05, .1]); return p > a, p
    m = len(x) - 1; k = np.arange(1, m + 1.0); l = autolag(m, 1); y1, yt = x[:-1], x[1:]
    d = fitok(np.c_[np.ones(m), y1, k - m / 2] if trend else np.c_[np.ones(m), y1], yt)
    s0 = d["e"] @ d["e"] / m; sig = bartlett(d["e"], l); lp = (sig - s0) / 2 / sig
    yc = yt - np.polyval(np.polyfit(k, yt, 1), k) if trend else yt - yt.mean()
    v = yc @ yc / m ** 2 * (1 - 1 / m ** 2 if trend else 1)
    my = m ** -1.5 * yt.sum(); mty = m ** -2.5 * (k @ yt)
    if trend: v = (1 - m ** -2.0) * (yt @ yt) / m ** 2 - 12 * mty ** 2 + 12 * (1 + 1 / m) * mty * my - (4 + 6 / m + 2 / m ** 2) * my ** 2
    s = np.sqrt(s0 / sig) * (d["b"][1] - 1) / d["se"][1] - lp * np.sqrt(sig) / np.sqrt(v)
    cv = [-3.9638 - 8.353 / m - 47.44 / m ** 2, -3.4126 - 4.039 / m - 17.83 / m ** 2, -3.1279 - 2.418 / m - 7.58 / m ** 2] if trend else [-3.4335 - 5.999 / m - 29.25 / m ** 2, -2.8621 - 2.738 / m - 8.36 / m ** 2, -2.5671 - 1.438 / m - 4.48 / m ** 2]
    p = np.interp(s, cv, [.01, .05, .1]); return p > a, p


@sub("U01", lambda tier: st.fixed_dictionaries({"x": st.one_of(c_ur(30, 160), c_ur(30, 160), c_ur(30, 160), gen.series(161, 900, UK)), "test": st.integers(0, 3), "trend": st.booleans(), "mx": st.sampled_from([-1, 0, 1, 2, 3, 4]), "cum": st.sampled_from([0, 0, 1, 2, 3]), "level": st.sampled_from([0.0, 0.0, 30.0]), "alpha": st.sampled_from([None, .05, .02, .09, .3, .001])}), 1500, 30000,
     "some differencing is possible", lambda c: c["mx"] != 0)
def number_of_differences(c, W, ctx):
    """ndiffs is the smallest number of differences at which the chosen test stops asking for more."""
    x = gen.make(c["x"]); mx = 2 if c["mx"] < 0 else c["mx"]
    for _ in range(c["cum"]): x = np.cumsum(x)          # integrated a few times more
    x = x + c["level"] * np.ptp(x)
    a = .05 if c["alpha"] is None else min(max(c["alpha"], .01), .1)
    got = W.call("ndiffs", [len(x), c["test"], int(c["trend"]), c["mx"], int(c["alpha"] is not None)], c["alpha"] or 0.0, x)[0]
    d = 0; y = x
    if np.ptp(x) > 0:
        while True:
            if a in (.01, .1):          # p-values end at these levels: equality is decided by rounding
                pass
            more, p = decide(y, c["test"], c["trend"], a)
            if not np.isfinite(p): raise Discard()
            if abs(p - a) < 1e-6 and not (c["test"] > 0 and a == .1) and not (c["test"] == 0 and a == .01): raise Discard()
            if not more or d >= mx: break
            y = np.diff(y); d += 1
            if np.ptp(y) < 1e-9 * np.ptp(x): raise Discard()
    ctx.label("test %d d %d" % (c["test"], d))
    require(got == d, "%g differences, expected %d" % (got, d))


@sub("U01", st.fixed_dictionaries({"v": st.lists(st.sampled_from([0.0, 0.0, 0.0, 1.0]), min_size=2, max_size=9), "k": st.sampled_from([0.0, 5.0])}), 300, 3000, "not constant", lambda c: len(set(c["v"])) > 1)
def constant_series_are_recognised(c, W, ctx):
    x = np.array(c["v"]) + c["k"]
    r = W.call("is_constant", [len(x)], x)
    w = float(np.ptp(x) == 0)
    require(r[0] == w and r[1] == w, "constancy of %s reported as %g and %g" % (list(x), r[0], r[1]))


@sub("U01", st.fixed_dictionaries({"n": st.integers(3, 30), "kind": st.sampled_from(["noise", "walk", "trend", "few"]), "seed": gen.seeds(), "test": st.integers(0, 3), "trend": st.booleans(), "mx": st.sampled_from([0, 1, 2, 3])}), 400, 6000,
     "at most 12 values", lambda c: c["n"] <= 12)
def short_series_get_a_number_of_differences(c, W, ctx):
    """ndiffs answers, within the limit, for series too short for its regressions."""
    rng = gen.rng_of(c["seed"]); n = c["n"]
    x = {"noise": rng.standard_normal(n), "walk": np.cumsum(rng.standard_normal(n)), "trend": np.arange(n) + .1 * rng.standard_normal(n), "few": rng.integers(0, 2, n).astype(float)}[c["kind"]]
    got = W.call("ndiffs", [n, c["test"], int(c["trend"]), c["mx"], 0], 0.0, x)[0]
    require(0 <= got <= c["mx"], "%g differences, limit %d" % (got, c["mx"]))
    ctx.label("test %d d %d" % (c["test"], got))
