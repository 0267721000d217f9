"""C01-C04: sample autocovariances, partial autocorrelations, Yule-Walker / Burg / Hannan-Rissanen, AR order choice."""
import numpy as np
from hypothesis import strategies as st
from scipy.linalg import toeplitz
from ..core import sub, close, require, Violation, Discard
from .. import gen


# ---- reference definitions (numpy, no library code) ----
def acov_ref(x, M):
    n = len(x); y = x - x.mean()
    return np.array([np.dot(y[:n - k], y[k:]) / n for k in range(M)])


def yw_ref(x, p):
    g = acov_ref(x, p + 1)
    R = toeplitz(g[:p] / g[0])
    phi = np.linalg.solve(R, g[1:] / g[0])
    return phi, g[0] * (1 - phi @ g[1:] / g[0]), np.linalg.cond(R)


def burg_ref(x, p):
    """Textbook Burg lattice: a_k minimises the sum of forward and backward prediction error energy."""
    n = len(x)
    f, b = x.copy(), x.copy()
    a = np.zeros(0); refl = []; var = None
    for k in range(1, p + 1):
        F, B = f[1:], b[:-1]
        den = F @ F + B @ B
        kk = 2 * (F @ B) / den
        a = np.r_[a - kk * a[::-1], kk]
        f, b = F - kk * B, B - kk * F
        refl.append(kk)
        var = (f @ f + b @ b) / (2 * (n - k))
    return a, var, np.array(refl)


def sd(x): return float(np.std(x))


def tol_acov(x):
    return 1e-9 * np.var(x) + 1e-13 * np.max(np.abs(x)) * sd(x) * len(x) ** .5 + 1e-26 * np.max(np.abs(x)) ** 2 + 1e-300


any_series = st.one_of(gen.series(4, 200), gen.series(4, 200), gen.explicit(3, 25))


@st.composite
def c_acf(draw):
    c = draw(st.one_of(gen.series(2, 300), gen.series(2, 60), gen.explicit(1, 25)))
    n = c.get("n") or len(c["v"])
    return {"x": c, "M": draw(st.one_of(st.integers(1, n), st.just(n), st.integers(1, max(1, n // 2))))}


def M_of(c):
    return c["M"]


@sub("C01", c_acf(), 4000, 60000, "series of 12 shapes x lags 1..N, all three entry points; non-trivial = at least 2 lags of a non-constant series",
     lambda c: c["M"] > 1)
def acvf_all_methods(case, W, ctx):
    x = gen.make(case["x"]); M, n = case["M"], len(x)
    ref = acov_ref(x, M)
    tol = tol_acov(x)
    for m, nm in ((-1, "acvf"), (0, "acvf_opt direct"), (1, "acvf_opt fft")):
        got = W.call("acvf", [m, n, M], x)
        t = tol if m < 1 else tol + 1e-10 * np.var(x)
        close(nm, got, ref, rtol=0, atol=t)
        if np.var(x) > 1e-8 * np.max(np.abs(x)) ** 2:
            ac = W.call("acf", [m, n, M], x)
            close(nm + " -> acf", ac, ref / ref[0], rtol=0, atol=1e-9 + 3 * t / ref[0])
            require(ac[0] == 1.0, "autocorrelation at lag 0 is %r" % ac[0])
        else:
            ctx.trivial()
    ctx.label("fullrange" if M == n else "partial")


@st.composite
def c_acf_big(draw):
    return {"x": draw(gen.series(300, 4000)), "f": draw(st.floats(0.01, 1))}


@sub("C01", c_acf_big(), 250, 4000, "long series (300..4000), fft vs direct vs definition on a lag subset; non-trivial = always")
def acvf_long(case, W, ctx):
    x = gen.make(case["x"]); n = len(x); M = max(2, int(case["f"] * min(n, 600)))
    ref = acov_ref(x, M)
    for m in (0, 1):
        close("acvf_opt %d" % m, W.call("acvf", [m, n, M], x), ref, rtol=0, atol=tol_acov(x) + 1e-10 * np.var(x))


@st.composite
def c_pacf(draw):
    c = draw(any_series)
    n = c.get("n") or len(c["v"])
    return {"x": c, "M": draw(st.integers(1, max(1, min(n - 1, 25))))}


def ok_series(x):
    return np.var(x) > 1e-10 * np.max(np.abs(x)) ** 2 + 1e-290


@sub("C02", c_pacf(), 3000, 50000, "series x lag counts 1..min(N-1,25); non-trivial = M>=2 and a well conditioned autocovariance matrix", lambda c: c["M"] >= 2)
def pacf_yule_walker(case, W, ctx):
    x = gen.make(case["x"]); M, n = case["M"], len(x)
    if not ok_series(x): raise Discard()
    a, b = W.call("pacf", [-1, n, M], x), W.call("pacf", [0, n, M], x)
    ref, tol = [], []
    for k in range(1, M + 1):
        phi, v, cond = yw_ref(x, k)
        ref.append(phi[-1]); tol.append(1e-8 + 1e-12 * cond * k)
    ref, tol = np.array(ref), np.array(tol)
    use = tol < 1e-3
    if not use.all(): ctx.label("ill-conditioned lags skipped")
    if not use.any(): ctx.trivial()
    for nm, g in (("pacf", a), ("pacf_opt YW", b)):
        require(np.all(np.abs(g[use] - ref[use]) <= tol[use]), "%s differs from the Yule-Walker solution: %s vs %s" % (nm, g[use][:6], ref[use][:6]))
        require(np.all(np.abs(g) <= 1 + 1e-6), "%s has a value outside [-1,1]: %r" % (nm, g))


@sub("C02", c_pacf(), 3000, 50000, "series x orders; yw() and ar(method 0) against the solution of the Yule-Walker equations; non-trivial = p>=2", lambda c: c["M"] >= 2)
def yule_walker_fit(case, W, ctx):
    x = gen.make(case["x"]); p, n = case["M"], len(x)
    if not ok_series(x): raise Discard()
    phi, v, cond = yw_ref(x, p)
    if cond > 1e7: ctx.trivial(); ctx.label("ill-conditioned"); raise Discard()
    t = 1e-8 * max(1, np.abs(phi).max()) + 1e-12 * cond * p
    for nm, g in (("yw", W.call("yw", [n, p], x)), ("ar method 0", W.call("ar_fn", [n, p, 0], x))):
        close(nm + " phi", g[:p], phi, rtol=0, atol=t)
        close(nm + " variance", g[p], v, rtol=1e-8, atol=np.var(x) * t * p)


@sub("C03", c_pacf(), 3000, 50000, "series x orders; burg(), ar(method 1), pacf_opt(Burg) against a lattice written from the definition; non-trivial = p>=2", lambda c: c["M"] >= 2)
def burg_fit(case, W, ctx):
    x = gen.make(case["x"]); n = len(x); p = min(case["M"], max(1, n // 2))
    if not np.any(x) : raise Discard()
    f, b, worst = x.copy(), x.copy(), 1.0
    a, v, refl = burg_ref(x, p)
    if not np.all(np.isfinite(a)) or np.any(np.abs(refl) > 1 - 1e-6): ctx.trivial(); raise Discard()
    amp = 1.0 / np.prod(1 - refl ** 2)
    t = 1e-9 * amp * max(1, np.abs(a).max())
    if t > 1e-3: ctx.trivial(); raise Discard()
    for nm, g in (("burg", W.call("burg", [n, p], x)), ("ar method 1", W.call("ar_fn", [n, p, 1], x))):
        close(nm + " phi", g[:p], a, rtol=0, atol=t)
        close(nm + " variance", g[p], v, rtol=1e-7 + t)
    g = W.call("pacf", [1, n, p], x)
    require(np.all(np.abs(g) <= 1 + 1e-9), "Burg pacf outside [-1,1]")
    close("pacf_opt Burg", g, refl, rtol=0, atol=t)


def hr_m(n, p, q):
    m = max(p, q)
    return 10 if (m < 10 and n > p + q + 20) else m + 1


def long_ar_resid(y, m):
    phi, _, cond = yw_ref(y, m)
    a = np.zeros(len(y))
    for i in range(m): a[m:] -= phi[i] * y[m - 1 - i:len(y) - 1 - i]
    a[m:] += y[m:]
    return a, cond


def hr_ref(y, m, a, p, q):
    """Least squares of y_t on p lags of y and q lags of the long-AR residuals, t = m+q .. n-1."""
    n = len(y); t0 = m + q
    cols = [y[t0 - j:n - j] for j in range(1, p + 1)] + [-a[t0 - j:n - j] for j in range(1, q + 1)]
    Z = np.stack(cols, 1); b = y[t0:]
    sol, _, rk, sv = np.linalg.lstsq(Z, b, rcond=None)
    r = b - Z @ sol
    return sol[:p], sol[p:], r @ r / (n - m - q), (sv[0] / sv[-1] if sv[-1] > 0 else np.inf)


@st.composite
def c_hr(draw):
    p = draw(st.integers(0, 4)); q = draw(st.integers(0 if p else 1, 4))
    return {"x": draw(gen.series(40, draw(st.sampled_from([300, 300, 300, 3000])), ["white", "ar1", "ar2", "ma1", "season", "heavy", "ints", "rw"])), "p": p, "q": q}


@sub("C03", c_hr(), 2500, 40000, "series x (p,q) up to 4: hr() against a two-stage least-squares reference; non-trivial = both p and q positive", lambda c: c["p"] * c["q"] > 0)
def hannan_rissanen(case, W, ctx):
    x = gen.make(case["x"]); n, p, q = len(x), case["p"], case["q"]
    y = x - x.mean(); m = hr_m(n, p, q)
    if not ok_series(x): raise Discard()
    a, c0 = long_ar_resid(y, m)
    phi, th, v, cond = hr_ref(y, m, a, p, q)
    if cond > 1e4 or c0 > 1e6: ctx.trivial(); raise Discard()
    g = W.call("hr", [n, p, q], x)
    t = 1e-9 + 1e-13 * (cond ** 2 + c0) * 100
    s = max(1, np.abs(np.r_[phi, th]).max())
    close("hr phi", g[:p], phi, rtol=0, atol=t * s)
    close("hr theta", g[p:p + q], th, rtol=0, atol=t * s)
    close("hr variance", g[p + q], v, rtol=1e-7)


@sub("C03", st.fixed_dictionaries({"seed": gen.seeds(), "p": st.integers(1, 2), "n": st.integers(1500, 3000), "c": st.sampled_from([0.0, 10.0])}), 200, 3000,
     "simulated stationary AR(p): yw and burg recover the generating coefficients; non-trivial = always")
def ar_recovery(case, W, ctx):
    rng = gen.rng_of(case["seed"]); p, n = case["p"], case["n"]
    phi = gen.coef_poly(rng, p, .85)
    x = gen.arma_sim(rng, phi, [], n) + case["c"]
    for nm, y in (("yw", x), ("burg", x - x.mean())):
        g = W.call(nm, [n, p], y)
        require(np.max(np.abs(g[:p] - phi)) < 0.25, "%s estimates %s of an AR process with coefficients %s, n=%d" % (nm, g[:p], phi, n))
        require(abs(g[p] - 1) < 0.3, "%s innovation variance %g for unit-variance innovations" % (nm, g[p]))


# ---- order selection ----
@st.composite
def c_order(draw):
    return {"x": draw(gen.series(20, draw(st.sampled_from([150, 150, 150, 2000])), ["white", "ar1", "ar2", "ma1", "season", "heavy", "ints", "spikes"])), "m": draw(st.sampled_from([0, 1]))}


def ar_vars(x, m, K):
    y = x - x.mean()
    if m == 1: return [burg_ref(y, k)[1] for k in range(1, K + 1)]
    return [yw_ref(y, k)[1] for k in range(1, K + 1)]


@sub("C04", c_order(), 1500, 20000, "series of 20..150 x method YW/Burg: the chosen order minimises log variance + 2p/N over 1..max; non-trivial = chosen order > 1 counted as label")
def ar_order_aic(case, W, ctx):
    x = gen.make(case["x"]); n, m = len(x), case["m"]
    if not ok_series(x): raise Discard()
    K = min(n - 1, int(10 * np.log(n)))
    if m == 1: K = min(K, n - 1)
    v = np.array(ar_vars(x, m, K))
    if np.any(~np.isfinite(v)) or np.any(v <= 1e-9 * np.var(x)): ctx.trivial(); raise Discard()
    aic = np.log(v) + 2 * np.arange(1, K + 1) / n
    p = int(W.call("ar_estimate", [n, m], x)[0])
    require(1 <= p <= K, "selected order %d outside 1..%d" % (p, K))
    require(aic[p - 1] <= aic.min() + 1e-6, "selected order %d has criterion %.8g, order %d has %.8g" % (p, aic[p - 1], int(aic.argmin()) + 1, aic.min()))
    ctx.label("order 1" if p == 1 else "order >1")
    L = 5
    g = W.call("ar_obj", [m, n, L], x)
    require(int(g[0]) == p and int(g[1]) == p and int(g[2]) == K, "ar_exec order %s, ar_estimate %d, maximum %d" % (g[:3], p, K))
    close("ar_exec mean", g[4], x.mean(), rtol=1e-9, atol=1e-9 * np.std(x))
    y = x - x.mean()
    phi, var = (burg_ref(y, p)[:2] if m == 1 else yw_ref(y, p)[:2])
    t = 1e-6 + 1e-14 * np.max(np.abs(x)) / np.std(x) * yw_ref(y, p)[2] * p
    if t > 1e-3: raise Discard()
    close("ar_exec phi", g[7:7 + p], phi, rtol=t, atol=t)
    close("ar_exec variance", g[5], var, rtol=t, atol=t * np.var(x) * 1e-3)
    # forecasts follow the fitted recursion
    h = list(y)
    for _ in range(L): h.append(sum(phi[i] * h[-1 - i] for i in range(p)))
    close("ar_predict", g[7 + p:7 + p + L] - x.mean(), np.array(h[n:]), rtol=10 * t, atol=10 * t * np.std(x))
    am = g[7 + p + L:7 + p + 2 * L]
    psi = [1.0]
    for k in range(1, L): psi.append(sum(phi[i] * psi[k - 1 - i] for i in range(min(p, k))))
    ratio = np.cumsum(np.square(psi))
    require(np.all(np.isfinite(am)) and am[0] > 0, "forecast error variances %s" % am)
    close("ar_predict error variance growth", am / am[0], ratio, rtol=10 * t)


@sub("C04", st.fixed_dictionaries({"x": gen.series(30, 200, ["white", "ar1", "ar2", "ma1", "season", "heavy", "rw"]), "d": st.integers(0, 2), "pmax": st.integers(1, 3), "h": st.integers(4, 9)}),
     800, 10000, "series x differencing x order caps: the three reported (p,q) choices minimise AIC/SC/HQ of the two-stage fits; non-trivial = d>0 counted as label")
def arma_order_report(case, W, ctx):
    x = gen.make(case["x"]); d, P, h = case["d"], case["pmax"], max(case["h"], case["pmax"])
    y = np.diff(x, d)
    if d == 0: y = x - x.mean()
    if not ok_series(y): raise Discard()
    n = len(y)
    a, c0 = long_ar_resid(y, h)          # the long autoregression is fitted to mean-corrected autocovariances
    if c0 > 1e6: raise Discard()
    crit = {}
    for i in range(P + 1):
        for j in range(P + 1):
            if i + j == 0: continue
            _, _, v, cond = hr_ref(y, h, a, i, j)
            if cond > 1e4: raise Discard()
            L = np.log(v); k = i + j
            crit[i, j] = (L + 2 * k / n, L + np.log(n) * k / n, L + 2 * np.log(np.log(n)) * k / n)
    g = W.call("model_estimate", [len(x), d, P, h], x).astype(int)
    for c, nm in enumerate(("AIC", "SC", "HQ")):
        ch = (g[2 * c], g[2 * c + 1])
        require(ch in crit, "%s choice %s outside the candidate set" % (nm, ch))
        best = min(v[c] for v in crit.values())
        require(crit[ch][c] <= best + 1e-6, "%s choice %s scores %.8g, best is %.8g" % (nm, ch, crit[ch][c], best))
    ctx.label("d=%d" % d)
