"""U02 seasonality tests, D01 STL decompositions, B01 Box-Cox transform and error measures."""
import numpy as np
from hypothesis import strategies as st
from ..core import sub, close, require, Discard, Crash, Violation
from .. import gen
from .p_tests import ols


# ------------------------------------------------------------------ STL written from its definition
def loess_at(y, x, lo, hi, q, deg, w):
    """Local regression at position x (1-based) over the points lo..hi; None when every weight is zero."""
    n = len(y)
    h = max(x - lo, hi - x) + (float((q - n) // 2) if q > n else 0.0)
    j = np.arange(lo, hi + 1.0); r = np.abs(j - x)
    k = np.where(r <= .999 * h, np.where(r <= .001 * h, 1.0, (1 - (r / h if h > 0 else 0 * r) ** 3) ** 3), 0.0)
    if w is not None: k = k * w[lo - 1:hi]
    if k.sum() <= 0: return None
    k = k / k.sum(); v = y[lo - 1:hi]
    m = k @ j
    if deg > 0 and h > 0:
        s2 = k @ (j - m) ** 2
        if np.sqrt(s2) > .001 * (n - 1.0): return k @ v + (x - m) * (k @ ((j - m) * v)) / s2
    return k @ v


def loess(y, q, deg, jump, w):
    n = len(y)
    if n < 2: return y.copy()
    jump = min(jump, n - 1)
    out = np.full(n, np.nan); at = list(range(1, n + 1, jump)); win = None
    for i in at:
        if q >= n: win = (1, n)
        else:
            a = min(max(1, i - (q + 1) // 2 + 1), n - q + 1); win = (a, a + q - 1)
        v = loess_at(y, float(i), win[0], win[1], q, deg, w)
        out[i - 1] = y[i - 1] if v is None else v
    if at[-1] != n:
        v = loess_at(y, float(n), win[0], win[1], q, deg, w)
        out[n - 1] = y[n - 1] if v is None else v
        at.append(n)
    return np.interp(np.arange(1, n + 1), at, out[np.array(at) - 1]) if jump > 1 else out


def ma(x, k): return np.convolve(x, np.ones(k) / k, "valid")


def stl_ref(y, f, sw, sd, tw, td, lw, ld, sj, tj, lj, inner, outer):
    """seasonal, trend, smallest relative scale of the robustness weights"""
    odd = lambda k: max(3, k) + (max(3, k) % 2 == 0)
    sw, tw, lw = odd(sw), odd(tw), odd(lw)
    n = len(y); T = np.zeros(n); S = np.zeros(n); w = None; gap = np.inf
    for o in range(outer + 1):
        for _ in range(inner):
            d = y - T; C = np.zeros(n + 2 * f)
            for j in range(f):
                s = d[j::f]; k = len(s); ww = None if w is None else w[j::f]
                m = loess(s, sw, sd, sj, ww)
                a = loess_at(s, 0.0, 1, min(sw, k), sw, sd, ww)
                b = loess_at(s, k + 1.0, max(1, k - sw + 1), k, sw, sd, ww)
                C[j::f] = np.r_[m[0] if a is None else a, m, m[-1] if b is None else b]
            L = loess(ma(ma(ma(C, f), f), 3), lw, ld, lj, None)
            S = C[f:f + n] - L
            T = loess(y - S, tw, td, tj, w)
        if o < outer:
            r = np.abs(y - T - S); h = 6 * np.median(r)
            gap = min(gap, h / max(np.max(np.abs(y)), 1e-300))
            u = r / h if h > 0 else np.inf * r
            w = np.where(r <= .001 * h, 1.0, np.where(r <= .999 * h, (1 - np.minimum(u, 1) ** 2) ** 2, 0.0))
            if h > 0 and min(np.min(np.abs(u - .999)), np.min(np.abs(u - .001))) < 1e-9: gap = 0.0
    return S, T, gap


nodd = lambda k: k + (k % 2 == 0)


def stl_full(y, f, per, a):
    """a: the twelve optional arguments in the order of the shim (-1: left out)"""
    n = len(y); d = lambda v, k: k if v < 0 else v
    sw, sd, td, ld, tw, lw, sj, tj, lj, rob, inner, outer = a
    if per: sw = 10 * n + 1
    sd = d(sd, 0)
    tw = d(tw, nodd(int(np.ceil(1.5 * f / (1 - 1.5 / sw)))))
    td = d(td, 1); lw = d(lw, nodd(f)); ld = d(ld, td)
    sj, tj, lj = d(sj, int(np.ceil(sw / 10))), d(tj, int(np.ceil(tw / 10))), d(lj, int(np.ceil(lw / 10)))
    rob = d(rob, 0); inner = d(inner, 1 if rob else 2); outer = d(outer, 15 if rob else 0)
    S, T, gap = stl_ref(y, f, sw, sd, tw, td, lw, ld, sj, tj, lj, inner, outer)
    if per: S = np.array([S[j::f].mean() for j in range(f)])[np.arange(n) % f]
    return S, T, gap


SK = ["white", "ar1", "season", "season", "trend", "rw", "heavy", "ints", "ma1"]
c_ser = lambda lo, hi: st.one_of(gen.explicit(lo, lo + 8, -30, 30), gen.series(lo, hi, SK, scales=(1.0, 1.0, 37.5, 1e-3), shifts=(0.0, 0.0, 5.0, -120.0)))


@st.composite
def c_stl(draw):
    o = lambda *v: draw(st.sampled_from((-1, -1, -1) + v))
    rob = o(0, 1, 1)
    return {"x": draw(c_ser(8, 70)), "f": draw(st.integers(2, 9)), "per": draw(st.booleans()),
            "a": [draw(st.sampled_from([3, 5, 7, 8, 13, 35])), o(0, 1), o(0, 1), o(0, 1), o(3, 7, 11, 20), o(3, 5, 9), o(1, 2, 5), o(1, 2, 3), o(1, 2, 4), rob, o(1, 2, 3), o(0, 1, 2, 4)]}


@sub("D01", c_stl(), 900, 20000, "an optional argument is given or the period is above 3", lambda c: c["f"] > 3 or max(c["a"][1:]) >= 0)
def stl_is_loess(c, W, ctx):
    y = gen.make(c["x"]); n = len(y); f = c["f"]
    a = list(c["a"])
    args = [n, f, int(c["per"])] + a
    if n < 2 * f:
        try: W.call("stl", args, y)
        except Crash as e:
            require(e.code == 255, "a series of less than two periods: %s" % e)
            ctx.label("refused"); return
        raise Violation("a series of less than two periods was decomposed")
    S, T, gap = stl_full(y, f, c["per"], a)
    if gap < 1e-4: raise Discard()
    r = W.call("stl", args, y)
    s, t, e = r[:n], r[n:2 * n], r[2 * n:]
    sc = np.max(np.abs(y)) + 1e-300
    close("sum of the components", s + t + e, y, 1e-12, scale=sc)
    tol = 1e-9 / min(gap, 1.0)
    close("seasonal component", s, S, tol, scale=sc); close("trend component", t, T, tol, scale=sc)
    ctx.label("robust" if a[9] == 1 or a[11] > 0 else "plain")


@st.composite
def c_long_stl(draw):
    c = draw(c_stl()); c["f"] = draw(st.one_of(st.integers(10, 60), st.sampled_from([12, 24, 52])))
    c["x"] = draw(gen.series(2 * c["f"] - 1, 300, SK, scales=(1.0, 37.5), shifts=(0.0, 5.0))); c["a"][4] = draw(st.sampled_from([-1, -1, 7, 41])); c["a"][5] = draw(st.sampled_from([-1, -1, 5, 25]))
    return c


@sub("D01", c_long_stl(), 120, 2500, "at least two periods", lambda c: c["x"]["n"] >= 2 * c["f"])
def long_periods(c, W, ctx): stl_is_loess(c, W, ctx)


def mstl_model(y, use, sw, it):
    """Each period in turn is fitted to the series without the other seasonal components."""
    ds = y.copy(); Q = [np.zeros(len(y)) for _ in use]
    for _ in range(it):
        for i, f in enumerate(use):
            ds = ds + Q[i]
            Q[i], tr, _g = stl_full(ds, f, 0, [sw] + [-1] * 11)
            ds = ds - Q[i]
    return Q, tr, ds


@sub("D01", lambda tier: st.fixed_dictionaries({"x": c_ser(12, 90), "f": st.lists(st.integers(2, 14), min_size=1, max_size=3), "sw": st.sampled_from([-1, -1, 7, 35]), "it": st.sampled_from([-1, 1, 2, 3]), "lam": st.sampled_from([None, None, None, 0.0, .5, -.7])}), 400, 8000,
     "at least two usable periods", lambda c: len(set(c["f"])) > 1)
def multiple_seasonal_decomposition(c, W, ctx):
    y0 = gen.make(c["x"]); n = len(y0)
    if c["lam"] is not None: y0 = np.exp(y0 / (1 + np.max(np.abs(y0))))
    if np.ptp(y0) == 0 and c["lam"] is not None: raise Discard()
    l = c["lam"]
    y = y0 if l is None else np.log(y0) if l == 0 else (y0 ** l - 1) / l
    if any(f == (n - 1) / 2 for f in c["f"]): raise Discard()      # just above two periods: the comparison is made in integers
    use = sorted(f for f in c["f"] if f < n / 2)
    r = W.call("mstl", [n, len(c["f"]), c["sw"], c["it"], int(l is not None)] + c["f"], l or 0.0, y0)
    require(r[0] == len(use), "%g seasonal components, expected %d" % (r[0], len(use)))
    T, E = r[1:1 + n], r[1 + n:1 + 2 * n]
    o = 1 + 2 * n; P = []; S = []
    for _ in use:
        P.append(r[o]); S.append(r[o + 1:o + 1 + n]); o += 1 + n
    require(P == use, "periods reported as %s, expected %s" % (P, use))
    sc = np.max(np.abs(y)) + 1e-300
    close("sum of the components", sum(S) + T + E, y, 1e-11, scale=sc)
    if not use:
        tr = W.call("supsmu", [n, 1, 0], 0.0, -1.0, np.arange(n), y, [])
        close("trend without a usable period", T, tr[:n], 1e-12, scale=sc)
        ctx.label("no period"); return
    Q, tr, ds = mstl_model(y, use, 13 if c["sw"] < 0 else c["sw"], 2 if c["it"] < 0 else c["it"])
    close("trend", T, tr, 1e-9, scale=sc); close("remainder", E, ds - tr, 1e-9, scale=sc)
    for i, f in enumerate(use): close("seasonal component of period %d" % f, S[i], Q[i], 1e-9, scale=sc)
    ctx.label("%d periods" % len(use))


@sub("D01", lambda tier: st.fixed_dictionaries({"x": c_ser(12, 80), "f": st.integers(1, 6), "sw": st.sampled_from([-1, 7, 21]), "lam": st.sampled_from([None, None, 0.0, .5])}), 300, 6000, "seasonal", lambda c: c["f"] > 1)
def modified_decomposition(c, W, ctx):
    y0 = gen.make(c["x"]); n = len(y0); f = c["f"]; l = c["lam"]
    if l is not None: y0 = np.exp(y0 / (1 + np.max(np.abs(y0))))
    if (np.ptp(y0) == 0 and l is not None) or n < 2 * f: raise Discard()
    y = y0 if l is None else np.log(y0) if l == 0 else (y0 ** l - 1) / l
    r = W.call("modstl", [n, f, c["sw"], int(l is not None)], l or 0.0, y0)
    s, t, e = r[:n], r[n:2 * n], r[2 * n:]
    sc = np.max(np.abs(y)) + 1e-300
    close("sum of the components", s + t + e, y, 1e-12, scale=sc)
    if f == 1:
        tr = W.call("supsmu", [n, 1, 0], 0.0, -1.0, np.arange(n), y, [])
        close("trend without a period", t, tr[:n], 1e-12, scale=sc); require(not np.any(s), "seasonal component without a period"); return
    S, T, _ = stl_full(y, f, 0, [13 if c["sw"] < 0 else c["sw"]] + [-1] * 11)
    close("seasonal component", s, S, 1e-9, scale=sc); close("trend component", t, T, 1e-9, scale=sc)


# ------------------------------------------------------------------ U02
def strength(y, f):
    S, T, _ = stl_full(y, f, 0, [13] + [-1] * 11)
    # two passes of mstl with a single period are the same decomposition twice
    E = y - S - T
    v = np.var(E + S)
    if v <= 1e-18 * np.max(np.abs(y)) ** 2: raise Discard()
    return min(1.0, max(0.0, 1 - np.var(E) / v))


@sub("U02", lambda tier: st.fixed_dictionaries({"x": c_ser(8, 80), "f": st.lists(st.integers(2, 12), min_size=1, max_size=3)}), 800, 15000, "a period fits in the series twice", lambda c: True)
def seasonal_strength(c, W, ctx):
    """1 - var(remainder)/var(remainder + seasonal) of each period of the decomposition (ascending), clamped to [0, 1]; 0 without a usable period."""
    y = gen.make(c["x"]); n = len(y); F = c["f"] if isinstance(c["f"], list) else [c["f"]]
    if any(f == (n - 1) / 2 for f in F): raise Discard()
    use = sorted(f for f in F if f < n / 2); want = [0.0] * len(F)
    if not use and np.ptp(y) == 0: raise Discard()
    if len(use) == 1: want[0] = strength(y, use[0])
    elif use:
        Q, T, ds = mstl_model(y, use, 13, 2); E = ds - T
        for i, s in enumerate(Q):
            v = np.var(E + s)
            if v <= 1e-18 * np.max(np.abs(y)) ** 2: raise Discard()
            want[i] = min(1.0, max(0.0, 1 - np.var(E) / v))
    r = W.call("shtest", [n, len(F)] + F, y)
    close("seasonal strength", r, want, 0, 1e-8)
    ctx.label("%d usable" % len(use) if use else "too long")


def lagmat(y, k): return np.array([y[k - 1 - i:len(y) - i] for i in range(k)]).T      # row r: y[r+k-1], ..., y[r]


def ocsb_fit(x, f, lag, ml):
    """The OCSB regression at one lag order, using the observations that every order up to ml can use."""
    a = x[f:] - x[:-f]; y = np.diff(a); b = np.diff(x); n = len(y) - ml
    if n < lag + 6: raise Discard()
    M = np.array([[y[ml + t - 1 - i] for i in range(lag)] for t in range(n)])
    A = np.c_[np.ones(n), M]
    if np.linalg.cond(A) > 1e4: raise Discard()
    g = ols(A, y[ml:], 1)["b"]
    pr = lambda v, t: v[t] - g[0] - sum(g[1 + i] * v[t - 1 - i] for i in range(lag))
    # times: y[ml+t] belongs to x index f+1+ml+t, a[j] to f+j, b[j] to 1+j; z4 is taken one earlier, z5 one period earlier
    z4 = np.array([pr(a, ml + t) for t in range(n)]); z5 = np.array([pr(b, ml + t) for t in range(n)])
    D = np.c_[M, z4, z5]
    if np.linalg.cond(D / np.linalg.norm(D, axis=0)) > 1e3 or np.linalg.cond(D) > 3e4: raise Discard()
    d = ols(D, y[ml:], 0)
    if d["s2"] < 1e-8 * np.var(y): raise Discard()
    k = D.shape[1]; d["t"] = d["b"][-1] / np.sqrt(d["s2"] * d["V0"][-1, -1])
    d["aic"] = -2 * d["ll"] + 2 * k; d["bic"] = -2 * d["ll"] + np.log(n) * k; d["aicc"] = d["aic"] + 2 * k * (n / (n - k - 1) - 1)
    return d


def ocsb(x, f, ml, how):
    if how == "fixed": return ocsb_fit(x, f, ml, ml)["t"], ml
    F = [ocsb_fit(x, f, k, ml) for k in range(1, ml + 1)]
    ic = [d[how] for d in F]; s = sorted(ic)
    if len(s) > 1 and s[1] - s[0] < 1e-6: raise Discard()
    b = int(np.argmin(ic))
    # one order less than the best one; the regression without lags is replaced by the one with a single lag
    return (F[0]["t"], 1) if b == 0 else (ocsb_fit(x, f, b, b)["t"], b)


def crit(f):
    u = np.log(f) - .7656451
    return -.2937411 * np.exp(-.2850853 * u - .05983644 * u * u) - 1.652202


@sub("U02", lambda tier: st.fixed_dictionaries({"x": c_ser(30, 110), "f": st.sampled_from([2, 3, 4, 4, 6, 7, 12]), "ml": st.integers(1, 4), "how": st.sampled_from(["aic", "bic", "aicc", "fixed"])}), 900, 20000, "more than one lag", lambda c: c["ml"] > 1)
def osborn_chui_smith_birchenhall(c, W, ctx):
    x = gen.make(c["x"]); n = len(x); f = c["f"]
    if n < 3 * f + 15: raise Discard()
    want, L = ocsb(x, f, c["ml"], c["how"])
    r = W.call("ocsb", [n, f, c["ml"], ["aic", "bic", "aicc", "fixed"].index(c["how"])], x)
    close("critical value", r[1], crit(f), 1e-10)
    close("OCSB statistic", r[0], want, 1e-5, 1e-5)
    ctx.label("%s order %d" % ("fixed" if c["how"] == "fixed" else "selected", L))


@sub("U02", lambda tier: st.fixed_dictionaries({"x": c_ser(14, 100), "f": st.sampled_from([1, 2, 3, 4, 6, 12, 15]), "t": st.sampled_from([0, 0, 1]), "mx": st.sampled_from([-1, 0, 1, 2, 3])}), 900, 15000, "a difference is allowed and the series is seasonal", lambda c: c["mx"] != 0 and c["f"] > 1)
def number_of_seasonal_differences(c, W, ctx):
    """nsdiffs is the smallest number of seasonal differences at which the test stops asking for more."""
    x = gen.make(c["x"]); f = c["f"]; mx = 1 if c["mx"] < 0 else c["mx"]
    d = 0; y = x
    while f > 1 and np.ptp(y) > 0:
        if f == (len(y) - 1) / 2: raise Discard()
        if c["t"] == 0:
            s = strength(y, f) if f < len(y) / 2 else 0.0; t = .64
        else:
            if len(y) < 3 * f + 15: raise Discard()
            s, _ = ocsb(y, f, 3, "aic"); t = crit(f)
        if abs(s - t) < 1e-4: raise Discard()
        if not s > t or d >= mx: break
        if len(y) <= f + 1: break
        y = y[f:] - y[:-f]; d += 1
        if 0 < np.ptp(y) < 1e-9 * np.max(np.abs(x)): raise Discard()
    got = W.call("nsdiffs", [len(x), f, c["t"], c["mx"], 0], 0.0, x)[0]
    require(got == d, "%g seasonal differences, expected %d" % (got, d))
    ctx.label("%s d %d" % ("ocsb" if c["t"] else "seas", d))


# ------------------------------------------------------------------ B01
def bc(x, l): return np.log(x) if l == 0 else np.expm1(l * np.log(x)) / l


def bll(x, l):
    v = bc(x, l)
    return (l - 1) * np.log(x).sum() - len(x) / 2 * np.log(np.var(v))


c_pos = st.fixed_dictionaries({"n": st.integers(2, 120), "seed": gen.seeds(), "kind": st.sampled_from(["lognormal", "gamma", "uniform", "power", "trend", "ints"]), "scale": st.sampled_from([1.0, 1.0, 100.0, .01]), "sp": st.sampled_from([.1, .5, 1.0])})


def positive(c):
    rng = gen.rng_of(c["seed"]); n = c["n"]; k = c["kind"]
    x = np.exp(c["sp"] * rng.standard_normal(n)) if k == "lognormal" else rng.gamma(4, c["sp"], n) + .05 if k == "gamma" else rng.uniform(.5, 3, n) if k == "uniform" else (3 + c["sp"] * rng.standard_normal(n)).clip(.5) ** 2 if k == "power" \
        else np.exp(c["sp"] * np.arange(n) / n) * (1 + .1 * rng.uniform(0, 1, n)) if k == "trend" else rng.integers(1, 9, n).astype(float)
    return x * c["scale"]


@sub("B01", st.fixed_dictionaries({"x": c_pos, "lam": st.one_of(st.sampled_from([0.0, 1.0, -1.0, .5, 2.0, 1e-3, -1e-4, 1e-12]), st.floats(-2, 2))}), 1200, 30000, "exponent not 0 or 1", lambda c: c["lam"] not in (0.0, 1.0))
def transform_and_inverse(c, W, ctx):
    x = positive(c["x"]); n = len(x); l = c["lam"]
    if np.ptp(x) == 0 or (l != 0 and abs(l) < 1e-300): raise Discard()
    r = W.call("boxcox", [n, 1], l, x)
    require(r[0] == l, "exponent reported as %r" % r[0])
    want = bc(x, l)
    close("transform", r[1:], want, 1e-12, 1e-13)
    require(np.all(np.diff(r[1:][np.argsort(x, kind="stable")]) >= -1e-12 * np.max(np.abs(want))), "the transform is not increasing")
    close("transform (eval)", W.call("boxcox_eval", [n, 0], l, x), want, 1e-12, 1e-13)
    if np.min(1 + l * want) > 1e-6:
        back = W.call("boxcox_eval", [n, 1], l, r[1:])
        close("inverse of the transform", back / x, np.ones(n), 1e-7 if abs(l) > 1e-9 else 1e-12)


@sub("B01", st.fixed_dictionaries({"x": c_pos}), 500, 10000, "more than ten values", lambda c: c["x"]["n"] > 10)
def estimated_exponent(c, W, ctx):
    """Without a given exponent the one that maximises the profile likelihood on [-2, 2] is used."""
    x = positive(c["x"]); n = len(x)
    if n < 4 or np.ptp(x) < 1e-6 * x.max(): raise Discard()
    g = np.linspace(-2, 2, 161); L = np.array([bll(x, l) for l in g])
    d = np.sign(np.diff(L))
    if np.sum(d[1:] != d[:-1]) > 1: raise Discard()      # several local maxima
    r = W.call("boxcox", [n, 0], 0.0, x)
    l = r[0]
    require(-2 <= l <= 2, "exponent %g outside [-2, 2]" % l)
    best = L.max()
    require(bll(x, l) >= best - 1e-5 * (1 + abs(best) * 1e-3), "log-likelihood %.10g at the chosen exponent %g, %.10g at %g" % (bll(x, l), l, best, g[L.argmax()]))
    close("transform", r[1:], bc(x, l), 1e-9, 1e-12)
    ctx.label("inside" if 0 < L.argmax() < 160 else "boundary")
    for k in (-1.0, .5, 0.0, 2.0):
        close("profile likelihood", -W.call("boxcox_loglik", [n], k, x)[0], bll(x, k), 1e-9, 1e-8)


@sub("B01", st.fixed_dictionaries({"n": st.integers(1, 8), "bad": st.sampled_from(["constant", "negative"]), "at": st.integers(0, 7), "given": st.booleans(), "seed": gen.seeds()}), 200, 2000, "several values", lambda c: c["n"] > 1)
def improper_input_is_refused(c, W, ctx):
    n = c["n"]; x = gen.rng_of(c["seed"]).uniform(1, 3, n)
    if c["bad"] == "constant": x[:] = x[0]
    else: x[c["at"] % n] *= -1
    try: W.call("boxcox", [n, int(c["given"])], .5, x)
    except Crash as e:
        require(e.code == 255, "%s input: %s" % (c["bad"], e)); return
    raise Violation("%s input was transformed" % c["bad"])


@sub("B01", st.fixed_dictionaries({"n": st.integers(1, 40), "m": st.integers(2, 40), "seed": gen.seeds(), "ints": st.booleans(), "sc": st.sampled_from([1.0, 1e-3, 1e4])}), 800, 20000, "several forecasts", lambda c: c["n"] > 1)
def error_measures(c, W, ctx):
    rng = gen.rng_of(c["seed"]); n, m = c["n"], c["m"]
    f = (lambda k: rng.integers(-2, 3, k).astype(float)) if c["ints"] else (lambda k: rng.standard_normal(k) * c["sc"])
    p, a, t = f(n), f(n), f(m)
    r = W.call("errors", [n, m], p, a, t)
    e = a - p
    with np.errstate(all="ignore"):
        pc = 100 * e / a; pc = pc[~np.isnan(pc)]
        w = [e.mean(), (e @ e) / n, np.sqrt((e @ e) / n), np.abs(e).mean(), np.mean(np.abs(pc)) if len(pc) else np.nan, np.mean(pc) if len(pc) else np.nan, np.abs(e).mean() / np.abs(np.diff(t)).mean()]
    sc = np.max(np.abs(e)); pcs = np.max(np.abs(pc)) if len(pc) else 0.0
    for k, (name, s) in enumerate((("mean error", sc), ("mean squared error", 0), ("root mean squared error", 0), ("mean absolute error", 0), ("mean absolute percentage error", 0), ("mean percentage error", pcs), ("mean absolute scaled error", 0))):
        if not np.isfinite(w[k]): require(str(float(r[k])) == str(float(w[k])) or (np.isnan(r[k]) and np.isnan(w[k])), "%s is %g, expected %g" % (name, r[k], w[k]))
        else: close(name, r[k], w[k], 1e-11, 1e-12 * s)
