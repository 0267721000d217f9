"""T01-T03: differencing and ARMA algebra, roots and transforms, interpolation, moving averages and the super smoother."""
import numpy as np
from hypothesis import strategies as st
from ..core import sub, close, require, Violation, Discard
from .. import gen, models as M


def dpoly(d, s):
    c = np.array([1.0])
    for _ in range(d): c = np.convolve(c, np.r_[1.0, np.zeros(s - 1), -1.0])
    return c


ints = lambda lo, hi, a, b: st.lists(st.integers(lo, hi).map(float), min_size=a, max_size=b)


# ------------------------------------------------------------------ T01
@sub("T01", st.fixed_dictionaries({"a": ints(-9, 9, 1, 12), "b": ints(-9, 9, 1, 12), "M": st.integers(0, 5), "d": st.integers(0, 5), "s": st.sampled_from([0, 1, 2, 3, 4, 7, 12])}),
     1500, 40000, "both polynomials have degree at least 1", lambda c: len(c["a"]) > 1 and len(c["b"]) > 1)
def polynomials(c, W, ctx):
    a, b = c["a"], c["b"]
    r = W.call("poly", [len(a), len(b)], a, b)
    require(r[0] == len(a) + len(b) - 1, "poly returned length %g" % r[0])
    close("product of polynomials", r[1:], np.convolve(a, b), 0)
    m = c["M"]
    want = np.array(a) if m == 0 else np.zeros(m * (len(a) - 1) + 1)
    if m: want[::m] = a
    r = W.call("updown", [len(a), m, 1, len(want)], a)
    require(r[0] == len(want), "upsample returned length %g, expected %d" % (r[0], len(want)))
    close("upsample", r[1:], want, 0)
    want = np.array(a) if m == 0 else np.array(a)[::m]
    r = W.call("updown", [len(a), m, 0, len(want)], a)
    require(r[0] == len(want), "downsample returned length %g, expected %d" % (r[0], len(want)))
    close("downsample", r[1:], want, 0)
    d, s = c["d"], c["s"]
    close("differencing polynomial", W.call("delpoly", [d, s]), dpoly(d, s or 1), 0)


@sub("T01", st.fixed_dictionaries({"x": st.one_of(gen.explicit(8, 30), gen.series(8, 120), gen.series(8, 1000)), "d": st.integers(0, 3), "s": st.sampled_from([0, 1, 2, 4, 5, 12])}),
     1200, 30000, "at least one difference", lambda c: c["d"] > 0)
def differencing(c, W, ctx):
    x = gen.make(c["x"]); d, s = c["d"], c["s"]
    if len(x) <= d * max(s, 1) + 1: raise Discard()
    y = x
    for _ in range(d): y = np.diff(y) if s <= 1 else y[s:] - y[:-s]
    r = W.call("diff", [len(x), d, s], x)
    require(r[0] == len(y), "differenced length %g, expected %d" % (r[0], len(y)))
    close("differenced series", r[1:], y, 0, 1e-13 * 8 ** d * np.max(np.abs(x)))


@st.composite
def c_arma(draw, maxp=5, maxq=5, rmax=0.95):
    return {"p": draw(st.integers(0, maxp)), "q": draw(st.integers(0, maxq)), "seed": draw(gen.seeds()), "lag": draw(st.integers(1, 30)), "var": draw(st.sampled_from([1.0, 0.3, 250.0])),
            "rmax": draw(st.sampled_from([.5, .9, rmax])), "lead0": draw(st.sampled_from([0, 0, 1]))}


def arma(c):
    rng = gen.rng_of(c["seed"])
    phi = gen.coef_poly(rng, c["p"], c["rmax"])
    th = rng.uniform(-1.5, 1.5, c["q"])
    if c["lead0"] and c["p"] > 1: phi = np.r_[np.zeros(c["p"] - 1), rng.uniform(-.9, .9)]
    return phi, th


@sub("T01", c_arma(), 1500, 40000, "p+q >= 1", lambda c: c["p"] + c["q"] > 0)
def arma_weights_and_autocovariances(c, W, ctx):
    phi, th = arma(c)
    p, q, L = c["p"], c["q"], c["lag"]
    r = W.call("psipi", [p, q, L], phi, th)
    psi = M.psi(phi, th, L)
    close("psi weights", r[:L], psi, 1e-10)
    if q == 0 or M.min_root(-th) > 1.02:
        # pi weights: theta(z) pi(z) = phi(z)
        pi = r[L:]
        lhs = np.convolve(np.r_[1.0, th], pi)[:L]
        want = np.r_[1.0, -phi, np.zeros(L)][:L]
        close("theta(B) pi(B)", lhs, want, 0, 1e-9 * (1 + np.max(np.abs(pi))))
    g = W.call("arma_autocovar", [p, q, max(L, p + 1)], c["var"], phi, th)
    close("autocovariances of an ARMA process", g, c["var"] * M.tacvf(phi, th, max(L, p + 1)), 1e-8)
    m = max(p, q)
    ma = max(L, m + 1)
    r = W.call("twacf", [p, q, ma], phi, -th)
    require(r[0] == 0, "twacf reports fault %g for a stationary process" % r[0])
    close("Tunnicliffe-Wilson autocovariances", r[1:1 + ma], M.tacvf(phi, th, ma), 1e-7)
    cv = r[1 + ma:]
    close("cross-covariances", cv[:q + 1], M.psi(phi, th, q + 1), 1e-8)


# ------------------------------------------------------------------ T02
@sub("T02", st.fixed_dictionaries({"k": st.lists(st.integers(0, 4), min_size=4, max_size=4), "seed": gen.seeds(), "amp": st.sampled_from([.3, 1.0, 1.8])}),
     1200, 30000, "some block has order 2 or more", lambda c: max(c["k"]) > 1)
def partial_autocorrelation_transform(c, W, ctx):
    """artrans maps any real vector to a stationary AR whose partial autocorrelations are the tanh of it; arinvtrans undoes it."""
    rng = gen.rng_of(c["seed"])
    for p in [k + 1 for k in c["k"][:1]]:
        raw = rng.uniform(-c["amp"], c["amp"], p)
        ar = W.call("artrans", [p, 0], raw)
        require(M.min_root(ar) > 1 - 1e-9, "transformed coefficients are not stationary (smallest root %.6g)" % M.min_root(ar))
        # Durbin-Levinson from the partial autocorrelations
        a = np.zeros(0)
        for k in range(p):
            t = np.tanh(raw[k])
            a = np.r_[a - t * a[::-1], t]
        close("AR coefficients of the partial autocorrelations", ar, a, 1e-12)
        back = W.call("artrans", [p, 1], ar)
        close("inverse transform", back, raw, 1e-6, 1e-7)
    n = sum(c["k"])
    raw = rng.uniform(-c["amp"], c["amp"], n)
    t = W.call("transall", c["k"] + [0], raw)
    o = 0
    for k in c["k"]:
        if k: close("block transform", t[o:o + k], W.call("artrans", [k, 0], raw[o:o + k]), 0)
        o += k
    close("block inverse", W.call("transall", c["k"] + [1], t), raw, 1e-6, 1e-7)


@st.composite
def c_roots(draw):
    n = draw(st.integers(1, 8))
    return {"n": n, "seed": draw(gen.seeds()), "rmin": draw(st.sampled_from([.1, .5, .9, 1.02])), "rmax": draw(st.sampled_from([.95, 1.5, 3.0])), "trail": draw(st.sampled_from([0, 0, 0, 1, 2])),
            "zero": draw(st.sampled_from([0, 0, 0, 1, 2])), "scale": draw(st.sampled_from([1.0, -3.0, 1e6, 1e-6, 1e150, 1e-150, 1e-298, 1e300]))}


def inv_roots(c):
    """Inverse roots with separated moduli and angles (so that the polynomial is well conditioned)."""
    rng = gen.rng_of(c["seed"]); n = c["n"]
    lo, hi = min(c["rmin"], c["rmax"]), max(c["rmin"], c["rmax"])
    r = []
    while len(r) < n:
        m = rng.uniform(lo, hi)
        if n - len(r) >= 2 and rng.random() < .6: w = rng.uniform(.2, np.pi - .2); z = [m * np.exp(1j * w), m * np.exp(-1j * w)]
        else: z = [m * rng.choice([-1.0, 1.0])]
        if all(abs(a - b) > .12 for a in z for b in r) and (len(z) == 1 or abs(z[0] - z[1]) > .12): r += z
        elif rng.random() < .02: break
    return np.array(r, complex)


@sub("T02", c_roots(), 1500, 40000, "at least two roots", lambda c: c["n"] > 1)
def stationarity_and_inversion(c, W, ctx):
    r = inv_roots(c)
    if len(r) == 0 or np.any(np.abs(np.abs(r) - 1) < 1e-3): raise Discard()
    coef = np.real(np.poly(r))[1:]                 # 1 + c1 z + ... with inverse roots r
    pad = np.r_[coef, np.zeros(c["trail"])]
    stat = int(np.all(np.abs(r) < 1))
    ctx.label("stationary" if stat else "not stationary")
    got = W.call("archeck", [len(pad)], -pad)[0]
    require(got == stat, "archeck returns %g for inverse roots with largest modulus %.6g (order %d, %d trailing zero coefficients)" % (got, np.max(np.abs(r)), len(r), c["trail"]))
    if np.any(np.abs(r) < 1e-3): raise Discard()
    o = W.call("invertroot", [len(pad)], pad)
    require(o[0] == 1 - stat, "invertroot returns %g" % o[0])
    ma = o[1:]
    if stat:
        close("invertible polynomial", ma, pad, 0); return
    s = np.where(np.abs(r) > 1, 1 / np.conj(r), r)
    want = np.r_[np.real(np.poly(s))[1:], np.zeros(c["trail"])]
    close("inverted polynomial", ma, want, 1e-6, 1e-7)


@sub("T02", c_roots(), 1500, 40000, "degree at least 2", lambda c: c["n"] > 1)
def polynomial_roots(c, W, ctx):
    """Every root of a real (or complex) polynomial is returned once."""
    r = inv_roots(dict(c, rmin=max(c["rmin"], .3)))
    if len(r) == 0: raise Discard()
    z = np.r_[1 / r, np.zeros(c["zero"])]
    co = np.poly(z)[::-1] * c["scale"]             # ascending
    out = W.call("polyroot", [len(z)], np.real(co))
    require(out[0] == 0, "polyroot reports failure %g" % out[0])
    n = len(z)
    match(out[1:1 + n] + 1j * out[1 + n:], z)
    rng = gen.rng_of(c["seed"] ^ 5)
    rot = np.exp(1j * rng.uniform(0, 2 * np.pi, len(z)))
    z2 = z * rot
    if len(z) > 1:
        dist = np.abs(z2[:, None] - z2[None, :]) + 9 * np.eye(len(z))
        nz = np.abs(z2) > 0
        if np.min(dist[nz][:, nz] if np.any(nz) else 1) < .1: return
    co = np.poly(z2)[::-1] * c["scale"]
    out = W.call("cpolyroot", [n], np.real(co), np.imag(co))
    require(out[0] == 0, "cpolyroot reports failure %g" % out[0])
    match(out[1:1 + n] + 1j * out[1 + n:], z2)
    ctx.label("degree%d zeros%d" % (n, c["zero"]))


@sub("T02", st.fixed_dictionaries({"n": st.one_of(st.integers(9, 60), st.integers(9, 60), st.integers(90, 130)), "kind": st.sampled_from(["gauss", "cyclic", "seasonal", "spread"]), "seed": gen.seeds(), "scale": st.sampled_from([1.0, -3.0, 1e6, 1e-6]), "cplx": st.booleans()}),
     250, 6000, "degree above 8", lambda c: True)
def roots_of_high_degree(c, W, ctx):
    """Degrees to 60: every returned number is a root, and where the roots are well separated each occurs once; to 130 no access outside the arrays."""
    rng = gen.rng_of(c["seed"]); n = c["n"]; k = c["kind"]; far = n > 60
    if k == "cyclic" and not far: n = 9 + n % 22
    if k == "gauss": co = rng.standard_normal(n + 1)
    elif k == "cyclic": co = np.r_[-rng.uniform(.3, 3), np.zeros(n - 1), 1.0]
    elif k == "seasonal":
        s = rng.choice([4, 7, 12, 24]); a = np.zeros(s + 1); a[0], a[s] = 1, -rng.uniform(.3, 1.2); co = np.convolve(a, [1, -rng.uniform(-.9, .9)]); n = s + 1; far = False
    else: co = rng.standard_normal(n + 1) * 10.0 ** rng.uniform(-4, 4, n + 1)
    im = co * 0
    if c["cplx"] and k in ("gauss", "spread"): im = rng.standard_normal(n + 1) * np.abs(co)
    co, im = co * c["scale"], im * c["scale"]
    out = W.call("cpolyroot", [n], co, im) if c["cplx"] else W.call("polyroot", [n], co)
    ctx.label(k + (" far" if far else ""))
    if far: return
    require(out[0] == 0, "no roots found: code %g" % out[0])
    z = out[1:1 + n] + 1j * out[1 + n:]; require(np.isfinite(z).all(), "root is not finite")
    P = co + 1j * im
    big = np.abs(z) > 1; u = np.where(big, 1 / np.where(big, z, 1), z)
    val = np.array([abs(np.polyval(P if b else P[::-1], t)) for b, t in zip(big, u)]); mag = np.array([np.polyval(np.abs(P if b else P[::-1]), abs(t)) for b, t in zip(big, u)])
    require(np.all(val <= (1e-7 if n <= 30 else 1e-4) * mag), "relative residual %g of a returned root" % np.max(val / mag))
    w = np.roots(P[::-1])
    d = np.abs(w[:, None] - w[None, :]) / np.abs(w)[:, None] + 9 * np.eye(n)
    if d.min() > .02 and n <= 30: match(z, w)


@sub("T02", st.fixed_dictionaries({"s": st.sampled_from([9, 12, 24, 30]), "p": st.integers(0, 2), "seed": gen.seeds(), "Phi": st.sampled_from([.3, .8, .95, 1.05, 1.5]), "phi": st.sampled_from([.2, .7, .97, 1.04, 1.6]), "neg": st.booleans()}),
     120, 3000, "order above 8", lambda c: True)
def seasonal_stationarity(c, W, ctx):
    """archeck of (1 - Phi z^s)(1 - phi z)^p: stationary exactly when both factors are."""
    rng = gen.rng_of(c["seed"]); s = c["s"]; sg = -1 if c["neg"] else 1
    a = np.zeros(s + 1); a[0], a[s] = 1, -sg * c["Phi"]
    for k in range(c["p"]): a = np.convolve(a, [1, (-1) ** k * c["phi"] * rng.uniform(.999, 1.001)])
    stat = int(c["Phi"] < 1 and (c["p"] == 0 or c["phi"] < 1))
    got = W.call("archeck", [len(a) - 1], -a[1:])[0]
    ctx.label("stationary" if stat else "not stationary")
    require(got == stat, "archeck returns %g for (1 - %g z^%d)(1 - %g z)^%d" % (got, sg * c["Phi"], s, c["phi"], c["p"]))
    o = W.call("invertroot", [len(a) - 1], a[1:])
    require(o[0] == 1 - stat, "invertroot returns %g" % o[0])
    b = np.r_[1.0, o[1:]]
    rho = lambda v: np.correlate(v, v, "full")[len(v) - 1:] / np.dot(v, v)
    close("autocorrelations of the moving average with its roots reflected", rho(b), rho(a), 0, 1e-5)
    require(np.abs(np.roots(b)).max() < 1, "a root is still inside the unit circle")


def match(got, want):
    require(np.all(np.isfinite(got)), "root is not finite")
    got = list(got)
    for w in sorted(want, key=lambda t: -abs(t)):
        d = [abs(g - w) for g in got]
        k = int(np.argmin(d))
        require(d[k] <= 1e-6 * (1 + abs(w)), "root %s is missing (closest %s)" % (w, got[k]))
        got.pop(k)


# ------------------------------------------------------------------ T03
@sub("T03", st.fixed_dictionaries({"n": st.integers(2, 30), "seed": gen.seeds(), "m": st.integers(1, 12), "sorted": st.booleans(), "scale": st.sampled_from([1.0, 1e-3, 1e4])}),
     1000, 25000, "at least 3 nodes", lambda c: c["n"] > 2)
def linear_interpolation(c, W, ctx):
    rng = gen.rng_of(c["seed"]); n = c["n"]
    x = np.sort(rng.choice(np.arange(-200, 200), n, replace=False) / 4.0) * c["scale"]
    y = rng.standard_normal(n)
    z = np.r_[rng.uniform(x[0], x[-1], c["m"]), rng.choice(x, 2), x[0], x[-1], x[0] - c["scale"], x[-1] + c["scale"]]
    want = np.interp(z, x, y)
    close("approx", W.call("approx", [n, len(z)], x, y, z), want, 1e-12, 1e-13)
    k = np.arange(n) if c["sorted"] else rng.permutation(n)
    close("interpolate_linear", W.call("interp", [n, len(z)], x[k], y[k], z), want, 1e-12, 1e-13)
    zz = z.copy(); zz[0] = np.nan
    o = W.call("approx", [n, len(z)], x, y, zz)
    require(np.isnan(o[0]) and np.all(np.isfinite(o[1:])), "approx does not pass a NaN through")
    close("linspace", W.call("linspace", [n], x[0], x[-1]), np.linspace(x[0], x[-1], n), 1e-12, 1e-13 * c["scale"])
    o = W.call("minmaxcum", [n], y[k])
    require(o[0] == y.min() and o[1] == y.max(), "minimum/maximum %g %g, expected %g %g" % (o[0], o[1], y.min(), y.max()))
    close("cumulative sums", o[2:], np.cumsum(y[k]), 1e-12, 1e-13)
    l = int(rng.integers(0, n))
    want = .7 + 2 / n * sum((1 - i / (l + 1)) * (y[i:] @ y[:n - i]) for i in range(1, l + 1))
    close("Bartlett-weighted autocovariance sum", W.call("ppsum", [n, l], .7, y)[0], want, 1e-12, 1e-13 * n)


@sub("T03", st.fixed_dictionaries({"x": st.one_of(gen.explicit(6, 20), gen.series(6, 80), gen.series(6, 600)), "w": st.integers(1, 12), "seed": gen.seeds(), "alpha": st.sampled_from([0.0, .1, .5, .93, 1.0])}),
     1200, 30000, "window of at least 2", lambda c: c["w"] > 1)
def moving_averages(c, W, ctx):
    x = gen.make(c["x"]); n, w = len(x), c["w"]
    if w > n: raise Discard()
    q = w // 2
    k = np.ones(w) / w if w % 2 else np.r_[.5, np.ones(w - 1), .5] / w
    ext = np.r_[np.full(q, x[0]), x, np.full(q, x[-1])]
    want = np.convolve(ext, k, "valid")
    sc = 1e-12 * np.max(np.abs(x))
    close("mafilter", W.call("mafilter", [0, n, w], x), want, 0, sc)
    want2 = x.copy()
    if n - q > q: want2[q:n - q] = np.convolve(x, k, "valid")
    close("mafilter2", W.call("mafilter", [1, n, w], x), want2, 0, sc)
    rng = gen.rng_of(c["seed"]); ww = rng.dirichlet(np.ones(w))
    we = np.r_[np.full(q, x[0]), x, np.full(q if w % 2 else q - 1, x[-1])]
    close("mafilter_wt", W.call("mafilter_wt", [n, w], x, ww), np.array([ww @ we[i:i + w] for i in range(n)]), 0, sc)
    e = x.copy()
    for i in range(1, n): e[i] = c["alpha"] * x[i] + (1 - c["alpha"]) * e[i - 1]
    close("expfilter", W.call("expfilter", [n], c["alpha"], x), e, 0, sc)
    if w >= 2 and n >= 3 * w:
        mt = want2
        seas = np.array([np.mean((x - mt)[[t for t in range(q, n - q) if t % w == j]]) for j in range(w)])
        seas -= seas.mean()
        close("deseason_ma", W.call("deseason_ma", [n, w], x), x - np.resize(seas, n), 0, sc * 4)


EDGE = [1.0]        # distance to the nearest threshold decided inside smooth()


def smooth(x, y, w, span, per, vs, cv):
    """Friedman's running-lines smoother, each window fitted from scratch."""
    n = len(x)
    ib = max(2, int(.5 * span * n + .5))
    smo = np.zeros(n); acv = np.zeros(n)
    edge = EDGE
    for j in range(n):
        if per == 2:
            k = np.arange(j - ib, j + ib + 1)
            X = np.where(k < 0, x[k % n] - 1, np.where(k >= n, x[k % n] + 1, x[k % n])); k = k % n
        else:
            c = min(max(j, ib), n - 1 - ib)
            k = np.arange(max(c - ib, 0), min(c + ib, n - 1) + 1); X = x[k]
        ww = w[k]; fb = ww.sum()
        xm = ww @ X / fb; ym = ww @ y[k] / fb
        var = ww @ (X - xm) ** 2; cov = ww @ ((X - xm) * (y[k] - ym))
        a = cov / var if var > vs else 0.0
        edge[0] = min(edge[0], abs(var - vs) / vs)
        smo[j] = a * (x[j] - xm) + ym
        if cv:
            h = 1 / fb + ((x[j] - xm) ** 2 / var if var > vs else 0.0)
            t = 1 - w[j] * h
            edge[0] = min(edge[0], abs(t))
            acv[j] = abs(y[j] - smo[j]) / t if t > 0 else (acv[j - 1] if j else 0.0)
    j = 0
    while j < n:
        i = j
        while i + 1 < n and x[i + 1] <= x[i]: i += 1
        if i > j: smo[j:i + 1] = w[j:i + 1] @ smo[j:i + 1] / w[j:i + 1].sum()
        j = i + 1
    return smo, acv


F = lambda v: float(np.float32(v))


def supsmu_ref(x, y, w, per, span, alpha):
    n = len(x)
    if x[-1] <= x[0]: return np.full(n, w @ y / w.sum()), np.inf
    i = max(n // 4, 1); j = min(3 * i, n)
    sc = x[j - 1] - x[i - 1]
    while sc <= 0:
        if j < n: j += 1
        if i > 1: i -= 1
        sc = x[j - 1] - x[i - 1]
    vs = (F(.001) * sc) ** 2
    if per == 2 and (x[0] < 0 or x[-1] > 1): per = 1
    if span > 0: return smooth(x, y, w, span, per, vs, True)[0], np.inf
    sp = [F(.05), F(.2), F(.5)]
    S, R = [], []
    for s in sp:
        a, r = smooth(x, y, w, s, per, vs, True)
        S.append(a); R.append(smooth(x, r, w, sp[1], per, vs, False)[0])
    R = np.array(R)
    best = np.argmin(R, axis=0)
    gap = np.min(np.sort(R, axis=0)[1] - np.sort(R, axis=0)[0]) / (np.max(np.abs(R)) + 1e-300)   # ties decide the span
    rm = R.min(axis=0)
    s7 = np.array([sp[k] for k in best])
    if 0 < alpha <= 10:
        for t in range(n):
            if rm[t] < R[2, t] and rm[t] > 0:
                s7[t] += (sp[2] - s7[t]) * max(F(1e-7), rm[t] / R[2, t]) ** (10 - alpha)
    v = np.clip(smooth(x, s7, w, sp[1], per, vs, False)[0], sp[0], sp[2])
    f = v - sp[1]
    o = np.where(f < 0, (1 + f / (sp[1] - sp[0])) * S[1] - f / (sp[1] - sp[0]) * S[0], (1 - f / (sp[2] - sp[1])) * S[1] + f / (sp[2] - sp[1]) * S[2])
    return smooth(x, o, w, sp[0], per, vs, False)[0], gap


@sub("T03", st.fixed_dictionaries({"n": st.one_of(st.integers(5, 90), st.integers(1, 6)), "seed": gen.seeds(), "per": st.sampled_from([1, 1, 2]), "span": st.sampled_from([0.0, 0.0, .1, .3, .7, 1.0]),
                                   "alpha": st.one_of(st.sampled_from([-1.0, 0.0, 2.0, 7.0, 10.0, 10.5]), st.floats(0.01, 10)), "w": st.booleans(), "ties": st.booleans(), "line": st.sampled_from([0, 0, 0, 1])}),
     700, 20000, "response is not a straight line", lambda c: not c["line"])
def super_smoother(c, W, ctx):
    rng = gen.rng_of(c["seed"]); n = c["n"]
    x = np.sort(rng.uniform(0.001, .999, n))
    if c["ties"]: x = np.round(x * n / 1.5) / (n / 1.5) * .99
    y = 2 - 3 * x if c["line"] else np.sin(6 * x) + .3 * rng.standard_normal(n)
    w = rng.uniform(.2, 3, n) if c["w"] else np.ones(n)
    if n >= 5 and len(np.unique(x)) < 4: raise Discard()
    if c["per"] == 2 and 2 * max(2, int(.5 * max(c["span"], .5) * n + .5)) + 1 > n: raise Discard()     # window longer than the period
    got = W.call("supsmu", [n, c["per"], int(c["w"])], c["span"], c["alpha"], x, y, w if c["w"] else [])
    EDGE[0] = 1.0
    want, gap = supsmu_ref(x, y, w, c["per"], c["span"], c["alpha"])
    ctx.label("span %g per %d" % (c["span"], c["per"]))
    if c["line"] and c["per"] == 1:
        close("smooth of a straight line", got, y, 1e-6); return
    if min(gap, EDGE[0]) < 1e-7: raise Discard()
    close("super smoother", got, want, 1e-6)
