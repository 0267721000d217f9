"""P01 special functions; P02 probability distributions."""
import warnings
import numpy as np
from hypothesis import strategies as st
import scipy.special as sp
import scipy.stats as ss
from ..core import sub, close, require, Discard, Crash, Violation
from .. import gen
warnings.filterwarnings("ignore", category=RuntimeWarning)

EPS = 2.3e-16
logu = lambda lo, hi: st.floats(lo, hi).map(lambda t: float(10.0 ** t))
near = lambda *v: st.sampled_from(v).flatmap(lambda z: st.sampled_from([0.0, 1e-12, -1e-12, 1e-6, -1e-6, 1e-3, -1e-3]).map(lambda d: float(z + d)))
unit = st.one_of(st.floats(0, 1).map(lambda v: v if v > 1e-200 else 0.0), logu(-12, 0), logu(-12, -2).map(lambda v: 1 - v), near(.5).map(lambda v: min(1.0, max(0.0, v))))
shape = st.one_of(st.floats(.05, 5), logu(-2, 3), st.sampled_from([.5, 1.0, 1.5, 2.0, 10.0, 100.0]))
half = st.integers(1, 60).map(lambda k: k / 2)
Z = st.just(0.0)


def pts(*args): return st.lists(st.tuples(*args), min_size=1, max_size=12)


def sym(s): return st.tuples(s, st.booleans()).map(lambda t: -t[0] if t[1] else t[0])


def bpdf(x, a, b): return float(np.exp(min(600, sp.xlogy(a - 1, x) + sp.xlog1py(b - 1, -x) - sp.betaln(a, b))))


# name: id, (x, a, b) strategies, reference, tolerance(x, a, b, reference) -> absolute tolerance
SPECIAL = {
    "erf": (0, (st.one_of(st.floats(-7, 7), sym(logu(-12, 1.3)), near(.5, -.5, 4.0, -4.0, 5.8, -5.8, 0.0)), Z, Z), lambda x, a, b: sp.erf(x), lambda x, a, b, r: 1e-14 * abs(r)),
    "erfc": (1, (st.one_of(st.floats(-7, 26), sym(logu(-12, 1.3)), near(.5, -.5, 4.0, -4.0, 0.0)), Z, Z), lambda x, a, b: sp.erfc(x), lambda x, a, b, r: 1e-12 * abs(r)),
    "erfcx": (2, (st.one_of(st.floats(-20, 40), sym(logu(-12, 1.3)), logu(1, 8), near(.5, -.5, 4.0, -4.0, 0.0)), Z, Z), lambda x, a, b: sp.erfcx(x), lambda x, a, b, r: (1e-13 + 4 * EPS * x * x * (x < 0)) * abs(r)),
    "erfinv": (3, (st.one_of(st.floats(-.999, .999), sym(unit).filter(lambda v: abs(v) < 1), near(.75, -.75, .9375, -.9375, 0.0)), Z, Z), lambda x, a, b: sp.erfinv(x), lambda x, a, b, r: 1e-13 * abs(r) + 8 * EPS * np.exp(min(r * r, 700)) * min(1, abs(x) * 2)),
    "erfcinv": (4, (st.one_of(st.floats(.07, 1.99), logu(-12, -1.3), logu(-300, -12), near(.0625, 1.0)), Z, Z), lambda x, a, b: sp.erfcinv(x), lambda x, a, b, r: 1e-7 * abs(r) if x < .0625 else 1e-13 * abs(r) + 8 * EPS * np.exp(min(r * r, 700))),
    "log1p": (5, (st.one_of(st.floats(-.99, 20), sym(logu(-20, -.05)), near(0.0)), Z, Z), lambda x, a, b: np.log1p(x), lambda x, a, b, r: 4e-15 * abs(r)),
    "gamma": (6, (st.one_of(st.floats(.01, 20), st.floats(.01, 171), st.integers(1, 171).map(float), logu(-10, 0), st.floats(-30, -.01), near(12.0, 1.0, 2.0)), Z, Z), lambda x, a, b: sp.gamma(x),
              lambda x, a, b, r: abs(r) * (3e-12 + (1e-14 / max(1e-16, abs(x - round(x))) * abs(x) if x < 0 else 0))),
    "gamma_log": (7, (st.one_of(st.floats(.01, 20), st.floats(.01, 1e4), logu(-10, 6), near(.5, .6796875, 1.0, 1.5, 2.0, 4.0, 12.0)), Z, Z), lambda x, a, b: sp.gammaln(x), lambda x, a, b, r: 1e-13 * abs(r) + 1e-14),
    "beta": (8, (shape, shape, Z), lambda x, a, b: np.exp(sp.betaln(x, a)), lambda x, a, b, r: 1e-13 * abs(r) * (10 + sp.gammaln(x + a))),
    "beta_log": (9, (shape, shape, Z), lambda x, a, b: sp.betaln(x, a), lambda x, a, b, r: 1e-13 * (10 + abs(sp.gammaln(x + a)))),
    "pgamma": (10, (st.one_of(st.floats(0, 20), logu(-6, 3)), st.one_of(shape, half), st.booleans()), lambda x, a, b: sp.gammainc(a, x), lambda x, a, b, r: 2e-12 + 1e-10 * abs(r)),
    "qgamma": (11, (st.one_of(st.floats(0, 20), logu(-6, 3)), st.one_of(shape, half), st.booleans()), lambda x, a, b: sp.gammaincc(a, x), lambda x, a, b, r: 3e-12),
    "ibeta": (12, (unit, st.one_of(shape, half), st.one_of(shape, half)), lambda x, a, b: sp.betainc(a, b, x), lambda x, a, b, r: 1e-11 + 4 * EPS * bpdf(x, a, b)),
    "ibetac": (13, (unit, st.one_of(shape, half), st.one_of(shape, half)), lambda x, a, b: sp.betainc(b, a, 1 - x), lambda x, a, b, r: 1e-11 + 4 * EPS * bpdf(1 - x, b, a)),
    "factorial": (34, (st.integers(0, 100).map(float), Z, Z), lambda x, a, b: sp.gamma(x + 1), lambda x, a, b, r: 1e-13 * r),
    "fix": (35, (st.floats(-50, 50), Z, Z), lambda x, a, b: np.trunc(x), lambda x, a, b, r: 0),
}
mu, sd = st.floats(-100, 100), logu(-3, 3)
df = st.one_of(st.integers(1, 12), st.integers(1, 200), st.sampled_from([30, 500, 999, 1000, 1001, 1500, 5000])).map(float)
tval = st.one_of(st.floats(-6, 6), sym(logu(-6, 6)), Z)
pos = st.one_of(st.floats(0, 8), logu(-6, 4), Z).map(lambda v: v if v > 1e-200 else 0.0)
prob = st.one_of(st.floats(1e-4, 1 - 1e-4), st.sampled_from([.5, .01, .025, .05, .1, .9, .95, .975, .99]))
rel = lambda t: (lambda x, a, b, r: t * abs(r))
# pdf/cdf: x is the number of standard deviations or means
DIST = {
    "normalpdf": (18, (st.floats(-8, 8), mu, sd), lambda x, a, b: ss.norm.pdf(x, a, b), lambda x, a, b, r: (1e-12 + 1e-15 * abs(a) / b * abs(x - a) / b * 4) * abs(r)),
    "normalcdf": (19, (st.floats(-8, 8), mu, sd), lambda x, a, b: ss.norm.cdf(x, a, b), lambda x, a, b, r: 1e-14 + 1e-15 * abs(a) / b),
    "tpdf": (21, (tval, df, Z), lambda x, a, b: ss.t.pdf(x, a), lambda x, a, b, r: (1e-12 + 1e-14 * a) * abs(r)),
    "tcdf": (22, (tval, df, Z), lambda x, a, b: sp.stdtr(a, x), lambda x, a, b, r: 1e-11 + 4e-9 * np.sqrt(a) * np.exp(-min(abs(x) * 1e8 / np.sqrt(a), 500)) + 2 * EPS * a / max(abs(x), 1e-9)),
    "fpdf": (25, (pos, df, df), lambda x, a, b: ss.f.pdf(x, a, b), lambda x, a, b, r: (1e-11 + 1e-14 * (a + b)) * abs(r) + 1e-300),
    "fcdf": (26, (pos, df, df), lambda x, a, b: sp.fdtr(a, b, x), lambda x, a, b, r: 2e-11),
    "gammapdf": (28, (st.one_of(st.floats(.001, 4), logu(-4, 1)), shape, sd), lambda x, a, b: ss.gamma.pdf(x, a, scale=b), lambda x, a, b, r: (1e-12 + 1e-14 * (a + x / b)) * abs(r)),
    "gammacdf": (29, (st.one_of(st.floats(-1, 4), logu(-4, 1)), shape, sd), lambda x, a, b: ss.gamma.cdf(x, a, scale=b), lambda x, a, b, r: 2e-12 + 1e-10 * abs(r)),
    "chipdf": (31, (st.one_of(st.floats(.001, 4), logu(-4, 1)), df, Z), lambda x, a, b: ss.chi2.pdf(x, a), lambda x, a, b, r: (1e-12 + 1e-14 * (a + x)) * abs(r)),
    "chicdf": (32, (st.one_of(st.floats(0, 4), logu(-4, 1)), df, Z), lambda x, a, b: ss.chi2.cdf(x, a), lambda x, a, b, r: 5e-12 + 1e-10 * abs(r)),
    "betapdf": (15, (unit, shape, shape), lambda x, a, b: float(np.exp(sp.xlogy(a - 1, x) + sp.xlog1py(b - 1, -x) - sp.betaln(a, b))), lambda x, a, b, r: (1e-12 + 1e-14 * (a + b)) * (1 + EPS * b / max(1e-300, 1 - x) * 1e14) * abs(r) + 1e-290),
    "betacdf": (16, (unit, shape, shape), lambda x, a, b: ss.beta.cdf(x, a, b), lambda x, a, b, r: 1e-11 + 4 * EPS * bpdf(x, a, b)),
}
def t_tol(n, t):
    """Error of t when n / (n + t^2) carries the 3e-7 of the beta quantile."""
    x = n / (n + t * t); lo = max(x - 3e-7, 1e-300)
    return np.sqrt(n * (1 - lo) / lo) - abs(t) + 1e-9 if x - 3e-7 > 0 else np.inf


QUANT = {
    "normalinv": (20, (prob, mu, sd), lambda x, a, b: a + b * sp.ndtri(x), lambda x, a, b, r: 1e-12 * (b + abs(a) * 1e-2)),
    "gammainv": (30, (prob, shape, sd), lambda x, a, b: ss.gamma.ppf(x, a, scale=b), lambda x, a, b, r: 1e-10 * abs(r) + 1e-300),
    "chiinv": (33, (prob, df, Z), lambda x, a, b: ss.chi2.ppf(x, a), lambda x, a, b, r: 1e-10 * abs(r)),
    "tinv": (23, (prob, df, Z), lambda x, a, b: sp.stdtrit(a, x), lambda x, a, b, r: 1e-10 * (1 + abs(r)) if a > 1000 else t_tol(a, r)),
    "tinv_appx": (24, (prob, st.integers(300, 5000).map(float), Z), lambda x, a, b: sp.stdtrit(a, x), lambda x, a, b, r: 1e-9 * (1 + abs(r))),
    "betainv": (17, (prob, shape, shape), lambda x, a, b: sp.betaincinv(a, b, x), lambda x, a, b, r: 3e-7),
}
LABEL = lambda c: c["f"]


def table(T): return lambda tier: st.sampled_from(sorted(T)).flatmap(lambda f: st.fixed_dictionaries({"f": st.just(f), "p": pts(*T[f][1])}))


def run(c, W, T, prep=None):
    f = c["f"]; P = [[float(v) for v in p] for p in c["p"]]
    if prep: P = [prep(f, *p) for p in P]
    r = W.call("dist", [T[f][0], len(P)], np.array(P).ravel())
    return f, P, r


def compare(c, W, T, ctx, prep=None):
    f, P, r = run(c, W, T, prep)
    for (x, a, b), g in zip(P, r):
        e = float(T[f][2](x, a, b)); t = T[f][3](x, a, b, e)
        if np.isnan(e) or (np.isfinite(e) and not np.isfinite(t)): continue
        if not np.isfinite(e): require(g > 1e300, "%s(%.17g, %g, %g) is %g, expected %g" % (f, x, a, b, g, e)); continue
        require(abs(g - e) <= t + 1e-307, "%s(%.17g, %.17g, %.17g) is %.17g, expected %.17g (tolerance %.2g)" % (f, x, a, b, g, e, t))
    ctx.label(f)


def prep_x(f, x, a, b):
    if f == "pgamma" or f == "qgamma": return [x * a if b else x, a, 0.0]
    if f in ("normalpdf", "normalcdf"): return [a + b * x, a, b]
    if f in ("gammapdf", "gammacdf"): return [x * a * b, a, b]
    if f in ("chipdf", "chicdf"): return [x * a, a, 0.0]
    return [x, a, b]


several = lambda c: len(c["p"]) > 2


@sub("P01", table(SPECIAL), 2500, 40000, "several points", several)
def special_functions(c, W, ctx): compare(c, W, SPECIAL, ctx, prep_x)


@sub("P01", lambda tier: st.fixed_dictionaries({"f": st.just("ibeta"), "p": pts(st.floats(-1e-3, 1e-3), st.one_of(shape, half), st.one_of(shape, half))}), 200, 5000, "several points", several)
def incomplete_beta_at_the_branch(c, W, ctx):
    compare(c, W, SPECIAL, ctx, lambda f, x, a, b: [min(1.0, max(0.0, (a + 1) / (a + b + 2) * (1 + x))), a, b])


@sub("P02", table(DIST), 2500, 40000, "several points", several)
def densities_and_distribution_functions(c, W, ctx): compare(c, W, DIST, ctx, prep_x)


@sub("P02", table(QUANT), 2000, 30000, "several points", several)
def quantiles(c, W, ctx): compare(c, W, QUANT, ctx)


@sub("P02", lambda tier: st.fixed_dictionaries({"f": st.just("finv"), "p": pts(prob, df, df)}), 200, 5000, "several points", several)
def f_quantiles(c, W, ctx):
    """x with k1 x / (k2 + k1 x) the beta quantile to the accuracy of that routine."""
    f, P, r = run(c, W, {"finv": (27,)})
    for (p, a, b), x in zip(P, r):
        q = sp.betaincinv(a / 2, b / 2, p); u = a * x / (b + a * x)
        require(x >= 0 and abs(u - q) <= 3e-7, "finv(%.17g, %g, %g) is %.17g, expected %.17g" % (p, a, b, x, b * q / (a * (1 - q))))


@sub("P02", lambda tier: st.fixed_dictionaries({"w": st.sampled_from([("betainv", 17), ("normalinv", 20), ("tinv", 23), ("finv", 27), ("gammainv", 30), ("chiinv", 33)]), "a": half, "b": half, "p": st.lists(st.floats(.001, .999), min_size=2, max_size=12)}), 250, 6000, "several points", lambda c: len(c["p"]) > 2)
def quantiles_increase(c, W, ctx):
    """Ordered probabilities give ordered quantiles; 0 and 1 give the ends of the support."""
    f, w = c["w"]; a, b = c["a"], c["b"]
    if w in (23, 27, 33): a, b = np.ceil(a), np.ceil(b)
    P = sorted(set(c["p"])); P = [0.0] + [p for i, p in enumerate(P) if i == 0 or p - P[i - 1] > 1e-4] + [1.0]
    r = W.call("dist", [w, len(P)], np.array([[p, a, b] for p in P]).ravel())
    for i in range(1, len(P)): require(r[i] > r[i - 1] - 3e-7 * (f in ("betainv",)) - (1e-5 * (1 + r[i] ** 2) if f in ("tinv", "finv") else 0), "%s decreases from %.17g to %.17g between %g and %g" % (f, r[i - 1], r[i], P[i - 1], P[i]))
    lo = -np.inf if f in ("tinv", "normalinv") else 0.0; hi = 1.0 if f == "betainv" else np.inf
    require(r[0] == lo or (lo < 0 and r[0] < -1e300), "%s(0) is %g" % (f, r[0])); require(r[-1] == hi or (hi > 2 and r[-1] > 1e300), "%s(1) is %g" % (f, r[-1])); ctx.label(f)


UNDEF = [("erf", 0, 1), ("erfc", 1, 1), ("erfcx", 2, 1), ("gamma_log", 7, 1), ("pgamma", 10, 2), ("qgamma", 11, 2), ("ibeta", 12, 3), ("ibetac", 13, 3)]


@sub("P01", lambda tier: st.fixed_dictionaries({"w": st.sampled_from(UNDEF), "at": st.integers(0, 2), "a": half, "b": half}), 100, 1000, "more than one argument", lambda c: c["w"][2] > 1)
def undefined_arguments_give_undefined_values(c, W, ctx):
    n, i, k = c["w"]; v = [.5, c["a"], c["b"]]; v[c["at"] % k] = np.nan
    r = W.call("dist", [i, 1], v)[0]
    require(r != r, "%s%s is %g" % (n, tuple(v[:k]), r)); ctx.label(n)


@sub("P02", lambda tier: st.fixed_dictionaries({"w": st.sampled_from([("normalcdf", 19), ("tcdf", 22), ("fcdf", 26), ("betacdf", 16), ("gammacdf", 29), ("chicdf", 32)]), "a": st.integers(1, 60), "b": st.integers(1, 60)}), 100, 1000, "all", lambda c: True)
def distribution_function_of_an_undefined_statistic(c, W, ctx):
    r = W.call("dist", [c["w"][1], 1], [np.nan, c["a"], c["b"]])[0]
    require(r != r, "%s of NaN is %g" % (c["w"][0], r)); ctx.label(c["w"][0])
