"""O01 minimisers and one-dimensional search; O02 nonlinear least squares."""
import numpy as np
from hypothesis import strategies as st
from ..core import sub, close, require, Discard, Crash, Violation
from .. import gen

NAMES = ["Nelder-Mead", "Newton line search", "Newton hook step", "Newton dogleg", "conjugate gradient", "BFGS", "L-BFGS", "BFGS More-Thuente"]
KINDS = ["quadratic", "rosenbrock", "logcosh", "quartic", "exp"]


def problem(c):
    rng = gen.rng_of(c["seed"]); N, kind = c["n"], c["kind"]
    cen = np.round(rng.normal(size=N) * 3, 2) * c["shift"]
    Q = np.linalg.qr(rng.standard_normal((N, N)))[0]; lo = c["cond"] ** -.5
    B = Q * rng.uniform(lo, 1.0, N) * 2
    off = c["off"]; start = np.round(rng.normal(size=N), 2) * c["dist"]
    if kind == 1: d, xs, lam = np.array([c["a"]]), np.ones(N), None
    elif kind in (0, 3): A = B @ B.T; A = (A + A.T) / 2; d, xs, lam = np.r_[cen, A.ravel(), off, rng.uniform(0, 2, N)], cen, np.linalg.eigvalsh(A)[0]
    else:
        B = B @ np.linalg.qr(rng.standard_normal((N, N)))[0]; d, xs, lam = np.r_[cen, B.ravel(), off], cen, np.linalg.eigvalsh(B.T @ B)[0]
        if kind == 4: start = start * min(1.0, 1.5 / max(1e-9, np.max(np.abs(B @ start)))); off = off + N
    fmin = {0: off, 1: 0.0, 2: off, 3: off, 4: off}[kind]
    return d, xs, xs + start, lam, fmin


def c_prob(w): return lambda tier: st.fixed_dictionaries({"n": st.one_of(st.integers(1, 4), st.integers(1, 12), st.integers(1, 12), st.integers(13, 40)), "kind": st.integers(0, 4), "seed": gen.seeds(), "m": st.integers(0, 7), "grad": st.booleans(), "call": st.sampled_from(w),
    "shift": st.sampled_from([0.0, 1.0, 1.0, 20.0]), "cond": st.sampled_from([1.0, 4.0, 30.0]), "off": st.sampled_from([0.0, 0.0, 1.0, -40.0]), "dist": st.sampled_from([0.0, .1, 1.0, 1.0, 5.0]), "a": st.sampled_from([1.0, 10.0, 100.0]), "maxstep": st.sampled_from([-1.0, -1.0, .5, 10.0])})


def call(c, W, mi=0):
    d, xs, x0, lam, fmin = problem(c); N = c["n"]
    m = 0 if c["call"] == 2 else min(3, max(1, c["m"])) if c["call"] == 3 else c["m"]
    r = W.call("optim", [c["kind"], N, m, int(c["grad"]), c["call"], mi, len(d)], [c["maxstep"]], d, x0)
    R = dict(zip(["ret", "it", "obj", "best", "nf", "ng", "f", "f0"], r[:8])); x, g = r[8:8 + N], r[8 + N:]
    require(np.all(np.isfinite(x)), "%s returns %s (code %g)" % (NAMES[m], x, R["ret"]))
    require(R["obj"] == R["f"], "%s reports the objective %.17g; it is %.17g at the returned point" % (NAMES[m], R["obj"], R["f"]))
    require(R["f"] <= R["f0"] + 1e-13 * (1 + abs(R["f0"])), "%s returns a point with objective %.17g, the start has %.17g" % (NAMES[m], R["f"], R["f0"]))
    if m == 0 or not c["grad"]: require(R["ng"] == 0, "gradient evaluated")
    return d, xs, x0, lam, fmin, m, R, x, g


@sub("O01", c_prob([0, 0, 1, 1, 2, 3]), 2500, 40000, "several variables", lambda c: c["n"] > 1)
def minimisers(c, W, ctx):
    """Code 1 means a small scaled gradient; strictly convex problems end at the minimiser."""
    d, xs, x0, lam, fmin, m, R, x, g = call(c, W)
    scaled = np.max(np.abs(g) * (1.0 if m in (4, 6, 7) else np.maximum(np.abs(x), 1)) / max(abs(R["f"]), 1.0))
    if m == 0:
        if R["ret"] == 1: require(R["f"] <= R["best"] + 1e-13 * (1 + abs(R["best"])), "Nelder-Mead returns objective %.17g although it evaluated %.17g" % (R["f"], R["best"]))
    elif R["ret"] == 1: require(scaled <= 3e-4 * c["n"] + (0 if c["grad"] else 1e-7 * max(1.0, np.max(np.abs(x))) ** 2 * (1200 if c["kind"] == 1 else 8) * c["n"]), "%s returns code 1 with the scaled gradient %g" % (NAMES[m], scaled))
    if c["kind"] == 1:
        if R["ret"] == 1 and m and c["n"] < 4: close("minimiser of Rosenbrock's function (%s)" % NAMES[m], x, xs, 0, 5e-2 if m in (4, 6, 7) else 1e-2)
    elif m or (c["n"] <= 3 and c["cond"] < 10 and R["ret"] == 1):
        require(R["ret"] in (1, 2, 3, 6), "%s stops with code %g on a strictly convex %s function (objective %.17g, minimum %.17g, %g iterations)" % (NAMES[m], R["ret"], KINDS[c["kind"]], R["f"], fmin, R["it"]))
        gap = 1e-4 * max(1.0, abs(fmin)) * (c["n"] if m else 1)
        require(R["f"] - fmin <= gap, "%s stops with code %g at the objective %.17g of a strictly convex %s function with minimum %.17g" % (NAMES[m], R["ret"], R["f"], KINDS[c["kind"]], fmin))
    ctx.label("%s %d" % (NAMES[m], R["ret"]))


@sub("O01", c_prob([0]), 400, 6000, "several variables", lambda c: c["n"] > 1)
def iteration_limit(c, W, ctx):
    """The iteration limit is respected and reported; the result is still no worse than the start."""
    mi = 1 + c["seed"] % 6
    d, xs, x0, lam, fmin, m, R, x, g = call(c, W, mi)
    require(R["it"] <= mi, "%s reports %g iterations, the limit is %d" % (NAMES[m], R["it"], mi))
    if R["ret"] == 4: ctx.label(NAMES[m])


@sub("O01", c_prob([0]), 300, 5000, "several variables", lambda c: c["n"] > 1)
def gradient_and_difference_agree(c, W, ctx):
    """Analytic and numerical gradients lead to the same minimum of a strictly convex function; so does a repetition, exactly."""
    if c["kind"] == 1 or c["m"] == 0: raise Discard()
    A = call({**c, "grad": True}, W); B = call({**c, "grad": False}, W); C = call({**c, "grad": True}, W)
    require(A[6]["ng"] > 0, "the analytic gradient is not used"); require(np.array_equal(A[7], C[7]) and A[6] == C[6], "a repetition gives %s after %s" % (C[7], A[7]))
    t = 2e-4 * c["n"] * max(1.0, abs(A[4]))
    require(abs(A[6]["f"] - B[6]["f"]) <= t, "objective %.17g with and %.17g without gradient" % (A[6]["f"], B[6]["f"])); ctx.label(NAMES[A[5]])


UNI = st.fixed_dictionaries({"k": st.integers(0, 2), "a": st.sampled_from([.3, 1.0, 2.5]), "b": st.sampled_from([0.0, 1.0, 3.0]), "c": st.one_of(st.integers(-20, 20).map(lambda v: v / 4), st.floats(-50, 50)), "p": st.sampled_from([1.0, 1.5, 3.0]),
     "lo": st.floats(.01, 8), "hi": st.floats(.01, 8), "t": st.sampled_from([-1.0, 1e-8, 1e-5]), "out": st.sampled_from([0, 0, 0, 1, 2])})


@sub("O01", UNI, 500, 10000, "minimum inside the interval", lambda c: c["out"] == 0)
def one_dimensional_minimum(c, W, ctx):
    a, b, cc = c["a"], c["b"] if c["k"] == 0 else 0.0, c["c"]; lo, hi = cc - c["lo"], cc + c["hi"]
    if c["out"] == 1: lo, hi = cc + c["lo"], cc + c["lo"] + c["hi"]
    if c["out"] == 2: lo, hi = cc - c["lo"] - c["hi"], cc - c["lo"]
    want = min(hi, max(lo, cc))
    x, f, n, fx, fc = W.call("brentmin", [c["k"]], [a, b, cc, c["p"], lo, hi, c["t"], 1e-9 if c["t"] > 0 else 0.0])
    require(lo <= x <= hi, "point %.17g outside [%.17g, %.17g]" % (x, lo, hi)); require(f == fx, "reported minimum %.17g, value there %.17g" % (f, fx))
    t = 5e-7 * (1 + abs(cc)) / min(1.0, a) + 4 * max(c["t"], 0)
    require(abs(x - want) <= t, "minimum found at %.17g, expected %.17g" % (x, want)); require(n < 400, "%g evaluations" % n); ctx.label(["inside", "left end", "right end"][c["out"]])


@sub("O01", st.fixed_dictionaries({"k": st.integers(3, 7), "a": st.sampled_from([.3, 1.0, 2.5]), "b": st.sampled_from([0.0, 1.0, 3.0]), "c": st.one_of(st.integers(-20, 20).map(lambda v: v / 4), st.floats(-50, 50)), "p": st.sampled_from([1.0, 1.5, 3.0, 5.0]),
     "lo": st.floats(0, 8), "hi": st.floats(0, 8), "t": st.sampled_from([1e-12, 1e-8, 1e-5])}), 500, 10000, "zero inside the interval", lambda c: min(c["lo"], c["hi"]) > 0)
def one_dimensional_zero(c, W, ctx):
    cc = c["c"]; lo, hi = cc - c["lo"], cc + c["hi"]
    if c["k"] == 7 and c["hi"] < 1e-3: raise Discard()
    x, n = W.call("brentzero", [c["k"]], [c["a"], c["b"] + (1.0 if c["k"] == 7 else 0), cc, c["p"], lo, hi, c["t"], 2.3e-16])
    require(abs(x - cc) <= 4 * c["t"] + 1e-14 * abs(cc), "zero found at %.17g, expected %.17g" % (x, cc)); require(n < 600, "%g evaluations" % n)


# ------------------------------------------------------------------ O02
def ls_problem(c):
    rng = gen.rng_of(c["seed"]); k = c["kind"]
    if k == 0:
        N = c["n"]; M = N + c["extra"]; A = rng.standard_normal((M, N)) * 10.0 ** rng.integers(-c["bad"], c["bad"] + 1, N); x = rng.normal(size=N); b = A @ x + rng.normal(size=M) * c["noise"]
        return 0, M, N, np.r_[A.ravel(), b], rng.normal(size=N) * c["far"], A, b
    if k == 1:
        N = 2 + c["n"] % 2; M = N + 2 + c["extra"]; t = np.sort(rng.uniform(-1, 1.5, M)); y = 2 * np.exp(-.8 * t) + (.5 if N > 2 else 0) + rng.normal(size=M) * c["noise"]
        return 1, M, N, np.r_[t, y], np.array([1.0, -.1, 0.0])[:N] + rng.normal(size=N) * .1 * c["far"] / 5, None, None
    if k == 2:
        N = 2 + c["n"] % 4; M = 2 * (N - 1) + c["extra"] % 3
        return 2, M, N, np.zeros(1), np.ones(N) + rng.normal(size=N) * .2 * c["far"] / 5, None, None
    N = 3; M = 6 + c["extra"]; t = np.linspace(-3, 3, M); y = 3 / (1 + np.exp(.3 - 1.2 * t)) + rng.normal(size=M) * c["noise"]
    return 3, M, N, np.r_[t, y], np.array([2.0, 0.0, .8]) + rng.normal(size=3) * .1 * c["far"] / 5, None, None


C_LS = lambda w: st.fixed_dictionaries({"kind": st.integers(0, 3), "n": st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(7, 15)), "extra": st.one_of(st.integers(0, 14), st.integers(15, 80)), "seed": gen.seeds(), "noise": st.sampled_from([0.0, .01, .3]), "far": st.sampled_from([0.0, 1.0, 5.0, 20.0]), "bad": st.sampled_from([0, 0, 2]), "jac": st.booleans(), "call": st.sampled_from(w)})


def ls_call(c, W, mf=0):
    k, M, N, d, x0, A, b = ls_problem(c)
    r = W.call("lsq", [k, M, N, int(c["jac"]), c["call"], mf, len(d)], d, x0)
    ret, nf, n = r[:3]; x = r[3:3 + N]; f = r[3 + N:3 + N + M]; f0 = r[3 + N + M:3 + N + 2 * M]; J = r[3 + N + 2 * M:].reshape(M, N)
    require(np.all(np.isfinite(x)), "solution %s" % x)
    S, S0 = f @ f, f0 @ f0
    require(S <= S0 * (1 + 1e-12) + 1e-300, "sum of squares %.17g, the start has %.17g (code %g)" % (S, S0, ret))
    return ret, nf, n, x, f, J, S, A, b, M, N


@sub("O02", lambda tier: C_LS([0, 0, 1, 2]), 1500, 30000, "several parameters", lambda c: c["n"] > 1)
def nonlinear_least_squares(c, W, ctx):
    """Codes 1..4 and 6..8 mean that the residual is orthogonal to the columns of the Jacobian; linear problems are solved exactly."""
    ret, nf, n, x, f, J, S, A, b, M, N = ls_call(c, W)
    require(ret in (1, 2, 3, 4, 5, 6, 7, 8), "code %g for valid input" % ret)
    if c["kind"] == 0:
        if M < N: raise Discard()
        s = np.linalg.svd(A, compute_uv=False); k = s[0] / s[-1]
        if k > 1e5: raise Discard()
        xs = np.linalg.lstsq(A, b, rcond=None)[0]; Sm = np.sum((A @ xs - b) ** 2)
        require(ret in (1, 2, 3, 4, 6, 7, 8), "code %g on a linear problem" % ret)
        require(S - Sm <= 1e-9 * Sm + 1e-12 * (b @ b) * (1 if c["jac"] else 10), "sum of squares %.17g of a linear problem, the minimum is %.17g (code %g)" % (S, Sm, ret))
    elif ret != 5:
        nf_, cols = np.sqrt(S), np.linalg.norm(J, axis=0)
        seen = cols > (0 if c["jac"] else 1e-6)  # a forward difference cannot see columns below its rounding error
        cosm = np.max((np.abs(J.T @ f) / np.maximum(cols * nf_, 1e-300))[seen], initial=0.0) if S > 1e-20 else 0.0
        require(cosm <= 1e-3, "code %g although the residual makes a cosine of %g with a column of the Jacobian" % (ret, cosm))
    ctx.label("%s %d %s" % (["linear", "exponential", "Rosenbrock", "logistic"][c["kind"]], ret, "lmder" if c["jac"] else "lmdif"))


@sub("O02", lambda tier: C_LS([1, 1, 2]), 900, 12000, "several parameters", lambda c: c["n"] > 1)
def evaluation_limit(c, W, ctx):
    mf = 2 + c["seed"] % 24
    ret, nf, n, x, f, J, S, A, b, M, N = ls_call(c, W, mf)
    require(nf <= mf, "%g function evaluations, the limit is %d" % (nf, mf))
    if ret == 5: require(nf == mf, "code 5 after %g function evaluations, the limit is %d" % (nf, mf))
    if c["jac"]: require(n == nf, "%g evaluations reported, %g made" % (nf, n))
    else: require((n - nf) % N == 0 and n >= nf + N, "%g evaluations reported and %g made, which leaves no whole number of forward-difference Jacobians with %d columns" % (nf, n, N))
    ctx.label("code %d" % ret)


@sub("O02", lambda tier: C_LS([0, 1, 2]), 300, 6000, "several parameters", lambda c: c["n"] > 1)
def jacobian_and_difference_agree(c, W, ctx):
    """An analytic and a forward-difference Jacobian lead to the same minimum."""
    if c["kind"] == 2 or c["noise"] == 0.0: raise Discard()
    c = {**c, "far": min(c["far"], 1.0), "bad": 0, "extra": c["extra"] + 3}
    a = ls_call({**c, "jac": True}, W); b = ls_call({**c, "jac": False}, W)
    if 5 in (a[0], b[0]): raise Discard()
    require(abs(a[6] - b[6]) <= 1e-5 * min(a[6], b[6]) + 1e-12, "sum of squares %.17g with and %.17g without Jacobian" % (a[6], b[6]))
