"""G05: what the regression, optimiser, wavelet and matrix printing functions show."""
import re
import numpy as np
from hypothesis import strategies as st
from ..core import sub, require, Violation, Discard
from .. import gen
from . import p_wave

OPTS = ["Nelder-Mead", "Newton Line Search", "Newton Trust Region - Hook Step", "Newton Trust Region - Double Dog-Leg", "Conjugate Gradient", "BFGS", "Limited Memory BFGS", "BFGS More-Thuente Line Search"]
NLS = {0: "improper input", 1: "sum of squares", 2: "two consecutive iterates", 3: "conditions for info = 1 and info = 2", 4: "cosine of the angle", 5: "maxfev", 6: "ftol is too small", 7: "xtol is too small", 8: "gtol is too small"}


class Reader:
    def __init__(s, r): s.r, s.i = r, 0
    def take(s, n): v = s.r[s.i:s.i + n]; s.i += n; require(len(v) == n, "output ends early"); return v
    def one(s): return float(s.take(1)[0])
    def int(s): return int(s.take(1)[0])
    def text(s): return bytes(int(t) for t in s.take(s.int())).decode("latin1")


def num(s, what):
    try: return float(s)
    except ValueError: raise Violation("%s is printed as %r" % (what, s))


def eq(what, s, v, fmt):
    """fmt g: six significant digits; f: six decimals; d: exact."""
    t = num(s, what)
    if np.isnan(v): ok = np.isnan(t)
    elif np.isinf(v): ok = t == v
    else: ok = t == v if fmt == "d" else abs(t - v) <= 5.1e-6 * abs(v) + 1e-300 if fmt == "g" else abs(t - v) <= 5.01e-7 + 1e-15 * abs(v)
    require(ok, "%s is printed as %s, it is %.10g" % (what, s, v))


def lines(t): return [l.strip() for l in t.split("\n") if l.strip()]


def one(ls, pat):
    m = [x for x in (re.match(pat, l) for l in ls) if x]
    require(len(m) == 1, "%d lines like %r in %r" % (len(m), pat, ls)); return m[0].groups()


def rows(ls, pat): return [x.groups() for x in (re.match(pat, l) for l in ls) if x]


@st.composite
def c_regs(draw):
    nm = draw(st.integers(1, 4)); ms = []
    for _ in range(nm):
        ic = draw(st.sampled_from([1, 1, 1, 0])); ms.append((draw(st.integers(1, 5)), ic))
    return {"m": ms, "n": draw(st.integers(8, 40)), "seed": draw(gen.seeds()), "alpha": draw(st.sampled_from([.05, .1, .01, .5])), "noise": draw(st.sampled_from([1.0, .1, 10.0])), "sc": draw(st.sampled_from([1.0, 1.0, 30.0, .01]))}


@sub("G05", c_regs(), 500, 10000, "several coefficients or models", lambda c: len(c["m"]) > 1 or c["m"][0][0] > 1)
def regression_tables(c, W, ctx):
    """summary, anova, confint, zerohyp_val and anova_list print the object's values in their places."""
    rng = gen.rng_of(c["seed"]); n, ms = c["n"], c["m"]; k = max(max(p - ic for p, ic in ms), 1)
    X = rng.standard_normal((k, n)); y = c["sc"] * (2 + rng.uniform(-2, 2, k) @ X + c["noise"] * rng.standard_normal(n))
    r = Reader(W.call("sum_reg", [len(ms), n, k] + [v for m in ms for v in m], c["alpha"], X, y))
    G = r"(\S+)"; tab = []
    for p, ic in ms:
        B = r.take(4 * p).reshape(p, 4); s2, slo, shi, r2, r2a, tss, ess, rss = r.take(8); de, dr = r.int(), r.int(); F, pF = r.take(2); tab.append((dr, rss))
        t = lines(r.text()); g = rows(t, r"B(\d+)\s+(\S+)\s+(\S+)$"); require([int(v[0]) for v in g] == list(range(p)), "summary lists the coefficients %s of %d" % ([v[0] for v in g], p))
        for i, v in enumerate(g): eq("coefficient B%d" % i, v[1], B[i, 0], "f"); eq("standard error of B%d" % i, v[2], B[i, 1], "g")
        eq("residual variance", one(t, "Residual Variance = " + G)[0], s2, "f"); v = one(t, r"R-Squared = (\S+) , Adjusted R-Squared = (\S+)"); eq("R-squared", v[0], r2, "f"); eq("adjusted R-squared", v[1], r2a, "f")
        t = lines(r.text())
        for nm, df, ss in (("Due to Regression", de, ess), ("Due to Residual", dr, rss)):
            v = one(t, nm + r"\s+(\S+)\s+(\S+)\s+(\S+)$"); eq(nm + ": degrees of freedom", v[0], df, "d"); eq(nm + ": sum of squares", v[1], ss, "f")
            if df: eq(nm + ": mean square", v[2], ss / df, "f")
        v = one(t, r"Total\s+(\S+)\s+(\S+)$"); eq("total degrees of freedom", v[0], n - ic, "d"); eq("total sum of squares", v[1], tss, "f")
        eq("F statistic", one(t, "F Statistics = " + G)[0], F, "g"); eq("p value of F", one(t, r"P Value \(F\)  = " + G)[0], pF, "g")
        t = lines(r.text()); eq("confidence level", one(t, r"(\S+)\s*% Confidence")[0], 100 * (1 - c["alpha"]), "f")
        g = rows(t, r"B(\d+)\s+(\S+)\s+(\S+)\s+(\S+)$"); require([int(v[0]) for v in g] == list(range(p)), "confint lists the coefficients %s of %d" % ([v[0] for v in g], p))
        for i, v in enumerate(g):
            for nm, a, b in zip(("value", "lower limit", "upper limit"), v[1:], B[i, [0, 2, 3]]): eq("%s of B%d" % (nm, i), a, b, "f")
        v = one(t, r"Residual Variance\s+(\S+)\s+(\S+)\s+(\S+)$")
        for a, b in zip(v, (s2, slo, shi)): eq("interval of the residual variance", a, b, "f")
        t = lines(r.text()); tv, pv = r.take(p), r.take(p); g = rows(t, r"B(\d+)\s+(\S+)\s+(\S+)$"); require([int(v[0]) for v in g] == list(range(p)), "zerohyp_val lists %s" % [v[0] for v in g])
        for i, v in enumerate(g): eq("t value of B%d" % i, v[1], tv[i], "f"); eq("probability of B%d" % i, v[2], pv[i], "g"); require(abs(tv[i] * B[i, 1] - abs(B[i, 0])) <= 1e-12 * abs(B[i, 0]), "t value %g of %g (%g)" % (tv[i], B[i, 0], B[i, 1]))
    t = lines(r.text())[2:]; require(len(t) == len(ms), "anova_list prints %d rows for %d models" % (len(t), len(ms)))
    first = int(t[0].split()[0])
    for i, l in enumerate(t):
        v = l.split(); require(len(v) == (5 if i else 3), "anova_list: row %r" % l); require(int(v[0]) == first + i, "anova_list numbers the models %s" % [a.split()[0] for a in t])
        eq("residual degrees of freedom of model %d" % i, v[1], tab[i][0], "d"); eq("residual sum of squares of model %d" % i, v[2], tab[i][1], "f")
        if i: eq("difference of the degrees of freedom", v[3], tab[i - 1][0] - tab[i][0], "d"); eq("difference of the sums of squares", v[4], tab[i - 1][1] - tab[i][1], "f")


METH = ["dwt", "swt", "modwt"]


@sub("G05", lambda tier: st.tuples(p_wave.case(p_wave.NAMES)(tier), st.integers(0, 4), st.integers(0, 3)).map(lambda t: {**t[0], "m": t[1], "e": t[2], "N": min(t[0]["N"], 70)}), 700, 12000, "two levels or more", lambda c: c["J"] > 1)
def wavelet_tables(c, W, ctx):
    """Filters, settings and lengths are the object's; every access line names the slice of output that holds that node's coefficients."""
    w, m = c["w"], c["m"]; F = p_wave.filters(w, W); L = F.shape[1]; n = c["N"]; per, fft = c["per"], c["fft"]
    if m == 2 and w not in p_wave.ORTHO: raise Discard()
    if m in (1, 2):
        per = True
        J = max(1, min(c["J"], 4)); n = max(1, n // 2 ** J) * 2 ** J
        while J > 1 and p_wave.maxlev(n) < J: J -= 1
        if p_wave.maxlev(n) < J or n < 3: raise Discard()
    else: J = p_wave.fit_levels(c, n, L)
    x = p_wave.signal(c, n)
    r = Reader(W.call("sum_wave", p_wave.nm(w) + [m, int(not per), int(fft), J, n, c["e"]], [], x))
    f = [r.take(L) for _ in range(4)]

    def filters(t):
        require(one(t, r"Wavelet Name : (\S+)$")[0] == w, "another wavelet is named")
        for nm, v in zip(("lpd", "hpd", "lpr", "hpr"), f):
            g = one(t, nm + r" : \[(.*)\]$")[0].split(","); require(len(g) == L, "%d coefficients of %s" % (len(g), nm))
            for i, a in enumerate(g): eq("%s[%d]" % (nm, i), a, v[i], "g")
    filters(lines(r.text()))
    size = r.int(); out = r.take(size); t = lines(r.text()); filters(t)
    if m < 4: require(one(t, r"Wavelet Transform : (\S+)$")[0] == (METH + ["dwt"])[m], "transform %r" % one(t, "Wavelet Transform : (.*)$")[0])
    require(one(t, r"Signal Extension : (\S+)$")[0] == ("per" if per else "sym"), "extension")
    if m < 3: require(one(t, r"Convolutional Method : (\S+)$")[0] == ("fft" if fft else "direct"), "convolution method")
    for nm, v in (("Number of Decomposition Levels", J), ("Length of Input Signal", n), ("Length of WT Output Vector", size)): eq(nm, one(t, nm + r" (\S+)$")[0], v, "d")
    if m < 3:
        g = [tuple(map(int, v)) for v in rows(t, r"Level (\d+) Access : output\[(\d+)\] Length : (\d+)$")]
        require([v[0] for v in g] == [J] + list(range(J, 0, -1)), "levels listed: %s" % g); at = 0
        for v in g: require(v[1] == at, "access indices %s do not follow from the lengths" % g); at += v[2]
        require(at == size, "the listed parts have %d values, the output has %d" % (at, size))
        if m == 0:
            co = [len(v) for v in p_wave.pyramid(x, F, per, J)[0]]; require([v[2] for v in g] == co, "lengths %s, expected %s" % (g, co))
        else: require(all(v[2] == n for v in g), "lengths %s" % g)
    else:
        g = [tuple(map(int, v)) for v in rows(t, r"Node (\d+) (\d+) Access : output\[(\d+)\] Length : (\d+)$")]; want = {}
        if m == 3:
            for l in range(1, J + 1):
                k = r.int()
                for y in range(2 ** l): want[l, y] = r.take(k)
        else:
            nodes = r.int(); eq("number of active nodes", one(t, r"Number of Active Nodes (\S+)$")[0], nodes, "d")
            require(one(t, r"Entropy : (\S+)$")[0] == ["shannon", "threshold", "norm", "logenergy"][c["e"]], "entropy")
            for _ in range(nodes): l, y = r.int(), r.int(); want[l, y] = r.take(r.int())
            if (0, 0) in want: require(np.array_equal(out[:n], x), "the undecomposed series is the basis, output holds other values")
        require(sorted((v[0], v[1]) for v in g) == sorted(want), "nodes listed: %s, the object has %s" % (sorted((v[0], v[1]) for v in g), sorted(want)))
        for l, y, at, k in g:
            require(k == len(want[l, y]) and at + k <= size, "node (%d, %d): length %d at %d; it has %d coefficients and the output %d" % (l, y, k, at, len(want[l, y]), size))
            require(np.array_equal(out[at:at + k], want[l, y]), "node (%d, %d): output[%d..%d] does not hold its coefficients" % (l, y, at, at + k - 1))
    ctx.label((METH + ["wtree", "dwpt"])[m])


@sub("G05", st.fixed_dictionaries({"n": st.integers(1, 6), "m": st.integers(0, 7), "mi": st.sampled_from([0, 0, 1, 2, 5]), "ex": st.integers(0, 3), "mf": st.sampled_from([0, 0, 1, 5, 20]), "seed": gen.seeds(), "sc": st.sampled_from([1.0, 1.0, 0.0, 100.0])}), 400, 8000, "several variables", lambda c: c["n"] > 1)
def optimiser_summaries(c, W, ctx):
    """optsummary and nlssummary print code, method, iterations, point and value, and the message of the code."""
    rng = gen.rng_of(c["seed"]); n = c["n"]; x0, ce = rng.normal(size=n) * min(c["sc"], 3), rng.normal(size=n) * c["sc"]
    r = Reader(W.call("sum_opt", [n, c["m"], c["mi"], n + c["ex"], c["mf"]], [], x0, ce))
    ret, meth, it, obj = r.int(), r.int(), r.int(), r.one(); x = r.take(n); name = r.text(); t = lines(r.text())
    require(meth == c["m"] and name.strip() == OPTS[c["m"]], "method %d %r, used was %d %r" % (meth, name, c["m"], OPTS[c["m"]]))
    eq("return value", one(t, r"Return Value : (\S+)$")[0], ret, "d"); v = one(t, r"Method : (\d+) (.*)$"); require((int(v[0]), v[1].strip()) == (c["m"], OPTS[c["m"]]), "method printed as %s" % (v,))
    eq("iterations", one(t, r"Iterations : (\S+)$")[0], it, "d"); eq("function value", one(t, r"Function Value : (\S+)$")[0], obj, "g")
    g = one(t, r"Function Minimized At : \[(.*)\]$")[0].split(); require(len(g) == n, "%d coordinates" % len(g))
    for i, a in enumerate(g): eq("coordinate %d" % i, a, x[i], "g")
    ret, it = r.int(), r.int(); x = r.take(n); t = lines(r.text()); eq("return value", one(t, r"Return Value : (\S+)$")[0], ret, "d"); eq("iterations", one(t, r"Iterations : (\S+)$")[0], it, "d")
    m = one(t, r"Termination Message : (.*)$")[0]; require(NLS.get(ret, "?") in m, "message %r for code %d" % (m, ret))
    g = one(t, r"Function Minimized At : \[(.*)\]$")[0].split(); require(len(g) == n, "%d coordinates" % len(g))
    for i, a in enumerate(g): eq("coordinate %d" % i, a, x[i], "g")
    ctx.label("%s nls %d" % (OPTS[c["m"]], ret))


@sub("G05", st.fixed_dictionaries({"r": st.integers(1, 7), "k": st.integers(1, 7), "seed": gen.seeds(), "e": st.integers(-12, 12)}), 200, 2000, "several rows and columns", lambda c: c["r"] > 1 and c["k"] > 1)
def matrices(c, W, ctx):
    """mdisplay prints the order and every row of the matrix."""
    A = gen.rng_of(c["seed"]).standard_normal((c["r"], c["k"])) * 10.0 ** c["e"]; t = lines(Reader(W.call("sum_mat", [c["r"], c["k"]], [], A)).text())
    require(one(t, r"MATRIX Order : (\d+) X (\d+)$") == (str(c["r"]), str(c["k"])), "order"); g = rows(t, r"R(\d+): (.*):R(\d+)$"); require(len(g) == c["r"], "%d rows" % len(g))
    for i, v in enumerate(g):
        require(int(v[0]) == int(v[2]) == i and len(v[1].split()) == c["k"], "row %d: %r" % (i, v))
        for j, a in enumerate(v[1].split()): eq("element (%d, %d)" % (i, j), a, A[i, j], "g")
