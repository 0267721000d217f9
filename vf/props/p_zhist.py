"""G03: histories of operations on several live model objects; G04: printed summaries."""
import re
import numpy as np
from hypothesis import strategies as st
from ..core import sub, close, require, Violation, Discard, Crash
from .. import gen, models as M
from . import p_auto

KINDS = ["arima", "sarima", "sarimax", "auto", "ar"]
FIELDS = "retval p d q M ncoeff Nused mean var loglik aic".split()


def series(c):
    rng = gen.rng_of(c["seed"]); N, nd = c["n"], c["nd"]; t = np.arange(N)
    ys, zs = [], []
    for i in range(nd):
        y = gen.arma_sim(rng, gen.coef_poly(rng, int(rng.integers(0, 3)), .85), -gen.coef_poly(rng, int(rng.integers(0, 3)), .8), N)
        k = int(rng.integers(0, 5))
        if k == 1: y = np.cumsum(y)
        elif k == 2: y = y + .3 * t
        elif k == 3: y = y + 4 * np.resize(rng.standard_normal(4), N)
        elif k == 4: y = np.cumsum(y + .8)
        ys.append(y * rng.choice([1., 1., 20.]) + rng.choice([0., 5.])); z = rng.standard_normal(N); zs.append(z)
        if c.get("exog"): ys[-1] = ys[-1] + 2 * z
    return ys, zs, rng.standard_normal(40)


def call(W, c, ops):
    ys, zs, nx = series(c)
    flat = [v for o in ops for v in o]
    v = list(W.call("hist", [c["nd"], c["n"]] + flat + [-1], np.concatenate(ys), np.concatenate(zs), nx))
    out = []
    while v:
        require(v[0] in (-5, -6, -7), "history record %r" % v[0])
        n = int(v[1]); out.append((int(v[0]), np.array(v[2:2 + n]))); v = v[2 + n:]
    return out


def text(rec): return bytes(int(t) for t in rec[1]).decode("latin1")


def state(kind, v):
    """Named fields of a state record."""
    f = p_auto.Sel(); v = list(v)
    def take(n): t = np.array(v[:n]); del v[:n]; return t
    def ints(*names):
        for k in names: setattr(f, k, int(v.pop(0)))
    f.P = f.D = f.Q = f.s = f.r = f.q = f.d = f.M = 0; f.idrift = 0; f.exog = f.PHI = f.THETA = np.zeros(0)
    if kind == "ar":
        ints("retval", "p", "order", "ordermax"); f.mean, f.var, f.aic = take(3); f.phi = take(f.p); f.res = take(len(v)); return f
    ints(*FIELDS[:7]); f.mean, f.var, f.loglik, f.aic = take(4)
    if kind != "arima": ints("s", "P", "D", "Q")
    if kind in ("sarimax", "auto"): ints("r")
    if kind == "auto":
        ints("idrift"); f.bic, f.aicc, f.sigma2 = take(3)
    f.phi, f.theta, f.PHI, f.THETA = take(f.p), take(f.q), take(f.P), take(f.Q)
    f.exog = take(f.r + f.idrift)
    k = f.p + f.q + f.P + f.Q + f.M
    f.vcov = take(k * k).reshape(k, k); f.res = take(f.Nused)
    require(not v, "state record too long")
    return f


@st.composite
def create(draw, slot, kinds=(0, 1, 2, 3, 4, 2, 3)):
    k = draw(st.sampled_from(kinds))
    p, d, q = draw(st.integers(0, 2)), draw(st.sampled_from([0, 0, 1])), draw(st.integers(0, 2))
    P, D, Q, s = draw(st.integers(0, 1)), draw(st.sampled_from([0, 0, 1])), draw(st.integers(0, 1)), draw(st.sampled_from([4, 4, 3]))
    r, m = 0, 1
    if k in (2, 3): r = draw(st.sampled_from([0, 1]))
    if k == 2: m = draw(st.integers(0, 1))
    if k == 3: d = draw(st.integers(0, 2))
    if k == 4: m = draw(st.integers(0, 2))
    return [0, slot, k, p, d, q, P, D, Q, s, r, m]


def setters(draw, slot, k, bad=True):
    """One setter call with a valid (sometimes an invalid) value."""
    inv = bad and draw(st.integers(0, 5)) == 0
    if k == 4: return None
    ch = {0: [1, 2, 3], 1: [1, 2, 3], 2: [1, 2], 3: [9, 10, 11, 12]}[k]
    o = draw(st.sampled_from(ch))
    if o == 2: v = draw(st.sampled_from([5, 7, 6, 5, 0, 1])) if not inv else draw(st.sampled_from([-1, 8, 99]))
    elif o == 1: v = draw(st.integers(0, 2)) if not inv else draw(st.sampled_from([-1, 3, 7]))
    elif o == 3: v = draw(st.integers(0, 1))                                # other values end the program
    elif o == 10: v = 0 if not inv else draw(st.sampled_from([-1, 2]))      # approximation stays off: it is a speed option for long series
    else: v = draw(st.integers(0, 1)) if not inv else draw(st.sampled_from([-1, 2]))
    return [o, slot, v]


def valid(o, k):
    return {1: o[2] in (0, 1, 2), 2: 0 <= o[2] <= 7}.get(o[0], o[2] in (0, 1))


@st.composite
def c_hist(draw, tier):
    focus = draw(st.booleans())          # one object, settings changed between executions
    nslot = 1 if focus else draw(st.integers(1, 3)); nd = draw(st.integers(1, 3)); ops = []
    kind, ran = {}, {}
    for sl in range(nslot):
        o = draw(create(sl, (0, 1, 2, 0, 1, 2, 3)) if focus else create(sl)); kind[sl] = o[2]; ran[sl] = False; ops.append(o)
    if focus:
        k = kind[0]; ops.append([4, 0, 0]); ran[0] = True
        for _ in range(draw(st.integers(1, 4))):
            for _ in range(draw(st.integers(1, 2))):
                o = setters(draw, 0, k)
                if o: ops.append(o)
            ops.append([4, 0, draw(st.integers(0, nd - 1))])
            ops.append(draw(st.sampled_from([[6, 0], [7, 0], [5, 0, 3]])))
    for _ in range(0 if focus else draw(st.integers(2, 14))):
        sl = draw(st.integers(0, nslot - 1))
        a = draw(st.sampled_from(["set", "set", "exec", "exec", "exec", "predict", "predict", "state", "summary", "free", "new"]))
        if a == "new" or kind[sl] is None:
            o = draw(create(sl)); kind[sl] = o[2]; ran[sl] = False; ops.append(o); continue
        if a == "set":
            o = setters(draw, sl, kind[sl])
            if o: ops.append(o)
        elif a == "exec":
            ops.append([4, sl, draw(st.integers(0, nd - 1))]); ran[sl] = True
        elif a == "free": ops.append([8, sl]); kind[sl] = None
        elif ran[sl]: ops.append([5, sl, draw(st.sampled_from([1, 3, 8]))] if a == "predict" else [6 if a == "state" else 7, sl])
    for sl in range(nslot):
        if kind[sl] is not None and ran[sl]: ops += [[5, sl, 3], [6, sl]]
    return {"seed": draw(gen.seeds()), "n": draw(st.integers(40, 60)), "nd": nd, "exog": draw(st.booleans()), "ops": ops}


def norm(o, sl=0):
    t = list(o); t[1] = sl; return t


@sub("G03", lambda tier: c_hist(tier), 300, 4000, "a fit with at least two earlier operations on its object or another object alive", lambda c: sum(o[0] == 4 for o in c["ops"]) >= 2)
def histories(c, W, ctx):
    """Every output equals that of a fresh object with the settings in force, executed once on the data of the last execution."""
    out = call(W, c, c["ops"]); k = 0; fresh = {}
    made, last, nexec = {}, {}, {}
    for o in c["ops"]:
        sl = o[1]
        if o[0] == 0: made[sl] = [norm(o)]; last.pop(sl, None); nexec[sl] = 0
        elif o[0] == 8: made.pop(sl); last.pop(sl, None)
        elif o[0] == 4: last[sl] = [t for t in made[sl]] + [norm(o)]; nexec[sl] += 1
        elif o[0] in (5, 6, 7):
            # settings made since the last execution must not change what it found; the summary may name them
            pre = last[sl] if o[0] != 7 else last[sl] + [t for t in made[sl] if t not in last[sl]]
            want = call(W, c, pre + [norm(o)])[-1]
            kind = KINDS[made[sl][0][2]]
            require(k < len(out), "missing output")
            got = out[k]; k += 1
            same = got[0] == want[0] and len(got[1]) == len(want[1]) and np.array_equal(got[1], want[1], equal_nan=True)
            if not same:
                what = {5: "forecast", 6: "state", 7: "summary"}[o[0]]
                if o[0] == 7: raise Violation("summary of %s depends on the history: %r" % (kind, [(a, b) for a, b in zip(text(got).split("\n"), text(want).split("\n")) if a != b][:3]))
                i = int(np.flatnonzero(~((got[1] == want[1]) | (np.isnan(got[1]) & np.isnan(want[1]))))[0]) if len(got[1]) == len(want[1]) else -1
                raise Violation("%s of %s depends on the history (execution %d): value %d is %r, a fresh object gives %r" % (what, kind, nexec[sl], i, got[1][i], want[1][i]))
            ctx.label("%s exec%d" % (kind, min(nexec[sl], 3)))
        else:
            k3 = made[sl][0][2]
            if valid(o, k3): made[sl] = [t for t in made[sl] if t[0] != o[0]] + [norm(o)]
    require(k == len(out), "%d outputs instead of %d" % (len(out), k))


FLEN = [2, 4, 6, 10, 4, 8, 6, 4, 12]          # filter lengths of the wavelets of the shim


@st.composite
def w_create(draw, sl):
    k = draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5, 6, 7, 7, 8, 9, 10, 10])); a = b = e = g = 0
    if k <= 2:
        a = draw(st.integers(0, len(FLEN) - 1)); g = draw(st.integers(1, 3)); e = draw(st.integers(3, 60)) * 2 ** g
        if k == 0:
            b = draw(st.integers(0, 2))
            if b: a = draw(st.sampled_from([0, 1, 2, 3, 4, 5, 8]))
    elif k == 3: a, b = draw(st.integers(1, 200)), draw(st.sampled_from([1, -1]))
    elif k == 4: a, b = 2 * draw(st.integers(1, 100)), draw(st.sampled_from([1, -1]))
    elif k == 5: a, b = draw(st.integers(1, 150)), draw(st.integers(1, 60))
    elif k == 6: a = draw(st.integers(10, 200))
    elif k == 7: a, b = draw(st.integers(1, 5)), draw(st.integers(0, 7))
    elif k == 8: a, b = draw(st.integers(12, 60)), draw(st.integers(1, 4))
    elif k == 9: a = draw(st.integers(4, 150)); b = a + draw(st.integers(0, 60))
    else: b = draw(st.integers(1, 4)); a = draw(st.integers(b + 1, 40))
    return [0, sl, k, a, b, e, g]


@st.composite
def c_whist(draw):
    focus = draw(st.booleans())          # one object, settings changed between runs
    ns, nd = 1 if focus else draw(st.integers(1, 4)), draw(st.integers(1, 3)); ops, cur = [], {}
    for sl in range(ns): cur[sl] = draw(w_create(sl)); ops.append(cur[sl])

    def setting(sl):
        k = cur[sl][2]
        ch = {0: [(1, 2)] if cur[sl][4] == 1 else [(0, 2), (1, 2)], 1: [(0, 2)], 2: [(0, 2), (1, 4)], 7: [(0, 0), (1, 0), (2, 0)], 8: [(0, 2), (1, 3)], 10: [(0, 0), (1, 4), (1, 4)]}.get(k)
        if ch is None: return []
        if k == 0 and cur[sl][4] == 2:                # symmetric extension needs the FFT mode
            ext, cv = draw(st.sampled_from([(0, 0), (0, 1), (1, 1)])); return [[1, sl, 1, cv], [1, sl, 0, ext]]
        w, n = draw(st.sampled_from(ch))
        v = draw(st.integers(0, n - 1)) if n else draw(st.integers(3, 9)) if k == 10 else draw(st.integers(2, 60)) if w == 0 else draw(st.integers(1, 10)) if w == 1 else draw(st.integers(3, 9))
        return [[1, sl, w, v]]

    for _ in range(draw(st.integers(2, 5)) if focus else draw(st.integers(3, 16))):
        if focus:
            ops += setting(0) + [[2, 0, draw(st.integers(0, nd - 1))]]; continue
        sl = draw(st.integers(0, ns - 1)); a = draw(st.sampled_from(["run", "run", "run", "set", "set", "new", "free"]))
        if a == "new" or not cur[sl]: cur[sl] = draw(w_create(sl)); ops.append(cur[sl])
        elif a == "free": ops.append([3, sl]); cur[sl] = None
        elif a == "run": ops.append([2, sl, draw(st.integers(0, nd - 1))])
        else: ops += setting(sl)
    for sl in range(ns):
        if cur[sl]: ops.append([2, sl, 0])
    return {"seed": draw(gen.seeds()), "nd": nd, "ops": ops}


OBJ = ["wt", "wtree", "wpt", "fft", "real fft", "conv", "auto_fft", "opt", "reg", "spectrum", "nls"]


@sub("G03", c_whist(), 700, 20000, "at least two runs", lambda c: sum(o[0] == 2 for o in c["ops"]) >= 2)
def work_objects(c, W, ctx):
    """Transform, convolution, optimiser and regression objects: every run gives what a fresh object with the same settings gives."""
    y = gen.rng_of(c["seed"]).standard_normal(512 * c["nd"])
    def go(ops):
        v = list(W.call("whist", [c["nd"]] + [t for o in ops for t in o] + [-1], y)); out = []
        while v:
            require(v[0] == -5, "record"); n = int(v[1]); out.append(np.array(v[2:2 + n])); v = v[2 + n:]
        return out
    out, k, made, nrun = go(c["ops"]), 0, {}, {}
    for o in c["ops"]:
        sl = o[1]
        if o[0] == 0: made[sl] = [norm(o)]; nrun[sl] = 0
        elif o[0] == 3: made.pop(sl)
        elif o[0] == 1: made[sl] = [t for t in made[sl] if t[0] != 1 or t[2] != o[2]] + [norm(o)]
        else:
            want = go(made[sl] + [norm(o)])[0]; got = out[k]; k += 1; nrun[sl] += 1; kind = OBJ[made[sl][0][2]]
            require(len(got) == len(want) and np.array_equal(got, want, equal_nan=True), "%s object: run %d of a history gives another result than a fresh object with the same settings" % (kind, nrun[sl]))
            ctx.label("%s run%d" % (kind, min(nrun[sl], 3)))


# ------------------------------------------------------------------ G04
@st.composite
def c_sum(draw):
    o = draw(create(0)); k = o[2]; ops = [o]
    c = {"seed": draw(gen.seeds()), "n": draw(st.integers(40, 70)), "nd": 1, "exog": draw(st.booleans()), "k": k, "method": -1, "opt": -1}
    if k < 4:
        c["opt"] = draw(st.sampled_from([-1, 0, 5, 6, 7, 1, 2, 3, 4] if k < 3 else [-1]))
        if c["opt"] >= 0: ops.append([2, 0, c["opt"]])
        if k < 3:
            c["method"] = draw(st.sampled_from([-1, 0, 1, 2])); 
            if c["method"] >= 0: ops.append([1, 0, c["method"]])
    c["step"], c["approx"] = 1, 0
    if k == 3:
        if draw(st.booleans()): o[7:10] = [0, 0, 0]; o[9] = 0
        c["step"] = draw(st.integers(0, 1)); ops.append([9, 0, c["step"]])
        c["approx"] = draw(st.integers(0, 1)); ops.append([10, 0, c["approx"]])
    c["ops"] = ops + [[4, 0, 0], [6, 0], [7, 0]]
    return c


METHODS = {0: ["MLE", "CSS", "BOX-JENKINS"], 1: ["MLE", "CSS", "BOX-JENKINS"], 2: ["CSS-MLE", "MLE", "CSS"], 3: ["CSS-MLE", "MLE", "CSS"], 4: ["Yule Walker", "Burg", "MLE"]}
OPTS = ["Nelder-Mead", "Newton Line Search", "Newton Trust Region - Hook Step", "Newton Trust Region - Double Dog-Leg", "Conjugate Gradient", "BFGS", "L-BFGS", "BFGS More-Thuente Line Search"]
MSG = {0: "Input Error", 1: "Probable Success", 4: "Optimization Routine didn't converge", 7: "Exogenous Variables are collinear", 10: "Nonstationary AR part",
       12: "Nonstationary Seasonal AR part", 15: "Optimization Routine Encountered Inf/Nan Values"}


def eqnum(name, s, v):
    """A number printed with %g."""
    try: t = float(s)
    except ValueError: raise Violation("summary: %s is printed as %r" % (name, s))
    if np.isnan(v): ok = np.isnan(t)
    elif not np.isfinite(v): ok = t == v
    else: ok = abs(t - v) <= 1.01e-5 * abs(v) or abs(t - v) < 1e-300
    require(ok, "summary: %s is printed as %s, the fit has %.8g" % (name, s, v))


@sub("G04", c_sum(), 500, 10000, "model with at least one coefficient", None)
def summaries(c, W, ctx):
    """Orders, coefficients, standard errors, statistics and method names of the printed summary are those of the fit."""
    out = call(W, c, c["ops"]); kind = KINDS[c["k"]]
    f = state(kind, out[0][1]); t = text(out[1]); lines = [l.rstrip() for l in t.split("\n")]
    ctx.label("%s ret%d" % (kind, f.retval))
    def field(pat, must=True):
        m = [re.match(pat, l) for l in lines]; m = [x for x in m if x]
        require(len(m) == (1 if must else len(m)), "summary of %s has %d lines like %r" % (kind, len(m), pat))
        return m[0] if m else None
    # orders
    if kind == "ar": want, pat = [f.p], r"\s*AR Order : \(\s*(-?\d+)\)$"
    elif kind == "arima": want, pat = [f.p, f.d, f.q], r"\s*ARIMA Order : \(\s*(-?\d+), (-?\d+), (-?\d+)\)$"
    else: want, pat = [f.p, f.d, f.q, f.P, f.D, f.Q], r"\s*ARIMA Seasonal Order : \(\s*(-?\d+), (-?\d+), (-?\d+)\) \* \((-?\d+), (-?\d+), (-?\d+)\)$"
    require([int(v) for v in field(pat).groups()] == want, "summary shows another order than %r: %r" % (want, field(pat).group(0)))
    # coefficient table
    nc = f.p + f.q + f.P + f.Q
    if kind != "ar":
        with np.errstate(all="ignore"): se = np.sqrt(np.diag(f.vcov))
    i = 0; rows = []
    for nm, v in (("AR", f.phi), ("MA", getattr(f, "theta", ())), ("SAR", f.PHI), ("SMA", f.THETA)):
        for j, x in enumerate(v): rows.append(("%s%d" % (nm, j + 1), x, None if kind == "ar" else se[i])); i += 1
    hasmean = kind != "ar" and f.M - (f.r + f.idrift) == 1
    if hasmean: rows.append(("MEAN", f.mean, se[i])); i += 1
    else: rows.append(("MEAN", f.mean, None))
    ex = list(f.exog)
    if kind == "auto":
        if f.idrift: rows.append(("TREND", ex.pop(0), se[i])); i += 1
        else: rows.append(("TREND", 0.0, None))
    for x in ex: rows.append(("EXOG", x, se[i])); i += 1
    if kind != "ar": require(i == len(se), "covariance matrix has %d rows for %d coefficients" % (len(se), i))
    got = []
    for l in lines:
        m = re.match(r"(AR\d+|MA\d+|SAR\d+|SMA\d+|MEAN|TREND|EXOG)\s+(\S+)(?:\s+(\S+))?$", l)
        if m: got.append(m.groups())
    key = lambda r: r[0]
    require(sorted(g[0] for g in got) == sorted(r[0] for r in rows), "summary of %s lists %r instead of %r" % (kind, [g[0] for g in got], [r[0] for r in rows]))
    for nm in {r[0] for r in rows}:
        for g, r in zip([g for g in got if g[0] == nm], [r for r in rows if r[0] == nm]):
            eqnum(nm, g[1], r[1])
            if r[2] is None: require(g[2] is None, "summary: %s has a standard error %s" % (nm, g[2]))
            else: require(g[2] is not None, "summary: %s has no standard error" % nm); eqnum("standard error of " + nm, g[2].replace("-nan", "nan"), r[2])
    eqnum("SIGMA^2", field(r"SIGMA\^2\s+(\S+)$").group(1), f.sigma2 if kind == "auto" else f.var)
    # methods
    m = c["method"] if c["method"] >= 0 else 0
    if kind == "ar": m = c["ops"][0][11]
    require(field(r"ESTIMATION METHOD : (.*)$").group(1) == METHODS[c["k"]][m], "summary of %s names the estimation method %r, not %r" % (kind, field(r"ESTIMATION METHOD : (.*)$").group(1), METHODS[c["k"]][m]))
    if kind == "ar": return
    o = c["opt"] if c["opt"] >= 0 else 5
    bj = kind in ("arima", "sarima") and m == 2
    wo = "Newton-Raphson" if bj else OPTS[o]
    require(field(r"OPTIMIZATION METHOD : (.*)$").group(1) == wo, "summary of %s names the optimiser %r, not %r" % (kind, field(r"OPTIMIZATION METHOD : (.*)$").group(1), wo))
    # status
    rc = field(r"Return Code : (-?\d+)$", must=not bj)
    if rc:
        require(int(rc.group(1)) == f.retval, "summary shows return code %s, the fit has %d" % (rc.group(1), f.retval))
        require(field(r"Exit Message : (.*)$").group(1).strip() == MSG.get(f.retval), "summary: message %r for return code %d" % (field(r"Exit Message : (.*)$").group(1), f.retval))
    # statistics
    css = m == (1 if kind in ("arima", "sarima") else 2)
    L = field(r"Log Likelihood : (.*)$").group(1).strip()
    if bj: require(L == "Unavailable", "log likelihood of a Box-Jenkins fit: " + L)
    else: eqnum("Log Likelihood", L, f.loglik)
    for nm, pat in (("aic", r"(?i)AIC criterion : (.*)$"), ("bic", r"(?i)BIC criterion : (.*)$"), ("aicc", r"(?i)AICC criterion : (.*)$")):
        if nm != "aic" and kind != "auto": continue
        A = field(pat).group(1).strip()
        if bj or css: require(A == "Unavailable", "%s of a %s fit is printed as %s" % (nm, METHODS[c["k"]][m], A))
        else: eqnum(nm, A, getattr(f, nm))
    if kind == "auto":
        for nm, v in (("Approximation", c["approx"]), ("Stepwise", c["step"])):
            require(field(nm + r": (\w+)$").group(1) == ("TRUE" if v else "FALSE"), "summary: %s is not shown as set" % nm)
    eq = field(r"EQUATION FORM : x\[t\](.*)=(.*)$", must=kind in ("arima", "sarimax"))
    if eq:
        for side, var, co in ((eq.group(1), "x", f.phi), (eq.group(2), "a", f.theta)):
            terms = re.findall(r"([+-]) (\S+?)\*%s\[t - (\d+)\]" % var, side)
            require(len(terms) == side.count("*"), "equation form not understood: " + side)
            require([int(x[2]) for x in terms] == [j + 1 for j, x in enumerate(co) if x != 0], "equation form %r has not one term for each of %r" % (side, list(co)))
            for sg, a, j in terms: eqnum("equation coefficient of %s[t - %s]" % (var, j), ("-" if sg == "-" else "") + a, -co[int(j) - 1])
        if kind == "arima":
            k = re.match(r"\s*(?:(\S+) \+)?\s*a\[t\]", eq.group(2)); require(k, "equation form: right-hand side %r" % eq.group(2))
            K = f.mean * (1 - np.sum(f.phi)); a = float(k.group(1) or 0)
            require(abs(a - K) <= 2e-5 * abs(f.mean) * (1 + np.sum(np.abs(f.phi))), "equation form has the constant %r; the mean %g and the coefficients make it %.8g" % (a, f.mean, K))
    if nc == 0: ctx.trivial()


@st.composite
def c_used(draw):
    s = draw(st.sampled_from([0, 4, 3])); o = [0, 0, 3, draw(st.integers(0, 3)), draw(st.integers(0, 2)), draw(st.integers(0, 3)), draw(st.integers(0, 1)), 1, draw(st.integers(0, 1)), s, 0, 1]
    setter = draw(st.sampled_from(["none", "method", "optmethod"]))
    return {"seed": draw(gen.seeds()), "n": draw(st.integers(40, 90)), "nd": 1, "create": o, "setter": setter,
            "value": {"none": 0, "method": draw(st.integers(1, 2)), "optmethod": draw(st.sampled_from([0, 3, 4, 6, 7]))}[setter]}


@sub("G04", c_used(), 250, 4000, "the selected model has a coefficient", None)
def methods_named_by_auto_arima_were_used(c, W, ctx):
    """The fit is the one sarimax makes of the selected model with the estimation and optimisation method the summary names."""
    sv = {"none": [], "method": [[13, 0, c["value"]]], "optmethod": [[2, 0, c["value"]]]}[c["setter"]]
    out = call(W, c, [c["create"]] + sv + [[4, 0, 0], [6, 0], [7, 0]])
    f = state("auto", out[0][1]); t = text(out[1])
    me = re.search(r"ESTIMATION METHOD : (.*)", t).group(1).strip(); op = re.search(r"OPTIMIZATION METHOD : (.*)", t).group(1).strip()
    require(me in METHODS[3] and op in OPTS, "summary names %r, %r" % (me, op))
    x = series(c)[0][0]; Z = np.arange(1.0, len(x) + 1)[:, None] if f.idrift else None
    const = int(f.idrift or f.M - f.idrift == 1)
    def ref(m, o): return M.call_sarimax(W, x, f.p, f.d, f.q, f.P, f.D, f.Q, f.s, Z, const, m, o)
    def vec(g): return np.r_[g.phi, g.theta, g.PHI, g.THETA, g.exog, g.mean, g.var, g.res, g.vcov.ravel()]
    a, b, d = vec(f), ref(METHODS[3].index(me), OPTS.index(op)), ref(0, 5)
    if f.ncoeff == 0: ctx.trivial()
    if np.array_equal(a, vec(b), equal_nan=True): return
    require(not np.array_equal(a, vec(d), equal_nan=True), "the fit is that of CSS-MLE with BFGS, the summary names %s with %s" % (me, op))
    raise Violation("the fit is not that of the selected model with %s and %s (first coefficient %r, expected %r)" % (me, op, a[0], vec(b)[0]))
