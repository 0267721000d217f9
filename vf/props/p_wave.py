"""W01 discrete wavelet transform and packets; W02 stationary and maximal-overlap transforms."""
import numpy as np
from hypothesis import strategies as st
from ..core import sub, close, require, Discard
from .. import gen

BI = "1.1 1.3 1.5 2.2 2.4 2.6 2.8 3.1 3.3 3.5 3.7 3.9 4.4 5.5 6.8".split()
ORTHO = ["haar"] + ["db%d" % i for i in range(1, 39)] + ["sym%d" % i for i in range(2, 21)] + ["coif%d" % i for i in range(1, 18)]
NAMES = ORTHO + ["bior" + b for b in BI] + ["rbior" + b for b in BI]
_F = {}


def nm(s): return [len(s)] + [ord(ch) for ch in s]


def length(name):
    if name == "haar": return 2
    if name[:2] == "db": return 2 * int(name[2:])
    if name[:3] == "sym": return 2 * int(name[3:])
    if name[:4] == "coif": return 6 * int(name[4:])
    a, b = name[-3:].split("."); a, b = int(a), int(b)
    return {("4", "4"): 10, ("5", "5"): 12, ("6", "8"): 18}.get((str(a), str(b)), 4 if (a, b) == (3, 1) else 2 * b if a % 2 and a < 3 else 2 * b + 2)


def moments(name):
    if name == "haar": return 1
    if name[:2] == "db": return int(name[2:])
    if name[:3] == "sym": return int(name[3:])
    if name[:4] == "coif": return 2 * int(name[4:])
    a, b = map(int, name[-3:].split("."))
    if (a, b) in ((4, 4), (5, 5), (6, 8)): return {(4, 4): 4, (5, 5): 4, (6, 8): 6}[a, b]
    return b if name[0] == "r" else a


def filters(name, W):
    if name not in _F:
        r = W.call("wavefilt", nm(name)); L = int(r[0])
        require(np.all(r[:5] == L), "filter lengths of %s: %s" % (name, r[:5])); _F[name] = r[5:].reshape(4, L)
    return _F[name]


@sub("W01", st.fixed_dictionaries({"w": st.sampled_from(NAMES + ["meyer"]), "m": st.integers(-60, 60)}), 400, 4000, "shift inside the filter length", lambda c: True)
def filter_banks(c, W, ctx):
    """Every filter bank is biorthogonal under even shifts, has the vanishing moments its name states and unit gain."""
    w = c["w"]; _F.pop(w, None); lpd, hpd, lpr, hpr = filters(w, W); L = len(lpd)
    if w != "meyer": require(L == length(w), "%s has filters of length %d" % (w, L))
    tol = 1e-5 if w == "meyer" else 1e-10
    for a, b, d, n in ((lpd, lpr, 1, "low"), (hpd, hpr, 1, "high"), (lpd, hpr, 0, "low/high"), (hpd, lpr, 0, "high/low")):
        full = np.convolve(a, b)[(L - 1) % 2::2]; want = np.zeros(len(full)); want[((L - 1) - (L - 1) % 2) // 2] = d
        close("%s: %s-pass filters under even shifts" % (w, n), full, want, 0, tol)
    if w[0] not in "br": require(np.array_equal(lpr, lpd[::-1]) and np.array_equal(hpr, hpd[::-1]), "%s: reconstruction filters are not the reversed ones" % w)
    require(abs(lpd.sum() - 2 ** .5) < 1e-9 and abs(lpr.sum() - 2 ** .5) < 1e-9, "%s: low-pass gain %.15g" % (w, lpd.sum()))
    k = (np.arange(L) - (L - 1) / 2) / L
    for q in range(0 if w == "meyer" else moments(w)): require(abs(hpd @ k ** q) <= 1e-7, "%s: moment %d of the high-pass filter is %g" % (w, q, hpd @ k ** q))
    ctx.label(w.rstrip("0123456789."))


# ------------------------------------------------------------------ definitions
def ana(x, f, per):
    """One level: filter and keep every second value."""
    L = len(f)
    if per:
        if len(x) % 2: x = np.r_[x, x[-1]]
        n = len(x) // 2; return np.array([f @ x[(2 * i + L // 2 - np.arange(L)) % len(x)] for i in range(n)])
    n = (len(x) + L - 1) // 2; e = np.pad(x, (L - 1, L), "symmetric")
    return np.array([f @ e[2 * i + 1 - np.arange(L) + L - 1] for i in range(n)])


def syn(a, f, per, n):
    """Transpose-like synthesis of one branch to n values."""
    L = len(f); u = np.zeros(2 * len(a)); u[::2] = a
    if per:
        m = len(u); i = np.arange(m)
        return sum(f[l] * u[(i + L // 2 - 1 - l) % m] for l in range(L))[:n]
    y = np.convolve(u, f); return y[L - 2:L - 2 + n]


def pyramid(x, F, per, J):
    out, lens, a = [], [len(x)], np.asarray(x, float)
    for _ in range(J): d = ana(a, F[1], per); a = ana(a, F[0], per); out.insert(0, d); lens.append(len(a))
    return [a] + out, lens


def inverse(co, F, per, lens):
    a = co[0]
    for j, d in enumerate(co[1:]): n = lens[len(lens) - 2 - j]; a = syn(a, F[2], per, n) + syn(d, F[3], per, n)
    return a


def undec(x, F, M, modwt):
    n, L = len(x), len(F[0]); i = np.arange(n); o = 0 if modwt else L * M // 2; s = 2 ** .5 if modwt else 1.0
    return [sum(f[l] / s * x[(i + o - l * M) % n] for l in range(L)) for f in F[:2]]


def und_pyramid(x, F, J, modwt):
    a, out = np.asarray(x, float), []
    for j in range(J): a, d = undec(a, F, 2 ** j, modwt); out.insert(0, d)
    return [a] + out


def modwt_inv(co, F, J):
    a, n = co[0], len(co[0]); i = np.arange(n)
    for j in range(J - 1, -1, -1):
        d = co[J - j]; a = sum((F[0][l] * a[(i + l * 2 ** j) % n] + F[1][l] * d[(i + l * 2 ** j) % n]) / 2 ** .5 for l in range(len(F[0])))
    return a


def swt_inv(co, F, J):
    """Average of the two decimated reconstructions, level by level."""
    a, N = co[0], len(co[0])
    for j in range(J - 1, -1, -1):
        d, V = co[J - j], 2 ** j; out = np.zeros(N)
        for k in range(V):
            ak, dk = a[k::V], d[k::V]; m = len(ak); L = len(F[2])
            r = []
            for s in (0, 1): r.append(syn(ak[s::2], F[2], True, m) + syn(dk[s::2], F[3], True, m))
            out[k::V] = (r[0] + np.roll(r[1], 1)) / 2
        a = out
    return a


def maxlev(n): return int(np.log(n))


def case(names, mul=False):
    def f(tier):
        b = st.fixed_dictionaries({"w": st.sampled_from(names), "J": st.integers(1, 5), "N": st.integers(2, 90 if tier == "quick" else 260), "per": st.booleans(), "fft": st.booleans(), "kind": st.integers(0, 4), "seed": gen.seeds(), "ch": st.integers(0, 2), "scale": st.sampled_from([1.0, 1.0, 1e-6, 1e8])})
        return b
    return f


def signal(c, n):
    rng = gen.rng_of(c["seed"]); k = c["kind"]
    if k == 0: x = rng.standard_normal(n)
    elif k == 1: x = np.cumsum(rng.standard_normal(n))
    elif k == 2: x = np.zeros(n); x[rng.integers(n)] = 1.0
    elif k == 3: x = np.arange(n) * .5 - 3
    else: x = rng.integers(-3, 4, n).astype(float)
    return x * c["scale"]


def fit_levels(c, n, L):
    """Levels at which the extension stays inside the data."""
    J, m = 0, n
    while J < min(c["J"], maxlev(n)):
        pass
        J += 1; m = (m + 1) // 2 if c["per"] else (m + L - 1) // 2
    if J == 0: raise Discard()
    return J


@sub("W01", case(NAMES), 1500, 30000, "two levels or more", lambda c: c["J"] > 1)
def wavelet_transform(c, W, ctx):
    """Coefficients, inverse, multiresolution components of the decimated transform."""
    w = c["w"]; F = filters(w, W); L = F.shape[1]; n = c["N"]; J = fit_levels(c, n, L); x = signal(c, n)
    co, lens = pyramid(x, F, c["per"], J); sizes = [len(v) for v in co]; flat = np.concatenate(co)
    r = W.call("wave", nm(w) + [0, int(not c["per"]), int(c["fft"]), J, n, c["ch"]], [], x)
    require(r[0] == len(flat), "%g coefficients, expected %d" % (r[0], len(flat))); require(r[1] == maxlev(n), "level limit %g" % r[1])
    require(np.array_equal(r[2:4 + J], np.r_[sizes, n]), "lengths %s, expected %s" % (r[2:4 + J], np.r_[sizes, n]))
    g = r[4 + J:4 + J + len(flat)]; tol = (1e-9 if c["fft"] else 1e-12) * (np.max(np.abs(flat)) + np.max(np.abs(x))); k = 4 + J + len(flat)
    close("coefficients (%s)" % w, g, flat, 0, tol)
    amp = 1.0 if w in ORTHO else 10.0 ** J
    mra = r[k:k + n * (J + 1)].reshape(J + 1, n); rec = r[k + n * (J + 1):]
    ch = c["ch"] == 1
    if ch: i = np.arange(len(flat)); y = np.sin(1.0 + i * .7) * (1 + i % 3); co = np.split(y, np.cumsum(sizes)[:-1]); tol = 1e-9
    want = np.array([inverse([v if i == j else np.zeros_like(v) for i, v in enumerate(co)], F, c["per"], lens) for j in range(J + 1)])
    close("multiresolution components", mra, want, 0, tol * amp * 10)
    if not ch: close("sum of the multiresolution components", mra.sum(0), x, 0, tol * amp * 10 + 1e-10 * np.max(np.abs(x)) * amp)
    if ch:
        inv = inverse(co, F, c["per"], lens); close("inverse of changed coefficients", rec, inv, 0, 1e-9 * amp * 3); close("sum of the multiresolution components of changed coefficients", mra.sum(0), inv, 0, 1e-9 * amp * 10)
    else: close("reconstruction (%s)" % w, rec, x, 0, tol * amp * 10 + 1e-10 * np.max(np.abs(x)) * amp)
    if w in ORTHO and c["per"] and all(v % 2 == 0 for v in lens[:-1]): close("energy", g @ g, x @ x, 1e-9, 0)
    ctx.label("%s %s" % ("per" if c["per"] else "sym", "fft" if c["fft"] else "direct"))


@sub("W01", case(NAMES), 600, 12000, "two levels or more", lambda c: c["J"] > 1)
def packet_tree(c, W, ctx):
    """Every node of the packet tree is the filtered and halved parent."""
    w = c["w"]; F = filters(w, W); L = F.shape[1]; n = c["N"]; J = fit_levels(c, n, L); x = signal(c, n)
    r = W.call("wtree", nm(w) + [int(not c["per"]), J, n], [], x); p = 2; require(r[1] == 2 ** (J + 1) - 2, "%g nodes" % r[1])
    lev = [x]; tot = 0
    for l in range(1, J + 1):
        nx = []
        for v in lev: nx += [ana(v, F[0], c["per"]), ana(v, F[1], c["per"])]
        lev = nx; m = len(lev[0]); require(r[p] == m and r[p + 1] == m, "nodes of level %d have length %g, expected %d" % (l, r[p], m)); p += 2; tot += m * 2 ** l
        g = r[p:p + m * 2 ** l].reshape(2 ** l, m); p += m * 2 ** l
        for y in range(2 ** l): close("node (%d, %d)" % (l, y), g[y], lev[y], 0, 1e-12 * max(np.max(np.abs(v)) for v in lev) + 1e-12 * np.max(np.abs(x)))
    require(r[0] == tot, "%g coefficients, expected %d" % (r[0], tot))


def cost(v, e, p):
    if e == 0: u = v[v != 0] ** 2; return -np.sum(u * np.log(u)) if len(u) else 0.0
    if e == 1: return float(np.sum(np.abs(v) > p))
    if e == 2: return np.sum(np.abs(v) ** p)
    u = v[v != 0] ** 2; return np.sum(np.log(u))


@sub("W01", lambda tier: st.tuples(case(NAMES)(tier), st.integers(0, 3), st.sampled_from([.3, 1.0, 2.0])).map(lambda t: {**t[0], "e": t[1], "p": t[2]}), 900, 18000, "two levels or more", lambda c: c["J"] > 1)
def best_basis(c, W, ctx):
    """The packet basis is a partition of minimal cost, holds the tree's coefficients and is inverted exactly."""
    w = c["w"]; F = filters(w, W); L = F.shape[1]; n = c["N"]; J = fit_levels(c, n, L)
    x = signal({**c, "scale": 1.0}, n); e = c["e"]; par = max(1.0, c["p"]) if e == 2 else c["p"]
    r = W.call("dwpt", nm(w) + [int(not c["per"]), J, n, e], [par], x)
    tree = {(0, 0): x}
    for l in range(J):
        for y in range(2 ** l): tree[l + 1, 2 * y] = ana(tree[l, y], F[0], c["per"]); tree[l + 1, 2 * y + 1] = ana(tree[l, y], F[1], c["per"])
    cs = {k: cost(v, e, par) for k, v in tree.items()}; fr = np.random.default_rng(1)

    def best(l, y): return cs[l, y] if l == J else min(cs[l, y], best(l + 1, 2 * y) + best(l + 1, 2 * y + 1))
    out, nodes, tot = int(r[0]), int(r[1]), r[2]; p = 3; got, cover = [], 0.0; size = 0
    for _ in range(nodes):
        l, y = int(r[p]), int(r[p + 1]); p += 2; cover += 2.0 ** -l; require((l, y) in tree, "node (%d, %d)" % (l, y)); require((l, y) not in got, "node twice")
        if l == 0: size += n; got.append((l, y)); continue
        m = int(r[p]); p += 1; require(m == len(tree[l, y]), "node length %d, expected %d" % (m, len(tree[l, y])))
        close("node (%d, %d)" % (l, y), r[p:p + m], tree[l, y], 0, 1e-11 * max(1.0, np.max(np.abs(tree[l, y])), np.max(np.abs(x)))); p += m; size += m; got.append((l, y))
    for a in got:
        for b in got: require(a == b or not (b[0] > a[0] and b[1] >> (b[0] - a[0]) == a[1]), "nodes %s and %s overlap" % (a, b))
    require(cover == 1.0, "the basis covers %g of the tree" % cover); require(size == out, "%d coefficients in the basis, %d reported" % (size, out))
    sc = sum(abs(v) for v in cs.values()) + 1.0
    near = any(np.min(np.abs(np.abs(v) - par), initial=9.0) < 1e-11 for v in tree.values()) if e == 1 else e == 3 and any(np.min(np.abs(v), initial=9.0) < 1e-6 for v in tree.values())
    if not near: close("cost of the basis", sum(cs[k] for k in got), best(0, 0), 0, 1e-9 * sc); close("reported cost", tot, best(0, 0), 0, 1e-9 * sc)
    amp = 1.0 if w in ORTHO else 10.0 ** J
    close("reconstruction from the packet basis (%s)" % w, r[p + out:], x, 0, 1e-9 * amp * max(1e-300, np.max(np.abs(x)))); ctx.label("%d nodes" % min(nodes, 6))


@sub("W02", case(NAMES), 900, 20000, "two levels or more", lambda c: c["J"] > 1)
def stationary_transform(c, W, ctx):
    """Stationary transform: coefficients, inverse, multiresolution, equivariance under rotation."""
    w = c["w"]; F = filters(w, W); L = F.shape[1]; J = min(c["J"], 4); n = 2 ** J * max(1, c["N"] // 4)
    while J > maxlev(n): J -= 1
    if J < 1 or n % 2 ** J: raise Discard()
    x = signal(c, n); co = und_pyramid(x, F, J, False); flat = np.concatenate(co)
    r = W.call("wave", nm(w) + [1, 0, int(c["fft"]), J, n, c["ch"]], [], x); require(r[0] == len(flat), "%g coefficients" % r[0]); k = 4 + J
    tol = (1e-9 if c["fft"] else 1e-12) * (np.max(np.abs(flat)) + np.max(np.abs(x)))
    g = r[k:k + len(flat)]; close("coefficients (%s)" % w, g, flat, 0, tol); k += len(flat)
    mra = r[k:k + n * (J + 1)].reshape(J + 1, n); rec = r[k + n * (J + 1):]; amp = 1.0 if w in ORTHO else 10.0 ** J
    ch = c["ch"] == 1
    if ch: i = np.arange(len(flat)); y = np.sin(1.0 + i * .7) * (1 + i % 3); co = list(y.reshape(J + 1, n)); tol = 1e-9
    want = np.array([swt_inv([v if i == j else np.zeros(n) for i, v in enumerate(co)], F, J) for j in range(J + 1)])
    close("multiresolution components", mra, want, 0, tol * 10 * amp)
    if not ch: close("sum of the components", mra.sum(0), x, 0, tol * 10 * amp + 1e-9 * np.max(np.abs(x)))
    if ch: close("inverse of changed coefficients", rec, swt_inv(co, F, J), 0, 1e-9 * amp * 3); close("sum of the components", mra.sum(0), rec, 0, 1e-8 * amp)
    else: close("reconstruction (%s)" % w, rec, x, 0, tol * 10 * amp + 1e-9 * np.max(np.abs(x)))


@sub("W02", case(ORTHO), 900, 20000, "two levels or more", lambda c: c["J"] > 1)
def maximal_overlap_transform(c, W, ctx):
    """MODWT: definition for any length, energy, inverse, additive multiresolution; reflection doubles the series."""
    w = c["w"]; F = filters(w, W); L = F.shape[1]; n = max(3, c["N"]); J = min(c["J"], maxlev(n)); sym = not c["per"]; fft = c["fft"] or sym
    x = signal(c, n); e = np.r_[x, x[::-1]] if sym else x
    co = und_pyramid(e, F, J, True); flat = np.concatenate(co)
    r = W.call("wave", nm(w) + [2, int(sym), int(fft), J, n, c["ch"]], [], x); require(r[0] == len(flat), "%g coefficients, expected %d" % (r[0], len(flat))); k = 4 + J
    tol = (1e-9 if fft else 1e-12) * (np.max(np.abs(flat)) + np.max(np.abs(x)))
    g = r[k:k + len(flat)]; close("coefficients (%s)" % w, g, flat, 0, tol); k += len(flat); close("energy", g @ g, e @ e, 1e-8, 0)
    mt = 2e-8 * (np.max(np.abs(flat)) + np.max(np.abs(x)))  # the components always go through the FFT
    mra = r[k:k + n * (J + 1)].reshape(J + 1, n); rec = r[k + n * (J + 1):]
    ch = c["ch"] == 1
    if ch: i = np.arange(len(flat)); y = np.sin(1.0 + i * .7) * (1 + i % 3); co = list(y.reshape(J + 1, len(e))); mt = 1e-7
    want = np.array([modwt_inv([v if i == j else np.zeros(len(e)) for i, v in enumerate(co)], F, J)[:n] for j in range(J + 1)])
    close("multiresolution components", mra, want, 0, mt)
    if ch: close("inverse of changed coefficients", rec, modwt_inv(co, F, J)[:n], 0, 1e-8); close("sum of the components", mra.sum(0), rec, 0, mt)
    else: close("sum of the components", mra.sum(0), x, 0, mt); close("reconstruction (%s)" % w, rec, x, 0, mt)
    ctx.label("%s %s" % ("reflected" if sym else "periodic", "fft" if fft else "direct"))
    if len(e) < L: ctx.label("filter longer than the series")
