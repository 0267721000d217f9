"""L01 matrix products, LU and Cholesky; L02 QR, SVD, rank and least squares; L03 eigenvalues."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import linear_sum_assignment
from ..core import sub, close, require, Discard, Crash, Violation
from .. import gen

KINDS = ["gauss", "gauss", "ints", "ints", "sparse", "tri", "hess", "perm", "graded", "diag", "orth", "lowrank", "tridiag"]


def mat(c, m, n):
    rng = gen.rng_of(c["seed"]); k = c["kind"]
    if "list" in c and c["list"] is not None and len(c["list"]) >= m * n: A = np.array(c["list"][:m * n], float).reshape(m, n)
    elif k == "gauss": A = rng.standard_normal((m, n))
    elif k == "ints": A = rng.integers(-3, 4, (m, n)).astype(float)
    elif k == "sparse": A = rng.integers(-2, 3, (m, n)) * (rng.uniform(size=(m, n)) < .35) * 1.0
    elif k == "tri": A = np.tril(rng.integers(-4, 5, (m, n)).astype(float)) if c["seed"] % 2 else np.triu(rng.standard_normal((m, n)))
    elif k == "hess": A = np.triu(rng.integers(-4, 5, (m, n)).astype(float), -1)
    elif k == "tridiag": A = np.triu(np.tril(rng.integers(-4, 5, (m, n)).astype(float), 1), -1)
    elif k == "perm": A = np.eye(max(m, n))[rng.permutation(max(m, n))][:m, :n] * rng.choice([-1.0, 1.0], (1, n))
    elif k == "graded": A = rng.standard_normal((m, n)) * 10.0 ** rng.integers(-6, 6, (1, n))
    elif k == "diag": A = np.zeros((m, n)); np.fill_diagonal(A, rng.integers(-3, 4, min(m, n)))
    elif k == "orth": A = np.linalg.qr(rng.standard_normal((max(m, n), max(m, n))))[0][:m, :n]
    else:
        r = 1 + c["seed"] % max(1, min(m, n)); A = (rng.integers(-2, 3, (m, r)) @ rng.integers(-2, 3, (r, n))).astype(float)
    return np.ascontiguousarray(A) * c.get("scale", 1.0)


def c_mat(lo, hi, big=None, huge=None):
    dim = st.one_of(st.integers(lo, hi), st.integers(lo, hi), st.integers(lo, min(hi, 4)), *([st.integers(*big)] if big else []), *([st.sampled_from([lo, hi, hi]).flatmap(lambda k: st.integers(*huge) if k == lo else st.integers(lo, hi))] if huge else []))
    return st.fixed_dictionaries({"m": dim, "n": dim, "kind": st.sampled_from(KINDS), "seed": gen.seeds(), "scale": st.sampled_from([1.0, 1.0, 1e-5, 1e6, 1e-30, 1e25]),
                                  "list": st.one_of(st.none(), st.none(), st.lists(st.integers(-3, 3), min_size=1, max_size=16))})


nz = lambda A: float(np.linalg.norm(A)) or 1.0


# ------------------------------------------------------------------ L01
@sub("L01", lambda tier: st.fixed_dictionaries({"m": st.one_of(st.integers(1, 12), st.integers(1, 150), st.integers(40, 210)), "n": st.one_of(st.integers(1, 12), st.integers(1, 150), st.integers(40, 210), st.integers(1000, 4000)),
     "p": st.one_of(st.integers(1, 12), st.integers(1, 150), st.integers(40, 210)), "w": st.sampled_from([0, 0, 0, 1, 2, 3, 4]), "seed": gen.seeds(), "ints": st.booleans()}), 350, 6000, "no dimension is 1", lambda c: min(c["m"], c["n"], c["p"]) > 1)
def matrix_product(c, W, ctx):
    m, n, p = c["m"], c["n"], c["p"]
    if m * n * p > 6e6 or (c["w"] == 4 and max(m, n, p) > 210): raise Discard()
    rng = gen.rng_of(c["seed"])
    A, B = (rng.integers(-3, 4, (m, n)).astype(float), rng.integers(-3, 4, (n, p)).astype(float)) if c["ints"] else (rng.standard_normal((m, n)), rng.standard_normal((n, p)))
    r = W.call("matmul", [c["w"], m, n, p], A, B).reshape(m, p)
    close("product", r, A @ B, 1e-12 * max(10, n) if not c["ints"] else 1e-13, scale=1.0 + np.max(np.abs(A)) * np.max(np.abs(B)))
    ctx.label(["mmult", "nmult", "tmult", "rmult", "smult"][c["w"]] + (" large" if m * n * p > 1e5 else ""))


@sub("L01", lambda tier: st.fixed_dictionaries({"m": st.one_of(st.integers(1, 20), st.integers(1, 140)), "n": st.one_of(st.integers(1, 20), st.integers(1, 140)), "big": st.sampled_from([0, 0, 0, 0, 0, 1]), "w": st.integers(0, 3)}), 300, 4000, "not square", lambda c: c["m"] != c["n"])
def transposition(c, W, ctx):
    m, n = c["m"], c["n"]
    if c["big"]: m, n = m + 1020, n + 1020 if c["m"] % 2 else n
    if m * n > 1.4e6: m = 1030
    A = np.arange(m * n, dtype=float).reshape(m, n)
    require(np.array_equal(W.call("transp", [c["w"], m, n], A).reshape(n, m), A.T), "transposition %d of a %d by %d matrix is wrong" % (c["w"], m, n))


@sub("L01", st.fixed_dictionaries({"v": st.lists(st.integers(-4, 4), min_size=1, max_size=30), "as": st.booleans()}), 300, 4000, "several values", lambda c: len(c["v"]) > 2)
def sorting_and_norms(c, W, ctx):
    v = np.array(c["v"], float); n = len(v)
    p = W.call("sortidx", [n, int(c["as"])], v).astype(int)
    require(sorted(p) == list(range(n)), "sort positions %s are no permutation" % list(p))
    s = np.sort(v); require(np.array_equal(v[p], s if c["as"] else s[::-1]), "values in the sorted order are %s" % list(v[p]))
    r = W.call("vecmisc", [n], v)
    close("norms, extrema and moments", r, [np.linalg.norm(v), np.max(np.abs(v)), v.max(), v.min(), v.mean(), v.var()], 1e-12, 1e-12)


@sub("L01", lambda tier: c_mat(1, 14, (15, 60), (100, 200)), 900, 20000, "at least three equations", lambda c: c["n"] > 2)
def lu_solution_and_inverse(c, W, ctx):
    n = c["n"]; A = mat(c, n, n)
    k = np.linalg.cond(A) if np.any(A) else np.inf
    if not k < 1e9: raise Discard()
    b = gen.rng_of(c["seed"] + 1).standard_normal(n)
    r = W.call("lusolve", [n], A, b); x, I = r[:n], r[n:].reshape(n, n)
    t = 1e-13 * n * k
    if c["kind"] == "graded" and c["list"] is None: t *= 10
    close("solution of the linear system", x, np.linalg.solve(A, b), t); close("inverse", I, np.linalg.inv(A), t)


@sub("L01", lambda tier: c_mat(1, 14), 700, 15000, "rectangular", lambda c: c["m"] != c["n"])
def plu_factors(c, W, ctx):
    m, n = c["m"], c["n"]; k = min(m, n); A = mat(c, m, n)
    r = W.call("plu", [m, n], A)
    P = r[:m * m].reshape(m, m); o = m * m; L = r[o:o + m * k].reshape(m, k); o += m * k; U = r[o:o + k * n].reshape(k, n); o += k * n; PL = r[o:o + m * k].reshape(m, k); o += m * k
    require(np.array_equal(np.sort(P.ravel()), np.r_[np.zeros(m * m - m), np.ones(m)]) and np.all(P.sum(0) == 1) and np.all(P.sum(1) == 1), "P is no permutation")
    require(np.array_equal(np.triu(L, 1), np.zeros((m, k))) and np.all(np.diag(L) == 1) and np.array_equal(np.tril(U, -1), np.zeros((k, n))), "factors are not triangular")
    require(np.max(np.abs(L)) <= 1 + 1e-12, "multiplier %g: no partial pivoting" % np.max(np.abs(L)))
    close("P L U", P @ L @ U, A, 1e-13 * (m + n) * 8, scale=nz(A)); close("P L", PL, P @ L, 0); close("U", r[o:].reshape(k, n), U, 0)


@sub("L01", lambda tier: st.fixed_dictionaries({"n": st.one_of(st.integers(1, 10), st.integers(60, 150)), "kind": st.sampled_from(["gauss", "ints", "lowrank"]), "seed": gen.seeds(), "w": st.integers(0, 3), "spoil": st.sampled_from([None, None, "first", "middle", "last"]), "scale": st.sampled_from([1.0, 1e-4, 1e5])}), 350, 6000, "at least three rows", lambda c: c["n"] > 2)
def cholesky(c, W, ctx):
    n = c["n"]; rng = gen.rng_of(c["seed"])
    B = mat({**c, "list": None}, n, n); A = B.T @ B + np.eye(n) * .1 * c["scale"] ** 2 * n
    if c["spoil"]:
        i = {"first": 0, "middle": n // 2, "last": n - 1}[c["spoil"]]
        A[i, i] = -A[i, i]
        if c["w"] == 3: raise Discard()
    if c["w"] == 3:
        T = W.call("chold", [n], A).reshape(n, n)
        D = np.diag(np.diag(T)); L = T - D + np.eye(n)
        require(np.array_equal(np.tril(L, -1), np.zeros((n, n))), "factor is not triangular")
        close("L D L'", L.T @ D @ L, A, 1e-12 * n, scale=nz(A)); return
    r = W.call("chol", [c["w"], n], A)
    if c["spoil"]: require(r[0] == -1, "an indefinite matrix was factored (code %g)" % r[0]); ctx.label("indefinite"); return
    R = r[1:].reshape(n, n)
    require(r[0] == 0, "a positive definite matrix was refused (code %g)" % r[0])
    require(np.array_equal(np.tril(R, -1), np.zeros((n, n))), "factor is not triangular")
    close("R'R", R.T @ R, A, 1e-13 * n, scale=nz(A))
    ctx.label("blocked" if n > 64 and c["w"] != 1 else "plain")


# ------------------------------------------------------------------ L02
@sub("L02", lambda tier: c_mat(1, 12, (12, 40), (60, 130)), 900, 20000, "at least two columns", lambda c: c["n"] > 1)
def qr_factors(c, W, ctx):
    m, n = max(c["m"], c["n"]), min(c["m"], c["n"]); A = mat(c, m, n)
    r = W.call("qr", [m, n], A); Q, R = r[:m * n].reshape(m, n), r[m * n:].reshape(n, n)
    close("Q R", Q @ R, A, 1e-13 * m, scale=nz(A)); close("Q'Q", Q.T @ Q, np.eye(n), 0, 1e-13 * m)
    require(np.array_equal(np.tril(R, -1), np.zeros((n, n))), "R is not triangular")


@sub("L02", st.fixed_dictionaries({"x": st.lists(st.sampled_from([0.0, 0.0, 1.0, -1.0, 2.5, -.75, 1e-7]), min_size=1, max_size=8)}), 300, 3000, "several entries", lambda c: len(c["x"]) > 1)
def householder_reflection(c, W, ctx):
    """I - beta v v' is orthogonal and maps x to a multiple of the first unit vector of the same length."""
    x = np.array(c["x"]); n = len(x)
    r = W.call("house", [n], x); H = r[1 + n:].reshape(n, n)
    close("orthogonality", H @ H.T, np.eye(n), 0, 1e-12)
    close("image of the vector", np.abs(H @ x), np.r_[np.linalg.norm(x), np.zeros(n - 1)], 1e-12, 1e-300)


@sub("L02", lambda tier: st.fixed_dictionaries({"a": c_mat(1, 10, (10, 30), (40, 90)), "w": st.integers(0, 2)}), 1200, 25000, "at least two columns", lambda c: min(c["a"]["n"], c["a"]["m"]) > 1)
def singular_values(c, W, ctx):
    m, n = c["a"]["m"], c["a"]["n"]; A = mat(c["a"], m, n)
    s = np.linalg.svd(A, compute_uv=False); k = min(m, n); w = c["w"]
    r = W.call("svd", [w, m, n], A)
    require(r[0] == 0, "singular value decomposition failed with code %g" % r[0])
    U, V, q = (r[1:1 + m * k].reshape(m, k), r[1 + m * k:1 + m * k + n * k].reshape(n, k), r[1 + m * k + n * k:])
    t = 1e-12 * (m + n)
    close("singular values", q, s, 0, t * nz(A)); require(np.all(q >= 0) and np.all(np.diff(q) <= 0), "singular values %s are not sorted" % list(q))
    close("U diag(q) V'", U * q @ V.T, A, t, scale=nz(A))
    pos = q > 1e-9 * q[0] if q[0] > 0 else q > 0
    if m >= n: close("V'V", V.T @ V, np.eye(k), 0, t); close("U'U", (U.T @ U)[np.ix_(pos, pos)], np.eye(pos.sum()), 0, 1e-6 if w == 2 else 1e-7)
    else: close("U'U", U.T @ U, np.eye(k), 0, t)
    ctx.label("wide" if m < n else ["svd", "svd_gr", "svd_gr2"][w])


@sub("L02", st.fixed_dictionaries({"m": st.integers(20, 130), "n": st.integers(15, 100), "scale": st.sampled_from([1.0, 1e-5, 1e6, 1e-30]), "w": st.integers(0, 2), "seed": st.integers(0, 10 ** 6)})
     .map(lambda c: {"a": {"m": c["m"], "n": c["n"], "kind": "lowrank", "seed": c["seed"] - c["seed"] % max(1, min(c["m"], c["n"])) + c["seed"] % 3, "scale": c["scale"], "list": None}, "w": c["w"]}),
     150, 3000, "wide enough for the deflated columns to underflow (rank one to three, 15 columns or more)", lambda c: True)
def singular_values_of_low_rank(c, W, ctx): singular_values(c, W, ctx)


@sub("L02", lambda tier: c_mat(1, 12, (12, 40), (60, 110)), 900, 20000, "at least two columns", lambda c: min(c["m"], c["n"]) > 1)
def matrix_rank(c, W, ctx):
    m, n = c["m"], c["n"]; A = mat(c, m, n)
    s = np.linalg.svd(A, compute_uv=False); tol = s[0] * max(m, n) * 2.2e-16
    if s[0] > 0 and np.any((s > tol / 300) & (s < tol * 1e4)) and not c["kind"] in ("ints", "sparse", "lowrank", "diag", "perm", "tridiag"): raise Discard()
    if s[0] > 0 and np.any((s > tol * 10) & (s < tol * 1e4)): raise Discard()
    r = int(np.sum(s > 1e3 * tol)) if s[0] > 0 else 0
    got = W.call("rank", [m, n], A)[0]
    require(got == r, "rank %g, expected %d" % (got, r)); ctx.label("deficient" if r < min(m, n) else "full")


@sub("L02", lambda tier: st.fixed_dictionaries({"a": c_mat(1, 10, (10, 30), (40, 90)), "w": st.integers(0, 3)}), 1000, 20000, "at least two unknowns", lambda c: c["a"]["n"] > 1)
def least_squares(c, W, ctx):
    m, n, w = c["a"]["m"], c["a"]["n"], c["w"]
    if m < n and w in (1, 2): raise Discard()
    A = mat(c["a"], m, n); k = np.linalg.cond(A) if np.any(A) else np.inf
    if not k < (1e4 if w == 1 else 1e6): raise Discard()
    b = gen.rng_of(c["a"]["seed"] + 1).standard_normal(m)
    x = np.linalg.lstsq(A, b, rcond=None)[0]
    r = W.call("lls", [w, m, n], A, b)
    if w == 0 and m >= n: require(r[0] == n, "rank reported as %g for a full-rank system with %d unknowns" % (r[0], n))
    close("least-squares solution", r[1:], x, 1e-12 * k * k + 1e-11, scale=np.linalg.norm(b) / np.linalg.svd(A, compute_uv=False)[-1])
    ctx.label(["qr", "normal", "svd", "minfit"][w] + (" wide" if m < n else ""))


@sub("L02", st.fixed_dictionaries({"m": st.integers(2, 14), "n": st.integers(2, 12), "w": st.sampled_from([0, 2, 3]), "lc": st.integers(2, 12), "sc": st.sampled_from([0, 0, 6, -6]), "seed": gen.seeds()}), 500, 8000,
     "full rank with condition number from 1e2 to 1e12, consistent right-hand side", lambda c: c["lc"] >= 6)
def ill_conditioned_systems_are_solved(c, W, ctx):
    """However ill-conditioned, a full-rank consistent system is solved with a residual at rounding level: no direction may be dropped."""
    m, n, w = c["m"], c["n"], c["w"]; rng = gen.rng_of(c["seed"])
    if w and m < n: m, n = n, m
    k = min(m, n)
    s = np.logspace(0, -c["lc"], k) * 10.0 ** c["sc"]
    A = np.linalg.qr(rng.standard_normal((m, k)))[0] * s @ np.linalg.qr(rng.standard_normal((n, k)))[0].T
    b = A @ rng.standard_normal(n)
    r = W.call("lls", [w, m, n], A, b)
    res = np.linalg.norm(A @ r[1:] - b)
    require(res <= 1e-14 * m * n * s[0] * (np.linalg.norm(r[1:]) + 1), "residual %g of a consistent system (%d x %d, singular values %g to %g): solution %s" % (res, m, n, s[0], s[-1], r[1:5]))
    ctx.label(["qr", "normal", "svd", "minfit"][w] + (" wide" if m < n else ""))


@sub("L02", lambda tier: st.fixed_dictionaries({"m": st.integers(6, 40), "n": st.integers(4, 30), "k": st.integers(1, 4), "ov": st.integers(0, 4), "it": st.sampled_from([-1, 1, 2, 3]), "seed": gen.seeds()}), 250, 3000, "rank above one", lambda c: c["k"] > 1)
def randomised_svd(c, W, ctx):
    """An exact low-rank matrix is reproduced whatever random start is drawn."""
    m, n = max(c["m"], c["n"]), min(c["m"], c["n"]); k = c["k"]
    if k + c["ov"] >= n: raise Discard()
    rng = gen.rng_of(c["seed"])
    A = np.linalg.qr(rng.standard_normal((m, k)))[0] * rng.uniform(1, 3, k) @ np.linalg.qr(rng.standard_normal((n, k)))[0].T
    r = W.call("rsvd", [m, n, k, c["ov"], c["it"]], A)
    U, V, S = r[:m * k].reshape(m, k), r[m * k:(m + n) * k].reshape(n, k), r[(m + n) * k:]
    close("U S V'", U * S @ V.T, A, 0, 1e-6); close("singular values", S, np.linalg.svd(A, compute_uv=False)[:k], 1e-6)


# ------------------------------------------------------------------ L03
@sub("L03", lambda tier: c_mat(1, 9, (9, 25), (30, 80)), 1500, 30000, "at least three rows", lambda c: c["n"] > 2)
def eigenvalues(c, W, ctx):
    n = c["n"]; A = mat(c, n, n)
    e, X = np.linalg.eig(A); k = np.linalg.cond(X)
    r = W.call("eig", [n], A); z = r[:n] + 1j * r[n:]
    require(np.all(np.isfinite(r)), "eigenvalues %s are not finite" % list(z))
    nA = nz(A)
    close("sum of the eigenvalues", [z.sum().real, z.sum().imag], [np.trace(A), 0], 0, 1e-9 * n * nA)
    worst = max(np.linalg.svd(A - l * np.eye(n), compute_uv=False)[-1] for l in z)
    require(worst <= 1e-9 * n * nA, "smallest singular value of A - lambda I is %g (norm of A: %g): %s" % (worst, nA, list(z)))
    if k < 1e5:
        D = np.abs(z[:, None] - e[None, :]); i, j = linear_sum_assignment(D)
        require(D[i, j].max() <= 1e-9 * k * n * nA, "eigenvalue %s is computed as %s" % (e[j[D[i, j].argmax()]], z[i[D[i, j].argmax()]]))
    ctx.label(c["kind"] if c["list"] is None else "list")


@sub("L03", lambda tier: c_mat(1, 10, (10, 40), (60, 120)), 700, 15000, "at least three rows", lambda c: c["n"] > 2)
def symmetric_eigensystem(c, W, ctx):
    n = c["n"]; A = mat(c, n, n); A = A + A.T
    r = W.call("eigsym", [n], A); d, V = r[:n], r[n:].reshape(n, n); nA = nz(A)
    close("eigenvalues", np.sort(d), np.linalg.eigvalsh(A), 0, 1e-12 * n * nA)
    close("eigenvectors", A @ V, V * d, 0, 1e-12 * n * nA); close("orthogonality of the eigenvectors", V.T @ V, np.eye(n), 0, 1e-12 * n)


@sub("L03", lambda tier: c_mat(1, 10, (10, 25), (30, 80)), 500, 10000, "at least three rows", lambda c: c["n"] > 2)
def hessenberg_form(c, W, ctx):
    """An orthogonally similar matrix with zeros below the first subdiagonal."""
    n = c["n"]; A = mat(c, n, n); nA = nz(A)
    H = W.call("hess", [n], A).reshape(n, n)
    close("entries below the subdiagonal", np.tril(H, -2), np.zeros((n, n)), 0, 1e-12 * n * nA)
    close("Frobenius norm", nz(H), nA, 1e-11 * n)
    B, G = A / nA, H / nA
    for k in (1, 2, 3): close("trace of power %d" % k, np.trace(np.linalg.matrix_power(G, k)), np.trace(np.linalg.matrix_power(B, k)), 0, 1e-11 * n)
    s = np.linalg.svd
    close("singular values", s(H, compute_uv=False), s(A, compute_uv=False), 0, 1e-11 * n * nA)
