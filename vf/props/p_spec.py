"""X01-X02: Fourier transforms and convolutions; periodogram and power spectrum."""
import numpy as np
from hypothesis import strategies as st
from ..core import sub, close, require, Discard
from .. import gen


def sizes(hi):
    """Transform lengths: every small one, smooth ones, primes and their multiples (Bluestein)."""
    return st.one_of(st.integers(1, 64), st.sampled_from([53, 59, 61, 67, 71, 97, 101, 127, 106, 118, 159, 53 * 4, 59 * 3, 61 * 8, 49 * 11, 47 * 43, 41 * 37, 31 * 29, 23 * 23, 19 * 17, 13 ** 3, 11 ** 3, 7 ** 4, 5 ** 4, 3 ** 6]),
                     st.integers(65, hi))


def vec(c, n, k=0, cplx=False):
    rng = gen.rng_of(c["seed"] + k)
    if c["kind"] == "unit":
        x = np.zeros(n, complex if cplx else float); x[int(rng.integers(0, n))] = 1 + (1j if cplx else 0); return x
    x = rng.standard_normal(n) + (1j * rng.standard_normal(n) if cplx else 0)
    if c["kind"] == "offset": x = x + 1000
    if c["kind"] == "scaled": x = x * 10.0 ** rng.uniform(-6, 6)
    return x


kind = st.sampled_from(["normal", "normal", "unit", "offset", "scaled"])
ri = lambda z: np.c_[z.real, z.imag].ravel()
cx = lambda a: a[0::2] + 1j * a[1::2]


def c_fft(tier):
    return st.fixed_dictionaries({"n": sizes(700 if tier == "quick" else 4200), "seed": gen.seeds(), "kind": kind, "inv": st.booleans(), "times": st.sampled_from([1, 1, 2, 3])})


@sub("X01", c_fft, 1500, 60000, "length of at least 2", lambda c: c["n"] > 1)
def complex_transform(c, W, ctx):
    n, x = c["n"], vec(c, c["n"], 0, True)
    got = cx(W.call("fft", [n, -1 if c["inv"] else 1, c["times"]], ri(x)))
    want = np.fft.ifft(x) * n if c["inv"] else np.fft.fft(x)
    f = max([p for p in range(2, n + 1) if n % p == 0 and all(p % q for q in range(2, int(p ** .5) + 1))] or [1])
    ctx.label("largest prime factor %s" % ("<=7" if f <= 7 else "<=53" if f <= 53 else ">53"))
    close("transform of length %d" % n, ri(got), ri(want), 1e-10 * max(1, np.log2(n)))
    back = cx(W.call("fft", [n, 1 if c["inv"] else -1, 1], ri(got))) / n
    close("forward and inverse transform of length %d" % n, ri(back), ri(x), 1e-10 * max(1, np.log2(n)))


def c_long(tier):
    """Lengths around the limits of integer products (the square of the length overflows above 46340): primes, powers and smooth lengths."""
    hi = 120000 if tier == "quick" else 600000
    return st.fixed_dictionaries({"n": st.one_of(st.integers(4000, hi), st.sampled_from([2 ** 16, 2 ** 17, 3 ** 10, 5 ** 7, 7 ** 6, 65537, 99991, 92681, 46349, 46337, 2 * 50021, 59 * 59 * 31, 53 * 53 * 30])), "seed": gen.seeds(), "kind": kind, "inv": st.booleans(), "times": st.just(1)})


@sub("X01", c_long, 48, 800, "all", lambda c: True)
def long_transform(c, W, ctx): complex_transform(c, W, ctx)


@sub("X01", st.fixed_dictionaries({"n": sizes(400).map(lambda n: n + n % 2), "seed": gen.seeds(), "kind": kind}), 1000, 30000, "length of at least 4", lambda c: c["n"] > 2)
def real_transform(c, W, ctx):
    n, x = c["n"], vec(c, c["n"])
    got = cx(W.call("rfft", [n, 0], x))
    close("real transform of length %d" % n, ri(got), ri(np.fft.fft(x)), 1e-10 * np.log2(n))
    back = W.call("rfft", [n, 1], ri(np.fft.fft(x)))
    close("inverse real transform of length %d" % n, back / n, x, 1e-10 * np.log2(n))


@sub("X01", st.fixed_dictionaries({"n": st.integers(1, 220), "m": st.integers(1, 220), "seed": gen.seeds(), "kind": kind}), 1200, 40000,
     "both operands have at least 2 elements", lambda c: min(c["n"], c["m"]) > 1)
def convolution(c, W, ctx):
    """All convolution routines and both methods agree with the definition, in every output mode."""
    n, m = c["n"], c["m"]
    a, b = vec(c, n), vec(c, m, 1)
    full = np.convolve(a, b)
    tol = 2e-10 * np.linalg.norm(a) * np.linalg.norm(b)
    names = ["conv", "convx", "conv_direct", "conv_directx", "conv_fft", "conv_fft repeated"]
    for k in range(6):
        close("%s of lengths %d and %d" % (names[k], n, m), W.call("conv", [k, n, m], a, b), full, 0, tol)
    for t, o in ((0, full), (1, full[(min(n, m) - 1) // 2:][:max(n, m)]), (2, full[min(n, m) - 1:max(n, m)])):
        for f in (0, 1):
            r = W.call("convolve", [t, f, n, m, len(o)], a, b)
            close("convolve %s/%s of lengths %d and %d" % (("full", "same", "valid")[t], ("direct", "fft")[f], n, m), r[1:], o, 0, tol)
    close("filter of lengths %d and %d" % (n, m), W.call("filter", [n, m], a, b), full[:n], 0, tol)
    close("Euclidean norm", W.call("norm2", [n], a)[0], np.linalg.norm(a), 1e-12)


@sub("X02", st.fixed_dictionaries({"x": st.one_of(gen.explicit(2, 12), gen.series(2, 150), gen.series(2, 150), gen.series(2, 1500)), "side": st.sampled_from([1, 2]), "pad": st.sampled_from([0, 0, 1, 2, 5, 17, 64])}), 1500, 40000,
     "at least 4 values", lambda c: c["x"].get("n", 4) >= 4)
def periodogram_and_psd(c, W, ctx):
    """I(w) = |sum x_t e^{-iwt}|^2/N on the Fourier grid; the one-sided form doubles the frequencies strictly between 0 and pi; zero padding only refines the grid."""
    x = gen.make(c["x"]); n = len(x); side = c["side"]
    def want(nf, div):
        P = np.abs(np.fft.fft(x, nf)) ** 2 / div
        k = np.arange(nf)
        fr = 2 * np.pi * np.where(k <= nf // 2, k, k - nf) / nf
        if side == 2: return P, fr
        h = nf // 2 + 1
        P = P[:h].copy(); P[1:(nf + 1) // 2] *= 2
        return P, fr[:h]
    p, f = want(n, n)
    r = W.call("periodogram", [n, side], x)
    sc = 2e-10 * np.sum(x * x)
    close("periodogram", r[:len(p)], p, 0, sc)
    close("periodogram frequencies", r[len(p):], f, 1e-9)
    require(abs(np.sum(r[:len(p)]) - np.sum(x * x)) <= 1e-9 * np.sum(x * x), "periodogram ordinates sum to %.12g, energy of the series is %.12g" % (np.sum(r[:len(p)]), np.sum(x * x)))
    nf = n + c["pad"]
    p, f = want(nf, n * 2 * np.pi)
    r = W.call("psd", [n, nf, side], x)
    close("power spectrum on %d points" % nf, r[:len(p)], p, 1e-9, sc)
    close("power spectrum frequencies", r[len(p):], f, 1e-9)
    k = np.arange(n)
    fr = np.where(k <= n // 2, k, k - n)
    close("spectrum_shift", W.call("spectrum_shift", [n], x), x[np.argsort(fr)], 0)
