"""Generators of series and model structures.  A case holds only drawn values (JSON); arrays are a pure function of them."""
import numpy as np
from hypothesis import strategies as st

KINDS = ["white", "ar1", "ar2", "ma1", "rw", "i2", "season", "trend", "heavy", "ints", "spikes", "walkseason"]


def seeds():
    return st.integers(0, 2**31 - 1)


def series(nmin, nmax, kinds=None, scales=(1.0, 1.0, 1e-3, 37.5, 1e4), shifts=(0.0, 0.0, 5.0, -120.0, 1000.0)):
    return st.fixed_dictionaries({
        "kind": st.sampled_from(kinds or KINDS), "n": st.integers(nmin, nmax), "seed": seeds(),
        "scale": st.sampled_from(list(scales)), "shift": st.sampled_from(list(shifts)), "s": st.sampled_from([2, 3, 4, 5, 6, 7, 12])})


def explicit(nmin, nmax, lo=-50, hi=50):
    """Short fully explicit series; shrinks element by element."""
    return st.fixed_dictionaries({"kind": st.just("list"), "v": st.lists(st.integers(lo, hi).map(float), min_size=nmin, max_size=nmax)})


def arma_sim(rng, phi, theta, n, burn=200):
    """x_t = sum phi x_{t-i} + e_t + sum theta e_{t-j}"""
    from scipy.signal import lfilter
    e = rng.standard_normal(n + burn)
    return lfilter(np.r_[1.0, theta], np.r_[1.0, -np.asarray(phi)], e)[burn:]


def make(c):
    if c["kind"] == "list":
        return np.array(c["v"], float)
    n, rng, s = c["n"], np.random.Generator(np.random.PCG64(c["seed"])), c["s"]
    e = rng.standard_normal(n)
    t = np.arange(n)
    k = c["kind"]
    if k == "white": x = e
    elif k == "ar1": x = arma_sim(rng, [rng.uniform(-.95, .95)], [], n)
    elif k == "ar2": r, w = rng.uniform(.3, .95), rng.uniform(.2, 3); x = arma_sim(rng, [2 * r * np.cos(w), -r * r], [], n)
    elif k == "ma1": x = arma_sim(rng, [], [rng.uniform(-.9, .9)], n)
    elif k == "rw": x = np.cumsum(e)
    elif k == "i2": x = np.cumsum(np.cumsum(e))
    elif k == "season": x = 3 * np.sin(2 * np.pi * t / s + 1) + .5 * e
    elif k == "trend": x = .3 * t + e
    elif k == "heavy": x = e / np.sqrt(rng.chisquare(3, n) / 3)
    elif k == "ints": x = rng.integers(-4, 5, n).astype(float); x[:1] += 0.0
    elif k == "spikes": x = np.where(rng.random(n) < .15, 8 * e, .1 * e)
    elif k == "walkseason":
        x = np.zeros(n)
        for i in range(n): x[i] = (x[i - s] if i >= s else 0) + e[i]
    else: raise KeyError(k)
    return np.asarray(x, float) * c["scale"] + c["shift"]


def coef_poly(rng, p, rmax=0.9, rmin=0.0):
    """AR coefficients phi (x_t = sum phi_i x_{t-i}) whose inverse roots have modulus in [rmin,rmax]."""
    r = []
    k = p
    while k > 0:
        if k >= 2 and rng.random() < .6:
            m, w = rng.uniform(rmin, rmax), rng.uniform(.1, np.pi - .1)
            r += [m * np.exp(1j * w), m * np.exp(-1j * w)]; k -= 2
        else:
            r.append(rng.uniform(rmin, rmax) * (1 if rng.random() < .5 else -1)); k -= 1
    return -np.real(np.poly(r))[1:] if p else np.zeros(0)


def rng_of(seed):
    return np.random.Generator(np.random.PCG64(seed))
