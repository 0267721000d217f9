"""Reference ARMA algebra (numpy/scipy only) and a thin reader for the model shims."""
import numpy as np
from scipy.linalg import toeplitz, solve_triangular, cholesky


class Fit:
    pass


def read(v, r=0, L=0):
    f = Fit()
    (f.retval, f.p, f.d, f.q, f.s, f.P, f.D, f.Q, f.M, f.ncoeff, f.lvcov, f.Nused) = (int(t) for t in v[:12])
    f.mean, f.var, f.loglik, f.aic = v[12:16]
    k = 16
    def take(n):
        nonlocal k
        a = np.array(v[k:k + n]); k += n
        return a
    f.phi, f.theta, f.PHI, f.THETA, f.exog = take(f.p), take(f.q), take(f.P), take(f.Q), take(r)
    f.vcov = take(f.lvcov).reshape(f.ncoeff, f.ncoeff)
    f.res = take(f.Nused)
    f.pred, f.mse = take(L), take(L)
    return f


def call_arima(W, x, p, d, q, method=0, opt=-1, cssml=-1, L=0, nexec=1):
    return read(W.call("arima", [p, d, q, len(x), method, opt, cssml, L, nexec], x), 0, L)


def call_sarima(W, x, p, d, q, s, P, D, Q, method=0, opt=-1, cssml=-1, L=0, nexec=1):
    return read(W.call("sarima", [p, d, q, s, P, D, Q, len(x), method, opt, cssml, L, nexec], x), 0, L)


def call_sarimax(W, x, p, d, q, P, D, Q, s, xreg=None, imean=1, method=0, opt=-1, L=0, newx=None, nexec=1, start=None):
    r = 0 if xreg is None else xreg.shape[1]
    a = [x]
    if r:
        a.append(xreg.T.ravel())
        if L: a.append(newx.T.ravel())
    if start is not None: a += [np.asarray(t, float) for t in start]
    return read(W.call("sarimax", [p, d, q, P, D, Q, s, r, imean, len(x), method, opt, L, nexec, int(start is not None)], *a), r, L)


def expand(phi, theta, PHI, THETA, s):
    """Multiplicative model -> plain ARMA.  theta/THETA in the library's sign (x = ... + e_t - theta e_{t-1}).
    Returns ar, ma with x_t = sum ar x_{t-i} + e_t + sum ma e_{t-j}."""
    def seas(c, s):
        o = np.zeros(s * len(c) + 1); o[0] = 1
        for j, v in enumerate(c): o[s * (j + 1)] = -v
        return o
    a = np.convolve(np.r_[1, -np.asarray(phi)], seas(PHI, s) if len(PHI) else [1.0])
    m = np.convolve(np.r_[1, -np.asarray(theta)], seas(THETA, s) if len(THETA) else [1.0])
    return -a[1:], m[1:]


def min_root(c):
    """Smallest modulus of the roots of 1 - c1 z - ... (inf when none)."""
    c = np.trim_zeros(np.asarray(c, float), "b")
    if len(c) == 0: return np.inf
    z = np.abs(np.roots(np.r_[1.0, -c]))     # inverse roots
    return 1.0 / z.max() if z.max() > 0 else np.inf


def psi(ar, ma, n):
    p = np.zeros(n); p[0] = 1
    for k in range(1, n):
        v = ma[k - 1] if k - 1 < len(ma) else 0.0
        m = min(k, len(ar))
        if m: v += ar[:m] @ p[k - m:k][::-1]
        p[k] = v
    return p


def tacvf(ar, ma, n):
    """Autocovariances (unit innovation variance) of a stationary ARMA at lags 0..n-1, from the Yule-Walker-type linear system."""
    p, q = len(ar), len(ma)
    th = np.r_[1.0, ma]
    ps = psi(ar, ma, q + 1)
    b = np.array([th[k:] @ ps[:q + 1 - k] if k <= q else 0.0 for k in range(max(p, q) + 1)])
    m = p + 1
    A = np.zeros((m, m))
    for k in range(m):
        A[k, k] += 1
        for i in range(1, p + 1): A[k, abs(k - i)] -= ar[i - 1]
    g0 = np.linalg.solve(A, b[:m] if len(b) >= m else np.r_[b, np.zeros(m - len(b))])
    g = np.zeros(max(n, m)); g[:m] = g0
    for k in range(m, n):
        g[k] = (ar @ g[k - p:k][::-1] if p else 0.0) + (b[k] if k < len(b) else 0.0)
    return g[:n]


def chol(ar, ma, n):
    return cholesky(toeplitz(tacvf(ar, ma, n)), lower=True)


def exact_l(ar, ma, w):
    """0.5*(mean log f_t + log sigma2_hat), sigma2_hat, standardised innovations of the exact Gaussian likelihood."""
    n = len(w)
    Lc = chol(ar, ma, n)
    z = solve_triangular(Lc, w, lower=True)
    s2 = z @ z / n
    return np.mean(np.log(np.diag(Lc))) + 0.5 * np.log(s2), s2, z


def loglik_of(l, n):
    return -0.5 * n * (2 * l + 1 + np.log(2 * np.pi))


def difference(x, d, s, D):
    for _ in range(D): x = x[s:] - x[:-s]
    for _ in range(d): x = np.diff(x)
    return x


def css_resid(ar, ma, w):
    """Conditional residuals: the first len(ar) observations are conditioned on, earlier innovations are zero."""
    n, p = len(w), len(ar)
    e = np.zeros(n)
    for t in range(p, n):
        v = w[t] - (ar @ w[t - p:t][::-1] if p else 0.0)
        m = min(t - p, len(ma))
        if m: v -= ma[:m] @ e[t - m:t][::-1]
        e[t] = v
    return e


def forecast(ar, ma, w, h):
    """Exact finite-sample predictor of the next h values and their error covariance (unit innovation variance)."""
    n = len(w)
    g = tacvf(ar, ma, n + h)
    G = toeplitz(g)
    Lc = cholesky(G, lower=True)
    z = solve_triangular(Lc[:n, :n], w, lower=True)
    m = Lc[n:, :n] @ z
    C = Lc[n:, n:] @ Lc[n:, n:].T
    return m, C, z


def integrate(x, d, s, D, m, C):
    """Forecasts of the undifferenced series and their error variances from those of the differenced one."""
    dl = np.array([1.0])
    for _ in range(d): dl = np.convolve(dl, [1, -1])
    for _ in range(D): dl = np.convolve(dl, np.r_[1, np.zeros(s - 1), -1])
    h = len(m); k = len(dl) - 1
    y = np.r_[x[len(x) - k:], np.zeros(h)]
    for t in range(h):
        y[k + t] = m[t] - (dl[1:] @ y[t:k + t][::-1] if k else 0.0)
    inv = np.zeros(h); inv[0] = 1
    for t in range(1, h):
        mm = min(t, k)
        inv[t] = -(dl[1:1 + mm] @ inv[t - mm:t][::-1]) if mm else 0.0
    T = toeplitz(inv, np.zeros(h))
    return y[k:], np.diag(T @ C @ T.T)


# ---------------------------------------------------------------- objective functions of a fitted model
class Problem:
    """Data of a (S)ARIMA(X) fit: w = differenced series, Z = differenced regressors incl. the intercept column."""
    def __init__(self, x, p, d, q, s=0, P=0, D=0, Q=0, xreg=None, imean=1):
        self.p, self.q, self.P, self.Q, self.s, self.d, self.D = p, q, P, Q, s, d, D
        self.w = difference(np.asarray(x, float), d, s, D)
        cols = []
        self.mean = int(imean and d == 0 and D == 0)
        if self.mean: cols.append(np.ones(len(x)))
        if xreg is not None: cols += [xreg[:, j] for j in range(xreg.shape[1])]
        self.Z = np.column_stack([difference(c, d, s, D) for c in cols]) if cols else np.zeros((len(self.w), 0))
        self.n = len(self.w)
        self.k = p + q + P + Q + self.Z.shape[1]

    def params(self, f):
        return np.r_[f.phi, f.theta, f.PHI, f.THETA, [f.mean] if self.mean else [], f.exog]

    def arma(self, b):
        i = np.cumsum([0, self.p, self.q, self.P, self.Q])
        return expand(b[i[0]:i[1]], b[i[1]:i[2]], b[i[2]:i[3]], b[i[3]:i[4]], self.s)

    def err(self, b):
        return self.w - self.Z @ b[self.k - self.Z.shape[1]:]

    def mle(self, b):
        """0.5*(mean log f + log sigma2): the per-observation objective of the exact likelihood (nan outside stationarity)."""
        ar, ma = self.arma(b)
        if min_root(ar) <= 1: return np.nan
        return exact_l(ar, ma, self.err(b))[0]

    def css(self, b):
        ar, ma = self.arma(b)
        e = css_fast(ar, ma, self.err(b))
        return 0.5 * np.log(e @ e / (self.n - len(ar)))


def css_fast(ar, ma, w):
    from scipy.signal import lfilter
    n, p = len(w), len(ar)
    u = np.convolve(np.r_[1.0, -np.asarray(ar)], w)[p:n]
    e = lfilter([1.0], np.r_[1.0, np.asarray(ma)], u) if len(ma) else u
    return np.r_[np.zeros(p), e]


def grad_hess(fun, b, scale):
    """Central differences."""
    k = len(b); h = scale
    f0 = fun(b); g = np.zeros(k); H = np.zeros((k, k))
    fp = np.zeros(k); fm = np.zeros(k)
    I = np.eye(k)
    for i in range(k):
        fp[i], fm[i] = fun(b + h[i] * I[i]), fun(b - h[i] * I[i])
        g[i] = (fp[i] - fm[i]) / (2 * h[i]); H[i, i] = (fp[i] - 2 * f0 + fm[i]) / h[i] ** 2
    for i in range(k):
        for j in range(i):
            a = fun(b + h[i] * I[i] + h[j] * I[j]); c = fun(b - h[i] * I[i] - h[j] * I[j])
            d = fun(b + h[i] * I[i] - h[j] * I[j]); e = fun(b - h[i] * I[i] + h[j] * I[j])
            H[i, j] = H[j, i] = (a + c - d - e) / (4 * h[i] * h[j])
    return f0, g, H
