"""Independent reference for CARMA processes.

Autocovariance by residues of the spectral density in 40-digit arithmetic, then
dense Gaussian algebra in 80-bit floats.  Nothing here follows the state-space
recursion of the code under test.
"""
import math

import numpy as np

import common  # noqa: F401  (search path)
import mpmath as mp

mp.mp.dps = 40
LD = np.longdouble
CLD = np.clongdouble
EPS = 2.220446049250313e-16
LONG = 160           # longer series are handled in double precision (rel_tol allows for it)


def _ld(x):
    x = mp.mpf(x)
    hi = float(x)
    if not math.isfinite(hi):
        return LD(hi)
    return LD(hi) + LD(float(x - mp.mpf(hi)))


def _cld(z):
    z = mp.mpc(z)
    return CLD(_ld(z.real)) + CLD(1j) * CLD(_ld(z.imag))


def poly(coefs, s):
    """sum_k coefs[k] s^k"""
    out = mp.mpf(0)
    for c in reversed(list(coefs)):
        out = out * s + mp.mpf(c)
    return out


class Process(object):
    """Zero-mean CARMA process: alpha(D) y = beta(D) noise, alpha(s) = prod (s - root)."""

    def __init__(self, sigsqr, roots, ma=(1.0,)):
        R = [mp.mpc(r) for r in np.atleast_1d(roots)]
        self.roots = [complex(r) for r in R]
        self.R = R
        self.ma = list(ma)
        self.sigsqr = sigsqr
        c = []
        for k, r in enumerate(R):
            d = mp.mpf(1)
            for l, s in enumerate(R):
                if l != k:
                    d *= (r - s)
                d *= (-r - s)
            c.append(poly(self.ma, r) * poly(self.ma, -r) / d)
        self.unit_k0 = sum(c).real           # variance for sigsqr = 1
        self.c = [mp.mpf(self.sigsqr) * x for x in c]
        self.k0 = float(sum(self.c).real)
        self._r = np.array([_cld(r) for r in R])
        self._c = np.array([_cld(x) for x in self.c])

    def acf(self, tau):
        """Autocovariance (longdouble) at an array of lags."""
        tau = np.abs(np.asarray(tau, dtype=LD))
        if tau.size > LONG * LONG:
            tau = tau.astype(float)
            out = np.zeros(tau.shape)
            for r, c in zip(self._r, self._c):
                out = out + (complex(c) * np.exp(complex(r) * tau)).real
            return out
        out = np.zeros(tau.shape, dtype=LD)
        for r, c in zip(self._r, self._c):
            out = out + (c * np.exp(r * tau)).real
        return out

    def acf_mp(self, tau):
        tau = abs(mp.mpf(tau))
        return sum(c * mp.exp(r * tau) for r, c in zip(self.R, self.c)).real

    def psd(self, f):
        """One-sided convention of the package: sigma^2 |beta(2 pi i f)|^2 / |alpha(2 pi i f)|^2."""
        s = 2j * mp.pi * mp.mpf(f)
        a = mp.mpf(1)
        for r in self.R:
            a *= (s - r)
        return mp.mpf(self.sigsqr) * abs(poly(self.ma, s)) ** 2 / abs(a) ** 2

    def amp(self):
        """Cancellation of the eigenbasis representation, relative to the variance (1 = none)."""
        r = np.array(self.roots)
        p = len(r)
        if p == 1:
            return 1.0
        with np.errstate(all='ignore'):
            J = np.array([1 / np.prod([r[i] - r[l] for l in range(p) if l != i]) for i in range(p)])
            b = np.array([sum(abs(float(m)) * abs(ri) ** k for k, m in enumerate(self.ma)) for ri in r])
            V = np.abs(float(self.sigsqr) * np.outer(J, J.conj()) / (r[:, None] + r.conj()[None, :]))
            a = float(np.sum(b[:, None] * V * b[None, :]) / abs(self.k0))
        return a if math.isfinite(a) else math.inf

    def cov(self, t1, t2):
        t1 = np.asarray(t1, dtype=LD)
        t2 = np.asarray(t2, dtype=LD)
        return self.acf(t1[:, None] - t2[None, :])


def chol(K):
    """Lower Cholesky factor in longdouble; raises ValueError when not positive definite."""
    if len(K) > LONG:
        try:
            return np.linalg.cholesky(np.asarray(K, dtype=float))
        except np.linalg.LinAlgError as ex:
            raise ValueError(str(ex))
    K = np.array(K, dtype=LD)
    n = len(K)
    L = np.zeros((n, n), dtype=LD)
    for j in range(n):
        d = K[j, j]
        if not d > 0:
            raise ValueError('not positive definite')
        s = np.sqrt(d)
        L[j, j] = s
        if j + 1 < n:
            col = K[j + 1:, j] / s
            L[j + 1:, j] = col
            K[j + 1:, j + 1:] -= col[:, None] * col[None, :]
    return L


def fsolve(L, B):
    """L^-1 B"""
    if len(L) > LONG:
        from scipy.linalg import solve_triangular
        return solve_triangular(L, np.asarray(B, dtype=float), lower=True).astype(LD)
    B = np.array(B, dtype=LD)
    for j in range(len(L)):
        B[j] = B[j] / L[j, j]
        if j + 1 < len(L):
            if B.ndim == 1:
                B[j + 1:] -= L[j + 1:, j] * B[j]
            else:
                B[j + 1:] -= L[j + 1:, j][:, None] * B[j][None, :]
    return B


def onestep(proc, t, y, e):
    """Means, variances of each measurement given the earlier ones, and standardised residuals."""
    K = proc.cov(t, t) + np.diag(np.asarray(e, dtype=LD) ** 2)
    L = chol(K)
    y = np.asarray(y, dtype=LD)
    z = fsolve(L, y)
    d = np.diag(L)
    v = d * d
    return y - d * z, v, z


def loglik(proc, t, y, e):
    """Gaussian log-likelihood without the -(n/2) log 2 pi constant; also (v, z)."""
    m, v, z = onestep(proc, t, y, e)
    return -LD(0.5) * np.sum(np.log(v)) - LD(0.5) * np.sum(z * z), v, z


def conditional(proc, t, y, e, ts):
    """Mean vector and covariance matrix of the process at ts given all measurements."""
    K = proc.cov(t, t) + np.diag(np.asarray(e, dtype=LD) ** 2)
    L = chol(K)
    z = fsolve(L, np.asarray(y, dtype=LD))
    A = fsolve(L, proc.cov(t, ts))
    mean = A.T @ z
    cov = proc.cov(ts, ts) - A.T @ A
    return mean, cov


def phase(proc, t):
    """Growth of rounding error in exp(root * gap)."""
    t = np.asarray(t, dtype=float)
    if len(t) < 2:
        return 1.0
    g = float(np.max(np.diff(np.sort(t))))
    # a factor |r| dt exp(Re r dt) is what survives
    w = 0.0
    for r in proc.roots:
        a = abs(r.real)
        x = min(g, 1.0 / a) if a > 0 else g
        w = max(w, abs(r) * x)
    return 1.0 + w


def rel_tol(proc, t, vmin, C=1e5, e=None):
    """Relative tolerance for one-step quantities whose smallest variance is vmin; for a CAR(1) process with measurement
    errors e, whose filter subtracts the squared error from the variance of each measurement, also that rounding."""
    C = C * max(1.0, len(t) / LONG)
    sub = 10 * EPS * float(np.max(e)) ** 2 / vmin if e is not None and len(proc.roots) == 1 else 0.0
    return C * EPS * (proc.amp() * max(proc.k0 / vmin, 1.0)) * phase(proc, t) + 1e-12 + sub


# ------------------------------------------------------------------ parameter vectors
def factor_roots(logc):
    """Roots of prod_i (e^{x_2i} + e^{x_2i+1} s + s^2) [* (e^{x_last} + s)], high precision."""
    logc = list(logc)
    out = []
    for i in range(len(logc) // 2):
        c, b = mp.exp(mp.mpf(logc[2 * i])), mp.exp(mp.mpf(logc[2 * i + 1]))
        d = mp.sqrt(mp.mpc(b * b - 4 * c))
        out += [mp.mpc(-(b + d) / 2), mp.mpc(-(b - d) / 2)]
    if len(logc) % 2:
        out.append(mp.mpc(-mp.exp(mp.mpf(logc[-1]))))
    return out


def factor_poly(logc):
    """Coefficients, constant term first and equal to one, of the same product (real, high precision)."""
    logc = list(logc)
    c = [mp.mpf(1)]

    def mul(a, b):
        o = [mp.mpf(0)] * (len(a) + len(b) - 1)
        for i, x in enumerate(a):
            for j, y in enumerate(b):
                o[i + j] += x * y
        return o
    for i in range(len(logc) // 2):
        c = mul(c, [mp.exp(mp.mpf(logc[2 * i])), mp.exp(mp.mpf(logc[2 * i + 1])), mp.mpf(1)])
    if len(logc) % 2:
        c = mul(c, [mp.exp(mp.mpf(logc[-1])), mp.mpf(1)])
    return [x / c[0] for x in c]


def factor_tol(logc):
    """Absolute error bound of each root of the factors, and the amplification quad2^2/quad1."""
    tol, amp = [], 1.0
    for i in range(len(logc) // 2):
        c, b = math.exp(logc[2 * i]), math.exp(logc[2 * i + 1])
        amp = max(amp, b * b / c)
        d = abs(b * b - 4 * c)
        delta = 64 * EPS * (b * b + 4 * c) * (1 + abs(logc[2 * i]) + abs(logc[2 * i + 1]))
        e = min(math.sqrt(delta), delta / math.sqrt(d) if d > 0 else math.inf)
        e += 64 * EPS * (b + math.sqrt(c)) * (1 + abs(logc[2 * i + 1]))
        tol += [e, e]
    if len(logc) % 2:
        tol.append(64 * EPS * math.exp(logc[-1]) * (1 + abs(logc[-1])))
    return tol, amp


def polytol(roots, tol, k=64):
    """Coefficients of prod (s + |r|), highest power first, times the relative error of a product of roots."""
    c = [1.0]
    rel = k * EPS * (1 + len(roots))
    for r, e in zip(roots, tol):
        a = abs(complex(r))
        rel += e / a
        c = [(c[i] if i < len(c) else 0) + (a * c[i - 1] if i else 0) for i in range(len(c) + 1)]
    return [x * rel for x in c], rel


def fullpoly(roots):
    c = [mp.mpc(1)]
    for r in roots:
        c = [(c[i] if i < len(c) else 0) - (r * c[i - 1] if i else 0) for i in range(len(c) + 1)]
    return [mp.re(x) for x in c]


def noise_tol(proc, tol, matol=0.0):
    """Relative error bound of the driving-noise variance when the roots carry the absolute errors tol and the
    moving-average coefficients the relative error matol."""
    R, MA = proc.R, proc.ma
    p = len(R)
    unit = Process(1.0, R, MA)
    s = float(sum(abs(x) for x in unit.c))
    rr = [complex(r) for r in R]
    move = 0.0
    for i in range(p):
        for j in range(p):
            if i != j:
                move = max(move, (tol[i] + tol[j]) / abs(rr[i] - rr[j]))
        move = max(move, tol[i] / abs(rr[i].real))
    bmax = max(float(sum(abs(b) * abs(r) ** i for i, b in enumerate(MA))) ** 2 /
               max(float(abs(poly(MA, r) * poly(MA, -r))), 1e-300) for r in R)
    return (4 * p * move + 1e3 * EPS + 4 * matol) * bmax * s / float(unit.unit_k0)


def kappa_bounds(t):
    t = np.asarray(t, dtype=float)
    dt = np.diff(t)
    return max(1.0 / (t[-1] - t[0]), 1.0 / (10.0 * float(np.median(dt)))), 1.0 / float(dt.min())


def kappa_ma(p, kappa):
    return [mp.mpf(1)] + [mp.binomial(p - 1, i) / mp.mpf(kappa) ** i for i in range(1, p)]


def theta_parts(kind, p, q, theta, t, kbounds=None):
    """(ar roots, ma coefficients) of a parameter vector."""
    if kind == 'CAR1':
        return [mp.mpc(-mp.exp(mp.mpf(theta[3])))], [mp.mpf(1)]
    roots = factor_roots(theta[3:3 + p])
    if kind == 'CARp':
        ma = [mp.mpf(1)]
    elif kind == 'CARMA':
        ma = factor_poly(theta[3 + p:3 + p + q])
    elif kind == 'ZCAR':
        ma = kappa_ma(p, 1.0 / float(np.min(np.diff(np.asarray(t)))))
    else:
        lo, hi = kbounds or kappa_bounds(t)
        x = mp.mpf(theta[3 + p])
        k = (mp.mpf(hi) - mp.mpf(lo)) / (1 + mp.exp(-x)) + mp.mpf(lo)
        ma = kappa_ma(p, k)
    return roots, ma


def theta_process(kind, p, q, theta, t, kbounds=None):
    roots, ma = theta_parts(kind, p, q, theta, t, kbounds)
    unit = Process(1.0, roots, ma).unit_k0
    return Process(mp.mpf(theta[0]) ** 2 / unit, roots, ma)


def logprior(kind, p, theta):
    s = mp.mpf(theta[1])
    lp = -25 / s - 26 * mp.log(s)
    if kind == 'ZCARMA':
        x = mp.mpf(theta[3 + p])
        lp += -x - 2 * mp.log(1 + mp.exp(-x))
    return lp


def rounding(kind, p, q, theta, t):
    """Relative error of the noise variance, roots and moving-average coefficients computed from a parameter vector,
    with their cancellation."""
    if kind == 'CAR1':
        return 1e-13
    tol, _ = factor_tol(theta[3:3 + p])
    ma = 1e3 * EPS
    if kind == 'CARMA':
        mt, _ = factor_tol(theta[3 + p:3 + p + q])
        ma += sum(a / float(abs(r)) for a, r in zip(mt, factor_roots(theta[3 + p:3 + p + q])))
    return noise_tol(theta_process(kind, p, q, theta, t), tol, ma)


def logpost(kind, p, q, theta, t, y, e, kbounds=None, extreme=False):
    """Exact log density and its tolerance (infinite when the case is too ill-conditioned); extreme adds the rounding of
    parameter vectors outside the prior support."""
    proc = theta_process(kind, p, q, theta, t, kbounds)
    yc = np.asarray(y, dtype=LD) - LD(theta[2])
    ee = np.asarray(e, dtype=LD) * np.sqrt(LD(theta[1]))
    try:
        ll, v, z = loglik(proc, t, yc, ee)
    except ValueError:
        return None, math.inf, proc
    lp = _ld(logprior(kind, p, theta))
    tol = rel_tol(proc, t, float(v.min()), e=ee)
    # cancellation in y - mu
    sc = float(np.max(np.abs(y)) + abs(theta[2])) * EPS / math.sqrt(float(v.min()))
    zz = float(np.sum(z * z))
    n = len(v)
    if extreme:
        tol += 100 * rounding(kind, p, q, theta, t) * max(proc.k0 / float(v.min()), 1.0)
    tabs = (tol + 10 * sc) * (n + zz) + 1e-11 * (1.0 + abs(float(ll)) + abs(float(lp)))
    return float(ll + lp), tabs, proc


MARGIN = 1e-6


def in_support(kind, p, theta, t, y, sdmax=None):
    """True (inside), False (outside) or None (undecided), by the documented bounds."""
    th = [mp.mpf(x) for x in theta]
    lo, hi = 1 / (mp.mpf(t[-1]) - mp.mpf(t[0])), 1 / min(mp.mpf(b) - mp.mpf(a) for a, b in zip(t[:-1], t[1:]))
    und = False
    if th[1] < mp.mpf(0.5) or th[1] > 2:
        return False
    if th[0] < 0:
        return False
    if sdmax is not None:
        if th[0] > mp.mpf(sdmax):
            return False
    else:
        ym = [mp.mpf(v) for v in y]
        mean = sum(ym) / len(ym)
        smax = 10 * mp.sqrt(sum((v - mean) ** 2 for v in ym) / (len(ym) - 1))
        m = (smax - th[0]) / smax
        off = max(abs(v) for v in ym) / smax        # cancellation in the variance
        if m < -1e-9 * (1 + off):
            return False
        und |= m < 1e-9 * (1 + off)
    if kind == 'CAR1':
        om = mp.exp(th[3])
        for m in (hi - om) / hi, (om - lo) / lo:
            if m < -MARGIN:
                return False
            und |= m < MARGIN
        return None if und else True
    roots = factor_roots(theta[3:3 + p])
    cent = [abs(r.imag) / 2 / mp.pi for r in roots]
    wid = [-r.real / 2 / mp.pi for r in roots]
    for w, f in zip(wid, cent):
        for m in (hi - w) / hi, (w - lo) / lo, (hi - f) / hi:
            if m < -MARGIN:
                return False
            und |= m < MARGIN
    for i in range(len(roots)):
        for j in range(i):
            d = abs((roots[i] - roots[j]) / (roots[i] + roots[j])) / mp.mpf(1e-4) - 1
            if d < -1e-3:
                return False
            und |= d < 1e-3
    for i in range(1, len(roots)):
        if i % 2 == 1 and i < 2 * (p // 2):
            continue             # the two roots of one factor
        d = cent[i - 1] - cent[i]
        m = MARGIN * cent[i - 1] + mp.mpf(1e-9) * abs(roots[i]) if cent[i] else 0
        if d < -m:
            return False
        und |= bool(m and d < m)
    return None if und else True
