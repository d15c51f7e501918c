"""What the check modules share: the Violation type, wrappers and small statistics."""
import contextlib
import math
import sys

import numpy as np

TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if TOOLS not in sys.path:
    sys.path.append(TOOLS)   # hypothesis and mpmath; at the end, so that numpy etc. come from the package's venv


class Violation(Exception):
    """The property does not hold on this case."""


class NonFiniteOracle(Exception):
    """Raised by oracles that cannot judge a case (counts as trivial)."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


@contextlib.contextmanager
def sut(what):
    """Calls into the code under test: an unexpected exception is a violation."""
    try:
        yield
    except Violation:
        raise
    except Exception as ex:
        if 'undefined symbol' in str(ex):
            raise RuntimeError('a shim was left out of the build: %s' % ex)
        raise Violation('%s raised %s: %s' % (what, type(ex).__name__, str(ex)[:300]))


def close(a, b, rtol=0.0, atol=0.0):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    return bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))


# ---------------------------------------------------------------- statistics
PMIN = 1e-12    # false-alarm probability of one statistical comparison


def binom_bad(k, n, p, pmin=PMIN):
    """True when k successes of n are implausible for probability p (two-sided)."""
    import scipy.stats as st
    p = min(max(p, 0.0), 1.0)
    if p == 0.0:
        return k > 0
    if p == 1.0:
        return k < n
    lo = st.binom.cdf(k, n, p)
    hi = st.binom.sf(k - 1, n, p)
    return min(lo, hi) < pmin / 2


def ks_bad(x, cdf, pmin=PMIN):
    """Kolmogorov-Smirnov against a continuous cdf (Massart's bound: P(D>d) <= 2exp(-2nd^2))."""
    x = np.sort(np.asarray(x, dtype=float))
    n = len(x)
    if not np.all(np.isfinite(x)):
        return True, float('nan')
    u = np.asarray(cdf(x), dtype=float)
    i = np.arange(n)
    d = max(float(np.max((i + 1) / n - u)), float(np.max(u - i / n)))
    return d > math.sqrt(-math.log(pmin / 2) / (2 * n)), d


def chi2_bad(z2sum, dof, pmin=PMIN):
    import scipy.stats as st
    return bool(min(st.chi2.cdf(z2sum, dof), st.chi2.sf(z2sum, dof)) < pmin / 2)


def normal_bad(z, pmin=PMIN):
    """Are the values of z implausible as independent standard normals?  Returns a reason or None."""
    z = np.asarray(z, dtype=float).ravel()
    n = len(z)
    if not np.all(np.isfinite(z)):
        return 'non-finite standardised value'
    if abs(z.sum()) / math.sqrt(n) > 7.0:
        return 'mean of %d standardised values is %.4g' % (n, z.mean())
    if chi2_bad(float((z * z).sum()), n, pmin):
        return 'mean square of %d standardised values is %.4g' % (n, (z * z).mean())
    if n >= 50:
        from scipy.special import ndtr
        bad, d = ks_bad(z, ndtr, pmin)
        if bad:
            return 'KS distance of %d standardised values to the normal law is %.4g' % (n, d)
    return None


def dot_limit(n, pairs=1, pmin=PMIN):
    """Bound on the absolute product of two independent standard normal vectors of length n (Chernoff), over `pairs` of them."""
    want = -math.log(pmin / (2.0 * max(pairs, 1)))
    lo, hi = 0.0, 100.0 * (n + math.sqrt(n))
    for _ in range(60):
        s = 0.5 * (lo + hi)
        lam = (math.sqrt(n * n + 4 * s * s) - n) / (2 * s)
        if lam * s + 0.5 * n * math.log1p(-lam * lam) < want:
            lo = s
        else:
            hi = s
    return hi


def affine(sim, k, seed, normals):
    """Recover (a, B) when the values sim() returns are a + Bz, z being the first k normal deviates of its generator: seed(i)
    restarts that generator, normals(k) draws from it.  None when the values are no such function."""
    n = 3 * k // 2 + 10
    Z, Y = np.ones((n, k + 1)), []
    for i in range(n):
        seed(i)
        Z[i, 1:] = normals(k)
        seed(i)
        Y.append(np.array(sim(), dtype=float))
    Y = np.array(Y)
    if not np.all(np.isfinite(Y)):
        return None
    X = np.linalg.lstsq(Z, Y, rcond=None)[0]
    if np.any(np.abs(Y - Z @ X) > 1e-9 * np.std(Y, axis=0) + 1e-13 * np.max(np.abs(Y), axis=0)):
        return None
    return X[0], X[1:].T


def rs_of(case, salt=0):
    """numpy generator that depends only on the case's seed."""
    return np.random.RandomState((int(case.get('seed', 0)) * 7919 + salt * 104729 + 12345) % (2 ** 32))


def accept_prob(x):
    """min(1, exp(x)); 0 when x is not a number."""
    if math.isnan(x) or x == -math.inf:
        return 0.0
    return min(1.0, math.exp(min(x, 0.0)))


def tally(acc, what):
    """acc: list of (probability, accepted)."""
    mid = 0
    p = np.array([a for a, _ in acc])
    a = np.array([b for _, b in acc], dtype=float)
    for lo, hi in ((0.0, 1.0), (0.0, 0.2), (0.2, 0.5), (0.5, 0.8), (0.8, 1.0)):
        m = (p > lo) & (p <= hi) & (p < 1)
        v = float(np.sum(p[m] * (1 - p[m])))
        if v < 20:
            continue
        mid += int(m.sum())
        # Bernstein's inequality
        s = abs(float(np.sum(a[m] - p[m])))
        x = -math.log(PMIN / 2)
        bound = x / 3 + math.sqrt(x * x / 9 + 2 * v * x)
        require(s <= bound, '%s: %d of %d moves with acceptance probability in (%.1f, %.1f] were accepted, expected %.1f +- %.1f',
                what, int(a[m].sum()), int(m.sum()), lo, hi, float(p[m].sum()), bound)
    return mid


class Rates:
    """The acceptance rates printed by a step every `every` iterations, compared with the moves since the last report."""

    def __init__(self, every):
        self.every, self.n, self.m, self.reports = every, 0, 0, 0

    def step(self, accepted, numbers, what):
        self.n += 1
        self.m += bool(accepted)
        if self.n != self.every:
            return
        if len(numbers) == 1:
            want = self.m / self.n
            require(abs(numbers[0] - want) <= 1e-5 * want + 1e-12, '%s: acceptance rate %r reported after %d of %d moves '
                    'since the last report', what, numbers[0], self.m, self.n)
            self.reports += 1
        self.n = self.m = 0
