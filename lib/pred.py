"""Query times for predictions, and their comparison with the exact conditionals."""
import numpy as np
from common import require
from hypothesis import strategies as st

import oracle


@st.composite
def queries(draw, t, nmin=1, nmax=6):
    t = np.asarray(t)
    T = t[-1] - t[0]
    out = []
    for _ in range(draw(st.integers(nmin, nmax))):
        k = draw(st.sampled_from(['between', 'at', 'before', 'after', 'near', 'mid', 'far']))
        i = draw(st.integers(0, len(t) - 1))
        u = draw(st.sampled_from([0.5, 0.1, 0.9, 0.01, 0.25, 0.75, 0.33, 1.0, 3.0]))
        if k in ('between', 'mid'):
            j = min(i, len(t) - 2)
            f = 0.5 if k == 'mid' else u % 1.0
            x = t[j] + f * (t[j + 1] - t[j])
        elif k == 'at':
            x = t[i]
        elif k == 'before':
            x = t[0] - u * T / len(t)
        elif k == 'after':
            x = t[-1] + u * T / len(t)
        elif k == 'near':
            x = t[i] + 1e-3 * (u - 0.5) * T / len(t)
        else:
            x = t[-1] + 20 * u * T if u > 0.3 else t[0] - 20 * u * T
        out.append(float(x))
    return out


def vmin_with(proc, t, e, x):
    """Smallest one-step variance of the data with a noise-free point inserted at x."""
    i = int(np.searchsorted(t, x, side='left'))
    tt = np.insert(t, i, x)
    ee = np.insert(e, i, 0.0)
    K = proc.cov(tt, tt) + np.diag(np.asarray(ee, dtype=oracle.LD) ** 2)
    L = oracle.chol(K)
    d = np.diag(L)
    return float((d * d).min())


def judge(proc, t, y, e, qs, ans, ctx='', limit=1e-3, extra=0.0):
    """Compare answers [(mean, var)] with the exact conditionals; returns (nontrivial, tags)."""
    good, tags = False, []
    try:
        K = proc.cov(t, t) + np.diag(np.asarray(e, dtype=oracle.LD) ** 2)
        z = oracle.fsolve(oracle.chol(K), np.asarray(y, dtype=oracle.LD))
        M, S = oracle.conditional(proc, t, y, e, np.array(qs))
    except ValueError:
        return False, ['singular']
    zmax = 1.0 + float(np.max(np.abs(z)))
    for k, x in enumerate(qs):
        m, v = ans[k]
        i = int(np.searchsorted(t, x))
        if i < len(t) and t[i] == x and e[i] == 0.0:
            require(m == y[i] and v == 0.0 or abs(m - y[i]) <= 1e-9 * max(abs(y[i]), np.sqrt(proc.k0)) and
                    abs(v) <= 1e-9 * proc.k0, '%sprediction at a noise-free measurement is (%r, %r), not (%r, 0)',
                    ctx, m, v, y[i])
            good = True
            tags.append('noise-free datum')
            continue
        try:
            vm = vmin_with(proc, t, e, x)
        except ValueError:
            tags.append('singular')
            continue
        tol = oracle.rel_tol(proc, np.append(t, x), vm) + extra * max(proc.k0 / vm, 1.0)
        tol += 100 * oracle.EPS * float(np.max(e)) ** 2 / vm         # errors far above the process
        if not tol < limit:
            tags.append('ill-conditioned')
            continue
        v0, m0 = float(S[k, k]), float(M[k])
        sc = proc.k0 if v0 <= 0 else v0
        require(np.isfinite(m) and np.isfinite(v), '%sprediction is (%r, %r)', ctx, m, v)
        require(abs(v - v0) <= tol * sc, '%sprediction variance %.17g, exact %.17g (relative tolerance %.1g)', ctx, v,
                v0, tol)
        require(abs(m - m0) <= tol * np.sqrt(proc.k0) * zmax, '%sprediction mean %.17g, exact %.17g (tolerance %.1g)',
                ctx, m, m0, tol * np.sqrt(proc.k0) * zmax)
        require(v <= proc.k0 * (1 + tol), '%sprediction variance above the stationary variance', ctx)
        good = good or tol < 1e-4
        tags.append('before' if x < t[0] else 'after' if x > t[-1] else 'at' if x in t else 'between')
    return good, tags
