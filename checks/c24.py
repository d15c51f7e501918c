"""C24: the Markov chain samples the posterior distribution."""
import ctypes
import math

import numpy as np
from common import require, sut
from hypothesis import strategies as st

import gens
import native
from native import D, P, arr

TECHNIQUE = ('averages over independent long chains against numerical integration (generic targets) or importance sampling (model '
             'posteriors) of the same density, compared by a t test over the chains')
RULE = ('targets: Gaussian (1-5 dimensions), bounded Gaussian and bimodal densities (1-2 dimensions) sampled by the adaptive step at '
        '1-5 temperatures with exchanges, every temperature compared with the density to the power 1/T; models: CAR(1), CAR(2), '
        'CARMA(2,1) posteriors of short series through the package\'s sampler with 1-4 chains and thinning; 12-16 independent runs '
        'each; non-trivial when the reference has enough effective draws and the chains moved')
ASSUMPTIONS = ['burn-in of 4000 or more iterations and runs of 4000 or more are long for these targets (verified for the unchanged '
               'code over many seeds)', 'a difference is reported beyond a t quantile of probability 1e-9 plus 0.01 in probability '
               'units']
CHUNK = 6


@st.composite
def _case(draw, long):
    if draw(st.sampled_from([True, False])):
        k = draw(st.sampled_from(['gauss', 'box', 'bimodal']))
        d = draw(st.sampled_from([1, 2, 3, 5] if k == 'gauss' else [1, 2]))
        nt = draw(st.sampled_from([1, 2, 4] if k != 'bimodal' else [4, 5]))
        return dict(kind=k, d=d, nt=nt, tmax=draw(st.sampled_from([4.0, 20.0] if k != 'bimodal' else [30.0])),
                    seed=draw(gens.seeds()), n=long * draw(st.sampled_from([4000, 8000])), thin=draw(st.sampled_from([1, 1, 3])),
                    scale=draw(st.sampled_from([0, 0, 3, -4])), unit=draw(st.sampled_from(['student', 'normal'])))
    kind, p, q = draw(st.sampled_from([('CAR1', 1, 0), ('CARp', 2, 0), ('CARMA', 2, 1)]))
    return dict(kind=kind, p=p, q=q, nt=draw(st.sampled_from([1, 2, 4])) if p > 1 else 1, thin=draw(st.sampled_from([1, 2])),
                seed=draw(gens.seeds()), npts=draw(st.sampled_from([5, 8, 12])), err=draw(st.sampled_from([0.1, 0.5, 1.0])),
                scale=draw(st.sampled_from([1.0, 1.0, 100.0, 0.01])), n=long * 6000)


def case(tier):
    return _case(1 if tier == 'quick' else 3)


K = 14


def tbad(A, b, se, what):
    """Are the chain averages A (one per run) compatible with the reference b +- se?"""
    import scipy.stats as ss
    k = len(A)
    m, s = float(np.mean(A)), float(np.std(A, ddof=1)) / math.sqrt(k)
    q = float(ss.t.isf(1e-9, k - 1))
    lim = q * math.sqrt(s * s + se * se) + 0.01
    require(abs(m - b) <= lim, '%s: probability %.4f over %d runs, %.4f under the target (allowed difference %.4f)', what, m, k, b, lim)
    return abs(m - b) / lim


# ------------------------------------------------------------------ generic targets
def target(c):
    rs = np.random.RandomState(c['seed'])
    d = c['d']
    u = 10.0 ** c['scale']
    k = 2 if c['kind'] == 'bimodal' else 1
    M, A, W = [], [], []
    base = rs.normal(size=d) * 3
    for j in range(k):
        B = rs.normal(size=(d, d)) * 0.5 + np.diag(np.exp(rs.uniform(-0.7, 0.7, d)))
        s = np.linalg.svd(B)[1]
        if s[-1] < 0.2:
            B = B + np.eye(d)
        A.append(np.linalg.inv(B) / u)
        v = rs.normal(size=d)
        v /= np.linalg.norm(v)
        sep = rs.uniform(3.0, 6.0) * math.sqrt(float(np.mean(np.sum(B * B, axis=1))))
        M.append((base + (sep * v if j else 0)) * u)
        W.append(math.log(rs.uniform(0.5, 1.0)))
    lo, hi = np.full(d, -np.inf), np.full(d, np.inf)
    if c['kind'] == 'box':
        for i in range(d):
            sd = math.sqrt(np.linalg.inv(A[0].T @ A[0])[i, i])
            side = rs.randint(3)
            if side != 1:
                lo[i] = M[0][i] - rs.uniform(0.0, 1.0) * sd
            if side != 0:
                hi[i] = M[0][i] + rs.uniform(0.2, 1.0) * sd
    return np.array(W), np.array(M), np.array(A), lo, hi


def logt(X, W, M, A, lo, hi):
    q = np.stack([w - 0.5 * np.sum(((X - m) @ a.T) ** 2, axis=1) for w, m, a in zip(W, M, A)])
    b = q.max(axis=0)
    out = b + np.log(np.exp(q - b).sum(axis=0))
    return np.where(np.all((X >= lo) & (X <= hi), axis=1), out, -np.inf)


def run_target(c):
    lib = native.lib()
    native.seed(c['seed'])
    rs = np.random.RandomState(c['seed'] ^ 0x5a5a5a)
    d, nt = c['d'], c['nt']
    T = np.exp(np.linspace(0, math.log(c['tmax']), nt)) if nt > 1 else np.array([1.0])
    W, M, A, lo, hi = target(c)
    lib.target_set(d, len(W), P(arr(W)), P(arr(M)), P(arr(A)), P(arr(lo)), P(arr(hi)))
    F = ctypes.cast(lib.target_address(), native.LOGF)
    C = [np.linalg.inv(a.T @ a) for a in A]
    sd = np.sqrt(np.max([np.diag(x) for x in C], axis=0))
    n, burn = c['n'], 4000
    runs = []
    for r in range(K):
        x0 = np.array(M[rs.randint(len(M))]) + sd * rs.normal(size=d) * 0.3
        x0 = np.clip(x0, np.where(np.isfinite(lo), lo + 1e-3 * sd, lo), np.where(np.isfinite(hi), hi - 1e-3 * sd, hi))
        with sut('a tempered run'):
            ens = native.ptr(lib.ens_new())
            for i in range(nt):
                lib.ens_add(ens, native.ptr(lib.vpar_new(1, ('x%d' % i).encode(), D(T[i]), i, F, d, P(arr(x0)), native.EVENT())))
            par = [native.ptr(lib.ens_get(ens, i)) for i in range(nt)]
            s = native.ptr(lib.sampler_new(n, burn, c['thin']))
            props = []
            C0 = arr(np.diag((0.05 * sd) ** 2))
            for i in range(nt - 1, -1, -1):
                pr = native.ptr(lib.prop_scalar(1 if c['unit'] == 'student' else 0, P(arr([8.0, 1.0] if c['unit'] == 'student' else
                                                                                         [1.0]))))
                props.append(pr)
                lib.sampler_add(s, native.ptr(lib.step_ram(par[i], pr, d, P(C0), D(0.25), burn, 1)))
                if i:
                    lib.sampler_add(s, native.ptr(lib.step_exchange(ens, i, -1)))
            native.chk(lib.sampler_run(s, 0, P(arr([0.0]))))
            out = []
            for i in range(nt):
                X, lp = np.full((n, d), np.nan), np.full(n, np.nan)
                require(lib.vpar_nsamples(par[i]) == n, 'chain %d stores %d samples of %d', i, lib.vpar_nsamples(par[i]), n)
                native.chk(lib.vpar_samples(par[i], d, P(X), P(lp)))
                out.append(X)
            lib.sampler_free(s)
            lib.ens_free(ens)
        runs.append(out)
    worst, ncmp = 0.0, 0
    dirs = [np.eye(d)[i] / sd[i] for i in range(d)]
    if d > 1:
        dirs += [rs.normal(size=d) / sd for _ in range(2)]
    for i in range(nt):
        if c['kind'] == 'gauss':
            from scipy.special import ndtr
            ref = []
            for v in dirs:
                mu, s = float(v @ M[0]), math.sqrt(T[i] * float(v @ C[0] @ v))
                for z in (-1.5, -0.7, 0.0, 0.7, 1.5):
                    ref.append((v, mu + z * s, float(ndtr(z))))
        else:
            m, s = 900 if d == 2 else 20000, math.sqrt(T[i])
            axes = []
            for j in range(d):
                a = min(x[j] - 7 * s * math.sqrt(y[j, j]) for x, y in zip(M, C))
                b = max(x[j] + 7 * s * math.sqrt(y[j, j]) for x, y in zip(M, C))
                a, b = max(a, lo[j]), min(b, hi[j])
                axes.append(a + (np.arange(m) + 0.5) * (b - a) / m)
            X = np.stack([g.ravel() for g in np.meshgrid(*axes, indexing='ij')], axis=1)
            w = logt(X, W, M, A, lo, hi) / T[i]
            w = np.exp(w - w.max())
            w /= w.sum()
            ref = []
            for v in dirs:
                h = X @ v
                o = np.argsort(h)
                cw = np.cumsum(w[o])
                for u in (0.1, 0.25, 0.5, 0.75, 0.9):
                    k = int(np.searchsorted(cw, u))
                    ref.append((v, float(h[o][k]), float(cw[k])))
        for v, cut, pr in ref:
            a = [float(np.mean(run[i] @ v <= cut)) for run in runs]
            worst = max(worst, tbad(a, pr, 0.0, 'temperature %.3g of a %s target, P(v.x <= %.6g)' % (T[i], c['kind'], cut)))
            ncmp += 1
    return dict(nontrivial=True, tags=['target', c['kind'], 'd=%d' % d, 'temperatures=%d' % nt, 'worst %.1f' % (math.floor(worst * 5) / 5)],
                counts=dict(comparisons=ncmp, draws=K * n * nt))


# ------------------------------------------------------------------ model posteriors
def run_model(c):
    rs = np.random.RandomState(c['seed'])
    kind, p, q = c['kind'], c['p'], c['q']
    t = np.cumsum(rs.uniform(0.5, 1.5, c['npts']))
    y = rs.normal(size=len(t)) * c['scale'] * 1.0
    e = np.full(len(t), c['err'] * c['scale']) * np.exp(0.2 * rs.normal(size=len(t)))
    sy = float(np.std(y))
    dmn = native.ntheta(kind, p, q)
    # reference: population Monte Carlo importance sampling of the model's log density
    m = native.Model(kind, t, y, e, p, q)
    smax = 10 * sy
    m.setprior(smax)
    span = t[-1] - t[0]
    fl, fh = math.log(1 / span), math.log(1 / float(np.min(np.diff(t))))

    def to_theta(U):
        """unconstrained coordinates to parameters, with the log Jacobian"""
        th = U.copy()
        sg = 1 / (1 + np.exp(-U[:, 0]))
        th[:, 0] = smax * sg
        s2 = 1 / (1 + np.exp(-U[:, 1]))
        th[:, 1] = 0.5 + 1.5 * s2
        th[:, 2] = float(np.mean(y)) + sy * U[:, 2]
        lj = np.log(sg) + np.log1p(-sg) + np.log(s2) + np.log1p(-s2)
        if kind == 'CAR1':
            s3 = 1 / (1 + np.exp(-U[:, 3]))
            th[:, 3] = fl + (fh - fl) * s3
            lj = lj + np.log(s3) + np.log1p(-s3)
        return th, lj

    def weights(U, lq):
        th, lj = to_theta(U)
        lp = np.array([m.logdens(x) for x in th]) + lj
        lp[~np.isfinite(lp)] = -np.inf
        return th, lp - lq
    U = rs.normal(size=(4000, dmn))
    if kind == 'CAR1':
        cen = np.zeros(4)
        cen[0] = -2.0
        sc = np.array([1.0, 1.0, 1.0, 1.5])
    else:
        # start from draws in the support
        th = [gens.make_theta(rs, kind, p, q, t, y) for _ in range(300)]
        th = np.array([x for x in th if x is not None])
        g = np.column_stack([np.full(len(th), -2.0), np.zeros(len(th)), np.zeros(len(th)), th[:, 3:]])
        cen, sc = g.mean(axis=0), np.concatenate([[1.0, 1.0, 1.0], g[:, 3:].std(axis=0) * 1.2])
    comps = [(cen, np.diag(sc ** 2))]
    NU = 5.0

    def draw_q(n):
        Z = np.empty((n, dmn))
        which = rs.randint(len(comps), size=n)
        for k, (mu, S) in enumerate(comps):
            i = np.where(which == k)[0]
            L = np.linalg.cholesky(S)
            g = rs.chisquare(NU, size=len(i)) / NU
            Z[i] = mu + (rs.normal(size=(len(i), dmn)) @ L.T) / np.sqrt(g)[:, None]
        return Z

    def logq(Z):
        out = []
        for mu, S in comps:
            L = np.linalg.cholesky(S)
            x = np.linalg.solve(L, (Z - mu).T)
            out.append(-0.5 * (NU + dmn) * np.log1p(np.sum(x * x, axis=0) / NU) - np.sum(np.log(np.diag(L))))
        out = np.stack(out)
        b = out.max(axis=0)
        return b + np.log(np.mean(np.exp(out - b), axis=0))
    with np.errstate(all='ignore'):
        for it in range(5):
            Z = draw_q(3000)
            th, lw = weights(Z, logq(Z))
            if not np.any(np.isfinite(lw)):
                return dict(nontrivial=False, tags=['no reference'])
            w = np.exp((lw - lw.max()) * (1.0 if it > 1 else 0.5))
            w /= w.sum()
            mu = w @ Z
            S = ((Z - mu) * w[:, None]).T @ (Z - mu)
            S = S * 1.3 + 1e-3 * np.eye(dmn)
            # components at resampled points with a reduced covariance follow curved posteriors
            pts = Z[rs.choice(len(Z), size=12, p=w)]
            comps = [(mu, S * 1.5)] + [(x, S * 0.5) for x in pts]
        Z = draw_q(20000 if kind == 'CAR1' else 30000)
        th, lw = weights(Z, logq(Z))
    m.close()
    w = np.exp(lw - lw.max())
    w /= w.sum()
    ess = 1 / float(np.sum(w * w))
    if ess < 2000 or w.max() > 0.01:
        return dict(nontrivial=False, tags=['model', kind, 'reference too poor'])
    runs = []
    native.seed(c['seed'] % 1000003)
    for r in range(K):
        with sut('the sampler'):
            mod = native.run_sampler(t, y, e, p, q, nsamp=c['n'], burn=6000, nwalk=c['nt'], thin=c['thin'])
            X, lp = mod.samples()
            mod.close()
        require(len(X) == c['n'], '%d samples of %d', len(X), c['n'])
        runs.append(X)
    worst, ncmp = 0.0, 0
    for j in range(dmn):
        o = np.argsort(th[:, j])
        cw = np.cumsum(w[o])
        for u in (0.1, 0.25, 0.5, 0.75, 0.9):
            k = int(np.searchsorted(cw, u))
            cut = float(th[o[k], j])
            ind = (th[:, j] <= cut).astype(float)
            pr = float(w @ ind)
            se = math.sqrt(float(np.sum((w * (ind - pr)) ** 2)))
            a = [float(np.mean(X[:, j] <= cut)) for X in runs]
            worst = max(worst, tbad(a, pr, se, '%s(%d,%d) posterior, P(parameter %d <= %.6g)' % (kind, p, q, j, cut)))
            ncmp += 1
    return dict(nontrivial=True, tags=['model', kind, 'chains=%d' % c['nt'], 'worst %.1f' % (math.floor(worst * 5) / 5)],
                counts=dict(comparisons=ncmp, draws=K * c['n']))


def run(c):
    return run_target(c) if c['kind'] in ('gauss', 'box', 'bimodal') else run_model(c)
