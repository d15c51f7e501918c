"""C29: the pure-Python filter gives the exact one-step, conditional and simulated laws."""
import math

import numpy as np
from common import affine, dot_limit, normal_bad, require, sut
from hypothesis import strategies as st

import blocks
import gens
import native
import oracle
import pred

TECHNIQUE = ('KalmanFilterDeprecated against dense Gaussian conditioning; statistics of simulated paths, and their exact '
             'covariance recovered from the deviates drawn')
RULE = ('a generated series (2-25, some up to 250, points, for filter some of blocks up to 2500; float or integer times) and CARMA(p,q) process with p=2..7, then a generated sequence of '
        'filter, predict and simulate calls; every answer is compared with the exact law (for simulate also '
        'the covariance recovered from the dependence on the normal deviates, up to 60 of values times requested times); non-trivial when one comparison had a '
        'tolerance below 1e-4')
ASSUMPTIONS = ['p>=2, distinct stable roots, sorted times, predictions after the first measurement and not at a noise-free one (the '
               'documented limits of this class)']
CHUNK = 60


@st.composite
def _case(draw):
    c = draw(gens.series_and_process(2, 25, pmin=2, pmax=7, units=False, zero=False, big=70, long=250))
    c['int'] = draw(st.integers(0, 4)) == 0
    if c['int']:
        n = len(c['t'])
        c['t'] = [int(v) for v in np.cumsum([draw(st.integers(1, 5)) for _ in range(n)])]
        c['proc'] = draw(gens.process(np.array(c['t'], dtype=float), pmin=2, pmax=7))
        sd = gens.stationary_sd(c['proc']) or 1.0
        c['e'] = draw(gens.errors(n, sd, False))
        c['y'] = draw(gens.values(n, sd))
    t = np.array(c['t'], dtype=float)
    T = t[-1] - t[0]
    xs = []
    for _ in range(draw(st.integers(1, 5))):
        i = draw(st.integers(0, len(t) - 2))
        u = draw(st.sampled_from([0.5, 0.2, 0.8, 0.37]))
        k = draw(st.sampled_from(['between', 'between', 'after', 'at', 'far', 'close', 'close']))
        if k == 'close' and xs:
            xs.append(xs[-1] + 0.1 * u * (t[i + 1] - t[i]))
            continue
        x = t[i] + u * (t[i + 1] - t[i]) if k == 'between' else t[i + 1] if k == 'at' else t[-1] + (u if k == 'after' else 30) * T
        xs.append(float(x))
    c['x'] = sorted(set(xs)) if draw(st.booleans()) else list(dict.fromkeys(xs))
    c['ops'] = draw(st.lists(st.sampled_from(['filter', 'predict', 'predict', 'simulate', 'scalar']), min_size=1, max_size=5))
    c['seed'] = draw(gens.seeds())
    c['reps'] = draw(st.sampled_from([30, 30, 120, 300])) if len(t) * len(xs) <= 30 else 30 if len(t) <= 25 else 6
    c['blocks'] = None
    if not c['int'] and draw(st.integers(0, 9)) == 0:
        sd = gens.stationary_sd(c['proc']) or 1.0
        c['blocks'] = draw(blocks.blocks(t[:25], gens.croots(c['proc']), sd, top=2500, zero=False))
    return c


def case(tier):
    return _case()


def run(c):
    native.carmcmc()
    import carmcmc.carma_pack as cp
    t0 = np.array(c['t'], dtype=int if c['int'] else float)
    t, y, e = np.array(c['t'], dtype=float), np.array(c['y']), np.array(c['e'])
    roots, ma = gens.croots(c['proc']), c['proc']['ma']
    proc = oracle.Process(c['proc']['sigsqr'], roots, ma)
    r = roots / np.exp(np.mean(np.log(np.abs(roots))))
    # this class solves a Vandermonde system in the units of the roots: allow for the error of that solution
    J = np.array([1 / np.prod(roots[k] - np.delete(roots, k)) for k in range(len(roots))])
    try:
        sol = np.linalg.solve(np.vander(roots, increasing=True).T, np.eye(len(roots))[-1])
        err = float(np.max(np.abs(sol - J) / np.abs(J)))
    except np.linalg.LinAlgError:
        err = np.inf
    extra = max(3e4 * oracle.EPS * np.linalg.cond(np.vander(r)), 100 * err * proc.amp())
    extra = extra if np.isfinite(extra) else 1e6
    if c['blocks']:
        t, y, e, tb, Y, eb = blocks.expand(c['blocks'])
        with sut('filter'), np.errstate(all='ignore'):
            f = cp.KalmanFilterDeprecated(t, y, e ** 2, c['proc']['sigsqr'], roots, list(ma))
            m, v = f.filter()
        try:
            m0, v0, z0 = (np.asarray(a, dtype=float).ravel() for a in blocks.onestep(proc, tb, Y, eb))
        except ValueError:
            return dict(nontrivial=False, tags=['blocks', 'singular'])
        vmin = float(v0.min())
        tol = oracle.rel_tol(proc, t, vmin) + extra * max(proc.k0 / vmin, 1.0)
        if not tol < 1e-4:
            return dict(nontrivial=False, tags=['blocks', 'ill-conditioned'])
        zmax = 1 + float(np.max(np.abs(z0)))
        require(len(m) == len(t) and len(v) == len(t), 'filter returns %d means for %d measurements', len(m), len(t))
        ev = np.abs(v - v0) / v0
        em = np.abs(m - m0) / np.sqrt(v0) / zmax
        require(np.max(ev) <= tol, 'one-step variance of measurement %d wrong: relative error %.3g (tolerance %.1g)', int(np.argmax(ev)),
                float(np.max(ev)), tol)
        require(np.max(em) <= tol, 'one-step mean of measurement %d wrong by %.3g standard deviations (tolerance %.1g)',
                int(np.argmax(em)), float(np.max(em)) * zmax, tol * zmax)
        return dict(nontrivial=True, tags=['blocks', 'p=%d' % len(roots)], counts=dict(onestep=len(t), predictions=0, values=0))
    tags = ['p=%d' % len(roots), 'integer times' if c['int'] else 'float times']
    xs = np.array(c['x'])
    good, old = False, []
    counts = dict(onestep=0, predictions=0, values=0)
    yv = e ** 2
    with sut('the constructor'):
        whole = c['int'] and np.all(y == np.round(y))
        f = cp.KalmanFilterDeprecated(t0.copy(), y.astype(int) if whole else y.copy(), yv.copy(), c['proc']['sigsqr'], roots, list(ma))
    np.random.seed(c['seed'] % 2 ** 32)
    # conditioning with the simulated points included
    new = [x for x in xs if x not in t]
    try:
        tt = np.concatenate([t, xs])
        ee = np.concatenate([e, np.zeros(len(xs))])
        o = np.lexsort((ee, tt))
        L = oracle.chol(proc.cov(tt[o], tt[o]) + np.diag(np.asarray(ee[o], dtype=oracle.LD) ** 2))
        M, S = oracle.conditional(proc, t, y, e, xs)
        Ls = oracle.chol(S)
        vm = float((np.diag(L) ** 2).min())
        simtol = oracle.rel_tol(proc, tt, vm) + extra * max(proc.k0 / vm, 1.0)
        m0, v0, z0 = oracle.onestep(proc, t, y, e)
    except ValueError:
        return dict(nontrivial=False, tags=tags + ['singular'])
    vmin = float(v0.min())
    tol = oracle.rel_tol(proc, t, vmin) + extra * max(proc.k0 / vmin, 1.0)
    with np.errstate(all='ignore'):
        for op in c['ops']:
            if op == 'filter':
                with sut('filter'):
                    m, v = f.filter()
                old.append((m, np.array(m), v, np.array(v)))
                require(len(m) == len(t) and len(v) == len(t), 'filter returns %d means for %d measurements', len(m), len(t))
                if tol < 1e-3:
                    zmax = 1 + float(np.max(np.abs(z0)))
                    ev = float(np.max(np.abs(v - v0) / v0))
                    em = float(np.max(np.abs(m - m0) / np.sqrt(v0))) / zmax
                    require(ev <= tol, 'one-step variance wrong: relative error %.3g (tolerance %.1g)', ev, tol)
                    require(em <= tol, 'one-step mean wrong by %.3g standard deviations (tolerance %.1g)', em, tol * zmax)
                    good = good or tol < 1e-4
                    counts['onestep'] += len(t)
            elif op == 'predict':
                with sut('predict'):
                    ans = [f.predict(float(x)) for x in xs]
                g, tg = pred.judge(proc, t, y, e, list(xs), ans, extra=extra)
                good = good or g
                tags += tg
                counts['predictions'] += len(xs)
            elif not simtol < 1e-4:
                tags.append('ill-conditioned')
                continue
            else:
                one = op == 'scalar'
                R = c['reps']
                X = np.empty((R, 1 if one else len(xs)))
                arg = xs.copy()
                for k in range(R):
                    with sut('simulate'):
                        X[k] = f.simulate(float(xs[0])) if one else f.simulate(arg)
                require(np.array_equal(arg, xs), "simulate changes the caller's times")
                if one:
                    Z = (X.T - float(M[0])) / math.sqrt(float(S[0, 0]))
                else:
                    Z = oracle.fsolve(Ls, X.T - M[:, None]).astype(float)
                for z in list(Z) + [Z]:
                    bad = normal_bad(z)
                    require(bad is None, 'simulated values do not follow the conditional law: %s', bad)
                Q = np.abs(np.tril(Z @ Z.T, -1))
                i, j = np.unravel_index(int(np.argmax(Q)), Q.shape)
                require(Q[i, j] < dot_limit(R, Q.size), 'standardised values at times %r and %r are correlated (%.3g)', float(xs[i]),
                        float(xs[j]), Q[i, j] / R)
                if not one and len(t) * len(xs) <= 60 and all(x not in t for x in xs):
                    with sut('simulate'):
                        ab = affine(lambda: f.simulate(arg), len(xs), lambda i: np.random.seed((c['seed'] + i) % 2 ** 32),
                                    np.random.standard_normal)
                    tags.append('exact covariance' if ab else 'other use of the generator')
                    if ab:
                        lim = 3 * simtol * proc.k0 + 1e-8 * float(np.max(S))
                        dev = np.abs(ab[1] @ ab[1].T - S.astype(float))
                        i, j = np.unravel_index(int(np.argmax(dev)), dev.shape)
                        require(dev[i, j] <= lim, 'values simulated at times %r and %r have covariance %.9g, exact %.9g (tolerance '
                                '%.1g)', float(xs[i]), float(xs[j]), float((ab[1] @ ab[1].T)[i, j]), float(S[i, j]), lim)
                counts['values'] += X.size
                good = True
                tags.append(op)
            require(all(np.array_equal(a, b) and np.array_equal(x, z) for a, b, x, z in old), '%s changes an earlier result of filter', op)
            require(np.array_equal(f.time, t0) and np.array_equal(f.y, y) and np.array_equal(f.yvar, yv), '%s changes the stored data',
                    op)
    return dict(nontrivial=good, tags=sorted(set(tags)), counts=counts)
