"""C04: simulated paths have the joint conditional law given the data, in the order requested."""
import math

import numpy as np
from common import affine, dot_limit, normal_bad, require, sut
from hypothesis import strategies as st

import blocks
import gens
import native
import oracle

TECHNIQUE = ('simulated paths standardised with the exact joint conditional law and tested for independent normals; mean and '
             'covariance recovered exactly from the dependence of the paths on the deviates drawn')
RULE = ('a generated series (2..80 points, some blocks of these with up to 2500) and CARMA(p,q) process (p<=8), 1..7 (some 40) requested times in arbitrary order (before, between, '
        'after, at measured times, repeated, close together), many independent simulations per case; every path is '
        'standardised with the exact joint conditional covariance and tested for independent standard normals; where the values '
        'are an affine function of the normal deviates that the seed gives (verified with half as many paths again), the mean '
        'and covariance of that function are compared with the exact ones; '
        'non-trivial when the standardisation is well conditioned for at least one requested time')
ASSUMPTIONS = ['distinct stable roots', 'each statistical comparison has false-alarm probability below 1e-10']
CHUNK = 40


@st.composite
def _case(draw):
    c = draw(gens.series_and_process(2, 12, pmax=8, big=80))
    b = None
    if 2 < len(c['t']) <= 12 and draw(st.integers(0, 14)) == 0:
        b = draw(blocks.blocks(c['t'], gens.croots(c['proc']), gens.stationary_sd(c['proc']) or 1.0, far=3.0, top=2500))
        if b:
            c.update(t=b['tb'], e=b['e'], blocks=b, at=draw(st.integers(0, b['count'] - 1)))
            c['y'] = [float(x) for x in blocks.expand(b)[4][c['at']]]
    t = np.array(c['t'])
    T = t[-1] - t[0]
    ts = []
    m = draw(st.integers(1, 3 if b else 7)) if b or draw(st.integers(0, 6)) else draw(st.integers(8, 40))
    for _ in range(m):
        k = draw(st.sampled_from(['between', 'after', 'before', 'at', 'repeat', 'close', 'between']))
        i = draw(st.integers(0, len(t) - 2))
        u = draw(st.sampled_from([0.5, 0.2, 0.8, 0.35, 0.65])) if m < 8 else draw(st.floats(0.05, 0.95))
        if k == 'between':
            x = t[i] + u * (t[i + 1] - t[i])
        elif k == 'after':
            x = t[-1] + u * (t[i + 1] - t[i])
        elif k == 'before':
            x = t[0] - u * (t[i + 1] - t[i])
        elif k == 'at' or not ts:
            x = t[i]
        elif k == 'repeat':
            x = ts[i % len(ts)]
        else:
            x = ts[i % len(ts)] + u * 1e-2 * T / len(t)
        ts.append(float(x))
    c['ts'] = ts
    c['via'] = draw(st.sampled_from(['py', 'shim0', 'shim3']))
    c['seed'] = draw(gens.seeds())
    c['reps'] = draw(st.sampled_from([150, 150, 150, 1500])) if m < 8 and len(t) < 13 else draw(st.sampled_from([60, 200]))
    if b:
        c['reps'] = 25
    return c


def case(tier):
    return _case()


def build(c, y=None):
    roots = gens.croots(c['proc'])
    car1 = len(roots) == 1
    y = c['y'] if y is None else y
    t, e = c['t'], c['e']
    if 'blocks' in c:
        t, _, e, _, Y, _ = blocks.expand(c['blocks'])
        Y[c['at']] = y
        y = Y.ravel()
    if c['via'] == 'py':
        return native.PyFilter(t, y, e, c['proc']['sigsqr'], roots, c['proc']['ma'], car1=car1)
    return native.Filter(t, y, e, c['proc']['sigsqr'], roots, c['proc']['ma'], car1=car1,
                         how=int(c['via'][-1]))


def run(c):
    t, y, e, ts = map(np.array, (c['t'], c['y'], c['e'], c['ts']))
    proc = oracle.Process(c['proc']['sigsqr'], gens.croots(c['proc']), c['proc']['ma'])
    shift = c['at'] * c['blocks']['P'] if 'blocks' in c else 0.0
    ts = (ts + shift) - shift
    native.seed(c['seed'])
    R, m = c['reps'], len(ts)
    X = np.empty((R, m))
    with sut('simulation'):
        f = build(c)
        for r in range(R):
            x = f.simulate(ts + shift)
            require(len(x) == m, '%d values returned for %d times', len(x), m)
            X[r] = x
    tags = ['p=%d' % len(c['proc']['roots'])] + (['blocks'] if 'blocks' in c else [])
    sd = math.sqrt(proc.k0)
    pinned = {float(t[i]): float(y[i]) for i in range(len(t)) if e[i] == 0.0}
    free = []
    for k, x in enumerate(ts):
        if float(x) not in pinned and float(x) not in [float(ts[j]) for j in free]:
            free.append(k)
    # conditioning of the whole sequence, simulated points included
    fx = ts[free]
    tt = np.concatenate([t, fx])
    ee = np.concatenate([e, np.zeros(len(fx))])
    o = np.lexsort((ee, tt))
    try:
        L = oracle.chol(proc.cov(tt[o], tt[o]) + np.diag(np.asarray(ee[o], dtype=oracle.LD) ** 2))
        M, S = oracle.conditional(proc, t, y, e, fx)
        Ls = oracle.chol(S)
    except ValueError:
        return dict(nontrivial=False, tags=tags + ['singular'])
    vmin = float((np.diag(L) ** 2).min())
    tol = oracle.rel_tol(proc, tt, vmin, e=e)
    if not tol < 1e-4:
        return dict(nontrivial=False, tags=tags + ['ill-conditioned'])
    # values already known exactly: noise-free data and repeated times
    require(np.all(np.isfinite(X)), 'simulated value is not finite')
    seen = {}
    for k, x in enumerate(ts):
        if float(x) in pinned:
            require(np.all(np.abs(X[:, k] - pinned[float(x)]) <= 1e-9 * max(sd, abs(pinned[float(x)]))),
                    'simulated value at a noise-free measurement is not the measurement')
            tags.append('pinned')
        elif float(x) in seen:
            require(np.all(np.abs(X[:, k] - X[:, seen[float(x)]]) <= 1e-9 * sd),
                    'two simulated values at the same time differ')
            tags.append('repeat')
        else:
            seen[float(x)] = k
    if not free:
        return dict(nontrivial=True, tags=tags + ['all pinned'])
    Z = oracle.fsolve(Ls, (X[:, free].T - M[:, None])).astype(float)   # one row per time
    bad = normal_bad(Z)
    require(bad is None, 'simulated values do not follow the conditional law: %s', bad)
    for i in range(len(free)):
        bad = normal_bad(Z[i])
        require(bad is None, 'values simulated at time %r do not follow the conditional law: %s', float(fx[i]), bad)
    Q = np.abs(np.tril(Z @ Z.T, -1))
    i, j = np.unravel_index(int(np.argmax(Q)), Q.shape)
    require(Q[i, j] < dot_limit(R, len(free) ** 2), 'standardised values at times %r and %r are correlated (%.3g)', float(fx[i]),
            float(fx[j]), Q[i, j] / R)
    # the values as a function of the deviates drawn: their exact mean and covariance
    tags.append('other use of the generator')
    with sut('simulation'):
        ab = affine(lambda: f.simulate(ts + shift), m, lambda i: native.seed(c['seed'] + 1 + i), native.normals)
    if ab:
        tags[-1] = 'exact covariance'
        a, B = ab[0][free], ab[1][free]
        K0 = oracle.chol(proc.cov(t, t) + np.diag(np.asarray(e, dtype=oracle.LD) ** 2))
        zmax = 1.0 + float(np.max(np.abs(oracle.fsolve(K0, y))))
        lim = 3 * tol * proc.k0 + 1e-8 * float(np.max(S))
        dev = np.abs(B @ B.T - S.astype(float))
        i, j = np.unravel_index(int(np.argmax(dev)), dev.shape)
        require(dev[i, j] <= lim, 'values simulated at times %r and %r have covariance %.9g, exact %.9g (tolerance %.1g)', float(fx[i]),
                float(fx[j]), float((B @ B.T)[i, j]), float(S[i, j]), lim)
        lim = 3 * tol * sd * zmax + 1e-8 * math.sqrt(float(np.max(S))) + 1e-11 * float(np.max(np.abs(y)))
        dev = np.abs(a - M.astype(float))
        i = int(np.argmax(dev))
        require(dev[i] <= lim, 'values simulated at time %r have mean %.9g, exact %.9g (tolerance %.1g)', float(fx[i]), a[i],
                float(M[i]), lim)
    # the same seed with other data moves the path by exactly the change of the conditional mean
    rs = np.random.RandomState(c['seed'] % 1000)
    y2 = y + sd * rs.normal(size=len(y))
    with sut('simulation'):
        native.seed(c['seed'])
        a = f.simulate(ts + shift)
        g = build(c, y2)
        native.seed(c['seed'])
        b = g.simulate(ts + shift)
        f.close(), g.close()
    M2, _ = oracle.conditional(proc, t, y2, e, fx)
    K = oracle.chol(proc.cov(t, t) + np.diag(np.asarray(e, dtype=oracle.LD) ** 2))
    zmax = 10.0 + float(np.max(np.abs(oracle.fsolve(K, y2)))) + float(np.max(np.abs(oracle.fsolve(K, y))))
    d = np.abs((b - a)[free] - (M2 - M).astype(float))
    require(np.all(d <= 10 * tol * sd * zmax), 'a change of the data moves the simulated path by %.6g too much',
            float(np.max(d)))
    return dict(nontrivial=True, tags=tags + ['m=%d' % len(free)], counts=dict(paths=R, values=R * m))


def known():
    """The recorded finding: a smooth process on a dense grid (see known_findings.txt)."""
    rates = np.linspace(0.05, 1.0, 7)
    roots = [complex(-2 * math.pi * r, 0) for r in rates]
    t = np.linspace(0.0, 10.0, 15)
    y = np.sin(t)
    e = np.full(15, 0.1)
    unit = oracle.Process(1.0, roots, [1.0]).k0
    f = native.PyFilter(t, y, e, 1.0 / unit, roots, [1.0])
    native.seed(1)
    nan = sum(not np.all(np.isfinite(f.simulate(np.linspace(-2.0, 12.0, 400)))) for _ in range(5))
    if nan:
        return ['simulating CARMA(7,0) with real roots -2 pi linspace(0.05,1,7) and unit variance, 15 measurements on '
                '[0,10], at 400 equally spaced times in [-2,12] gives NaN in %d of 5 paths' % nan]
    return []
