"""C21: generated CARMA and CAR(1) paths have the exact process law."""
import numpy as np
from common import affine, dot_limit, normal_bad, require, sut
from hypothesis import strategies as st

import blocks
import gens
import native
import oracle

TECHNIQUE = ('many generated paths standardised with the exact joint covariance and tested for independent standard normals; '
             'covariance recovered exactly from the dependence of the paths on the deviates drawn')
RULE = ('a generated CARMA(p,q) process (p<=8) or CAR(1) time scale and 1-9, some up to 400, times (some of blocks up to 2500, tested in stretches of 100; a fifth of the cases dense against the time scales of a low-order process; any order, repeated, integer, '
        'single precision or a list), 100-1500 paths per case (30-100 of the long ones, 25000 in some CAR(1) cases); where the '
        'values are a linear function of the normal deviates that the seed gives (verified with half as many paths again; up to '
        '60 times, 300 for CAR(1), not in single precision), the covariance of that function is compared with the exact one; non-trivial when the '
        'covariance could be standardised and there are at least two distinct times')
ASSUMPTIONS = ['distinct stable roots given as a numpy array', 'each statistical comparison has false-alarm probability 1e-12']
CHUNK = 25


@st.composite
def _case(draw):
    t = draw(gens.times(2, 9, big=70, long=400))
    typ = draw(st.sampled_from(['float', 'float', 'float', 'int', 'single', 'list']))
    if typ == 'int':
        t = np.cumsum(np.array(draw(st.lists(st.integers(1, 6), min_size=len(t), max_size=len(t))))).astype(float)
        t = t + draw(st.sampled_from([0, -7, 1000]))
    elif typ == 'single':
        t = np.unique(np.asarray(t, dtype=np.float32)).astype(float)
        if len(t) < 2:
            t = np.array([0.0, 1.0])
    c = dict(proc=draw(gens.process(t, pmax=8)), typ=typ)
    if typ == 'float' and draw(st.integers(0, 4)) == 0:
        # a densely measured process of low order: the next value is nearly known
        c['proc'] = draw(gens.process(t, pmax=3))
        scale = float(np.max(np.abs(gens.croots(c['proc']))))
        g = 10.0 ** draw(st.floats(-4, -0.5)) / scale
        n = draw(st.integers(10, 60))
        t = float(t[0]) + g * np.cumsum(np.array(draw(st.lists(st.sampled_from([1, 1, 1, 2, 5]), min_size=n, max_size=n))))
        t = np.unique(t)
        if len(t) < n // 2:
            t = g * np.arange(1.0, n + 1)
    order = draw(st.sampled_from(['sorted', 'sorted', 'shuffled', 'repeats', 'reversed', 'one']))
    rs = np.random.RandomState(draw(gens.seeds()))
    if order == 'shuffled':
        t = rs.permutation(t)
    elif order == 'repeats':
        t = t[rs.randint(0, len(t), size=len(t) + 2)]
    elif order == 'reversed':
        t = t[::-1]
    elif order == 'one':
        t = t[:1]
    # spread the roots' rates over those of car1_process too
    c.update(t=[float(x) for x in t], order=order, seed=draw(gens.seeds()), reps=draw(st.sampled_from([100, 100, 300, 1500])),
             api=draw(st.sampled_from(['carma', 'carma', 'car1'])), default=draw(st.booleans()))
    if len(t) > 12:
        c['reps'] = draw(st.sampled_from([30, 100]))
    elif c['api'] == 'car1' and draw(st.integers(0, 5)) == 0:
        c.update(t=c['t'][:3], reps=25000)
    c['blocks'] = None
    if order == 'sorted' and typ == 'float' and draw(st.integers(0, 5)) == 0:
        roots = gens.croots(c['proc'])[:1] if c['api'] == 'car1' else gens.croots(c['proc'])
        c['blocks'] = draw(blocks.blocks(t[:25], roots, 1.0, top=2500))
        c['reps'] = draw(st.sampled_from([4, 12]))
    return c


def case(tier):
    return _case()


def run_blocks(c, cp, f, proc, t, tb, nb):
    """A long series of independent blocks."""
    R = c['reps']
    tags = ['blocks', c['api'], 'p=%d' % len(proc.roots)]
    with sut('path generation'), np.errstate(all='ignore'):
        X = np.array([f() for _ in range(R)])
    require(X.shape == (R, len(t)) and not np.iscomplexobj(X), 'paths of shape %r and type %s for %d times', X.shape, X.dtype, len(t))
    try:
        L = oracle.chol(proc.cov(tb, tb))
    except ValueError:
        return dict(nontrivial=False, tags=tags + ['singular'])
    if not oracle.rel_tol(proc, t, float((np.diag(L) ** 2).min())) < 1e-4:
        return dict(nontrivial=False, tags=tags + ['ill-conditioned'])
    require(np.all(np.isfinite(X)), 'a generated value is not finite')
    Z = oracle.fsolve(L, X.reshape(R * nb, len(tb)).T).astype(float)
    for i in range(len(tb)):
        bad = normal_bad(Z[i])
        require(bad is None, 'values at time %r of a block do not follow the law of the process: %s', float(tb[i]), bad)
    S = np.abs(np.tril(Z @ Z.T, -1))
    require(S.max() < dot_limit(R * nb, len(tb) ** 2), 'standardised values within a block are correlated')
    Z = Z.T.reshape(R, nb * len(tb))
    for i in range(0, Z.shape[1], 100):
        bad = normal_bad(Z[:, i:i + 100].ravel())
        require(bad is None, 'values %d to %d of %d do not follow the law of the process: %s', i, i + 100, len(t), bad)
    lag = float(np.sum(Z[:, len(tb):] * Z[:, :-len(tb)]))
    require(abs(lag) < 1.3 * dot_limit(R * (nb - 1) * len(tb), 1), 'values of successive blocks are correlated')
    return dict(nontrivial=True, tags=tags, counts=dict(paths=R, values=X.size))


def run(c):
    native.carmcmc()
    import carmcmc.carma_pack as cp
    np.random.seed(c['seed'])
    t = np.array(c['t'])
    arg = t
    if c['typ'] == 'int':
        arg = t.astype(np.int64)
    elif c['typ'] == 'single':
        arg = t.astype(np.float32)
    elif c['typ'] == 'list':
        arg = [float(x) for x in t]
    if c['blocks']:
        arg, _, _, tb, Y, _ = blocks.expand(c['blocks'])
    roots, ma, s2 = gens.croots(c['proc']), c['proc']['ma'], c['proc']['sigsqr']
    if c['api'] == 'car1':
        roots, ma = np.array([complex(roots[0].real, 0)]), [1.0]
        proc = oracle.Process(s2, roots, ma)
        f = lambda: cp.car1_process(arg, s2, float(-1 / roots[0].real))
    else:
        proc = oracle.Process(s2, roots, ma)
        if len(ma) == 1 and c['default']:
            f = lambda: cp.carma_process(arg, s2, roots)
        else:
            f = lambda: cp.carma_process(arg, s2, roots, ma if c['default'] else np.array(ma))
    if c['blocks']:
        return run_blocks(c, cp, f, proc, arg, tb, len(Y))
    R = c['reps']
    X = np.empty((R, len(t)))
    with sut('path generation'):
        keep = np.array(arg, copy=True)
        with np.errstate(all='ignore'):
            for r in range(R):
                x = f()
                require(np.shape(x) == (len(t),) and not np.iscomplexobj(x), 'path of shape %r and type %s for %d times',
                        np.shape(x), np.asarray(x).dtype, len(t))
                X[r] = x
    require(np.array_equal(keep, np.asarray(arg)), 'the array of times was changed')
    ux, ix, inv = np.unique(t, return_index=True, return_inverse=True)
    tags = [c['typ'], c['order'], c['api'], 'p=%d' % len(roots)]
    try:
        L = oracle.chol(proc.cov(ux, ux))
    except ValueError:
        return dict(nontrivial=False, tags=tags + ['singular'])
    tol = oracle.rel_tol(proc, ux, float((np.diag(L) ** 2).min()))
    if not tol < 1e-4:
        return dict(nontrivial=False, tags=tags + ['ill-conditioned'])
    require(np.all(np.isfinite(X)), 'a generated value is not finite')
    require(np.array_equal(X, X[:, ix][:, inv]), 'values at the same time differ')
    Z = oracle.fsolve(L, X[:, ix].T).astype(float)
    bad = normal_bad(Z)
    require(bad is None, 'paths do not follow the law of the process: %s', bad)
    for i in range(len(ux)):
        bad = normal_bad(Z[i])
        require(bad is None, 'values at time %r do not follow the law of the process: %s', float(ux[i]), bad)
        s = float(np.dot(Z[i][:-1], Z[i][1:]))
        require(abs(s) < 1.3 * dot_limit(R, len(ux)), 'successive paths are correlated')
    lim = dot_limit(R, len(ux) ** 2)
    S = np.abs(np.tril(Z @ Z.T, -1))
    i, j = np.unravel_index(int(np.argmax(S)), S.shape)
    require(S[i, j] < lim, 'standardised values at times %r and %r are correlated (%.3g)', float(ux[i]), float(ux[j]), S[i, j] / R)
    # the values as a function of the deviates drawn: their exact mean and covariance
    if c['typ'] != 'single' and len(ux) <= (60 if c['api'] == 'carma' else 300):
        tags.append('other use of the generator')
        with sut('path generation'), np.errstate(all='ignore'):
            ab = affine(f, len(ux), lambda i: np.random.seed((c['seed'] + i) % 2 ** 32), np.random.standard_normal)
        if ab:
            tags[-1] = 'exact covariance'
            a, B = ab[0][ix], ab[1][ix]
            K = proc.cov(ux, ux).astype(float)
            lim = (3 * tol + 1e-8) * proc.k0
            dev = np.abs(B @ B.T - K)
            i, j = np.unravel_index(int(np.argmax(dev)), dev.shape)
            require(dev[i, j] <= lim, 'values at times %r and %r have covariance %.9g, exact %.9g (tolerance %.1g)', float(ux[i]),
                    float(ux[j]), float((B @ B.T)[i, j]), float(K[i, j]), lim)
            require(np.max(np.abs(a)) <= 1e-7 * np.sqrt(proc.k0), 'the values have mean %.9g', float(np.max(np.abs(a))))
    return dict(nontrivial=len(ux) > 1, tags=tags, counts=dict(paths=R, values=R * len(t)))
