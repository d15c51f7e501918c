"""C13: adaptation follows the robust adaptive Metropolis recursion."""
import math

import numpy as np
from common import require, sut
from hypothesis import strategies as st

import gens
import native
from native import D, P, arr

TECHNIQUE = 'the covariance recursion of the published algorithm, and matrix identities for the rank-one update'
RULE = ('adaptive steps on generated targets (dimension 1-30, any scale, temperature, target rate, number of adapting '
        'iterations up to 4000, parts of the space outside the support), proposal covariance compared with the recursion after every '
        'step and required constant after the last adapting iteration; rank-one updates and downdates of random factors '
        '(dimension 1-25, condition up to 1e8) compared with A +- vv\'; non-trivial when the covariance changed and the '
        'adaptation ended, or for an update of dimension 2 or more')
ASSUMPTIONS = ['target rate strictly between 0 and 1', 'downdates leave the matrix positive definite']
CHUNK = 80
EPS = 2.2e-16


@st.composite
def _case(draw):
    if draw(st.booleans()):
        return dict(kind='chol', seed=draw(gens.seeds()), d=draw(st.sampled_from([3, 2, 4, 1, 5, 6, 8, 10, 12, 25])), down=draw(st.booleans()),
                    frac=draw(st.sampled_from([0.5, 0.1, 0.9, 0.99, 1e-6, 0.9999])), zeros=draw(st.booleans()),
                    cond=draw(st.sampled_from([0, 1, 2, 4])), scale=draw(st.sampled_from([0, 0, -6, 6, -12])))
    c = dict(kind='ram', seed=draw(gens.seeds()), d=draw(st.sampled_from([3, 2, 4, 1, 5, 6, 7, 8, 16, 30])), temp=draw(st.sampled_from([1.0, 1.0, 5.0, 100.0])),
                target=draw(st.sampled_from([0.25, 0.4, 0.05, 0.8, 0.234])), maxiter=draw(st.sampled_from([20, 0, 1, 2, 60, 150, 60, 150, 1200])),
                extra=draw(st.integers(1, 30)), scale=draw(st.sampled_from([0, 0, -3, 3, -8])), holes=draw(st.booleans()),
                unit=draw(st.sampled_from(['normal', 'student'])), flat=draw(st.sampled_from([False, False, True])),
                gamma=draw(st.sampled_from([None, None, 0.6, 1.0, 0.4])), retarget=draw(st.sampled_from([None, None, 0.1, 0.5])))
    if c['d'] <= 8 and draw(st.integers(0, 29)) == 0:
        c.update(maxiter=4000, gamma=None, flat=False)
    return c


def case(tier):
    return _case()


def run(c):
    native.seed(c['seed'])
    return chol(c) if c['kind'] == 'chol' else ram(c)


def chol(c):
    lib = native.lib()
    rs = np.random.RandomState(c['seed'])
    d = c['d']
    R = np.triu(rs.normal(size=(d, d)))
    sc = 10.0 ** (rs.uniform(-c['cond'], c['cond'], d) / 2 + c['scale'])
    for i in range(d):
        R[i, i] = abs(R[i, i]) + 0.5
    R = R * sc[None, :]          # scales of the coordinates
    u = rs.normal(size=d)
    u /= np.linalg.norm(u)
    if c['zeros']:
        u[rs.uniform(size=d) < 0.4] = 0.0
    v = math.sqrt(c['frac']) * (R.T @ u)
    if not c['down']:
        v = v * rs.choice([1.0, 10.0, 1e3, 1e-3])
    L = arr(R.copy())
    with sut('rank-one update'):
        native.chk(lib.fn_chol_update(d, P(L), P(arr(v)), int(c['down'])))
    require(np.all(np.isfinite(L)), 'the updated factor is not finite: %r', L)
    require(np.all(np.diag(L) > 0), 'the updated factor has diagonal %r', np.diag(L))
    require(np.allclose(np.tril(L, -1), 0, atol=0), 'the updated factor is not triangular')
    sgn = -1.0 if c['down'] else 1.0
    want = R.T @ R + sgn * np.outer(v, v)
    got = L.T @ L
    s = np.sqrt(np.diag(R.T @ R) + v * v)
    err = np.max(np.abs(got - want) / np.outer(s, s))
    amp = 1.0 / (1 - c['frac'] * float(u @ u)) if c['down'] else 1 + float(np.max(np.abs(v) / np.diag(R)))
    require(err <= 100 * d * EPS * amp, 'the factor of A %s vv\' is off by %.2g of the scale of A (d=%d)', '-' if c['down'] else '+',
            err, d)
    return dict(nontrivial=d >= 2, tags=['downdate' if c['down'] else 'update', 'd=%d' % d], counts=dict(updates=1))


def ram(c):
    lib = native.lib()
    rs = np.random.RandomState(c['seed'])
    d, T = c['d'], c['temp']
    sc = 10.0 ** c['scale'] * np.exp(rs.uniform(-2, 2, d))
    A = rs.normal(size=(d, d)) + 2 * np.eye(d)
    w = rs.normal(size=d)
    seen, us = [], []

    def f(x):
        z = x / sc
        if c['holes'] and math.sin(2 * float(z @ w)) > 0.6:
            return -math.inf
        y = A @ z
        return 0.0 if c['flat'] else -0.5 * float(y @ y)

    def logf(i, n, x):
        v = np.array(x[:n])
        seen.append(v)
        return f(v)

    def draw(i, n, a, b):
        z = float(rs.normal() if c['unit'] == 'normal' else rs.standard_t(8))
        us.append(z)
        b[0] = a[0] + z
    LOG, DR, QD = native.LOGF(logf), native.DRAW(draw), native.QDENS(lambda i, n, a, b: 0.0)
    B = rs.normal(size=(d, d)) + 2 * np.eye(d)
    C0 = (B @ B.T) * np.outer(sc, sc) * 0.1
    changed, ended, nupd = 0, 0, 0
    tags = ['ram', 'd=%d' % d, 'maxiter=%d' % c['maxiter']]
    with sut('adaptive Metropolis step'):
        x0 = np.zeros(d)
        par = native.ptr(lib.vpar_new(0, b'x', D(T), 0, LOG, d, P(arr(x0)), native.EVENT()))
        pr = native.ptr(lib.sprop_new(0, DR, QD))
        native.chk(lib.vpar_save(par, d, P(arr(x0))))
        s = native.ptr(lib.step_ram(par, pr, d, P(arr(C0)), D(c['target']), c['maxiter'], 0))
        if c['gamma']:
            lib.step_ram_decay(s, D(c['gamma']))
        gamma = c['gamma'] or 2.0 / 3
        old = np.full((d, d), np.nan)
        native.chk(lib.step_ram_covar(s, P(old)))
        require(np.max(np.abs(old - C0) / np.outer(sc, sc)) <= 1e-12 * np.max(np.abs(C0) / np.outer(sc, sc)),
                'the initial proposal covariance is not the one given')
        cur = x0
        v = np.full(d, np.nan)
        target = c['target']
        for i in range(c['maxiter'] + c['extra']):
            if c.get('retarget') and i == c['maxiter'] // 2:
                target = c['retarget']
                lib.step_ram_target(s, D(target))
            del seen[:], us[:]
            native.chk(lib.step_do(s, 1))
            native.chk(lib.vpar_value(par, P(v)))
            new = [x for x in seen if not np.array_equal(x, cur)]
            require(len(new) > 0 and len(us) == d, 'step %d evaluates no proposal', i)
            x = new[0] - cur
            cov = np.full((d, d), np.nan)
            native.chk(lib.step_ram_covar(s, P(cov)))
            alpha = f(new[0])
            alpha = 0.0 if alpha == -math.inf else min(1.0, math.exp(min((alpha - f(cur)) / T, 0.0)))
            un2 = float(np.sum(np.square(us)))
            big = np.sqrt(np.diag(old))
            Cn = old / np.outer(big, big)
            xn = x / big
            # the standardized proposal: x = Lu with LL' the covariance
            m = float(xn @ np.linalg.solve(Cn, xn))
            cond = np.linalg.cond(Cn)
            ptol = 1e3 * EPS * cond + 1e-9 + 8 * EPS * cond * float(np.sum(np.abs(new[0] / big))) / max(np.linalg.norm(xn), 1e-300)
            if ptol < 1e-3:
                require(abs(m - un2) <= ptol * un2, 'step %d: proposal of squared length %.6g in the metric of the covariance, '
                        'drawn with %.6g', i, m, un2)
            if i >= c['maxiter']:
                require(np.array_equal(cov, old), 'step %d changed the proposal covariance after the %d adapting iterations', i,
                        c['maxiter'])
                ended += 1
            else:
                require(np.allclose(cov, cov.T, rtol=1e-12, atol=0), 'the covariance is not symmetric')
                sc2 = np.sqrt(np.diag(cov))
                require(np.all(np.isfinite(cov)) and np.all(np.diag(cov) > 0), 'step %d: the proposal covariance has variances %r', i,
                        np.diag(cov))
                low = float(np.linalg.eigvalsh(cov / np.outer(sc2, sc2))[0])
                require(low > (0 if cond < 1e12 else -100 * d * EPS), 'step %d: the proposal covariance is not positive definite', i)
                if low < 1e-13:
                    # many adapting iterations can make the covariance singular to rounding: nothing further can be told
                    tags.append('singular')
                    break
                # cov - old = eta (alpha - target) x x' / |u|^2 : eta from the projection, residual must vanish
                rank1 = np.outer(xn, xn) / un2
                diff = (cov - old) / np.outer(big, big)
                lo, hi = min(1.0, d / (i + 1.0) ** gamma), min(1.0, d / float(i) ** gamma) if i else 1.0
                k = alpha - target
                tol = 1e3 * d * EPS * cond
                n2 = float(np.sum(rank1 * rank1))
                if n2 > 0 and tol < 1e-6:
                    eta = float(np.sum(diff * rank1)) / n2
                    require(np.max(np.abs(diff - eta * rank1)) <= tol + 1e-8 * abs(eta) * np.max(np.abs(rank1)),
                            'step %d: the change of the covariance is not along the proposal', i)
                    if abs(k) * np.max(np.abs(rank1)) > 1e4 * tol and abs(k) > 1e-6:
                        eta /= k
                        et = 1e-6 + 10 * tol / (abs(k) * np.max(np.abs(rank1)))
                        if i < c['maxiter'] - 1 or eta != 0:
                            require(lo - et <= eta <= hi + et, 'step %d (acceptance probability %.4g, target %.4g): step size %.6g, '
                                    'expected between %.6g and %.6g', i, alpha, target, eta, lo, hi)
                            changed += 1
                    nupd += 1
            old = cov
            cur = v.copy()
        lib.step_free_ram(s)
        lib.vpar_free(par)
        lib.sprop_free(pr)
    return dict(nontrivial=changed > 0 and ended > 0, tags=tags,
                counts=dict(updates=nupd, steps=i + 1))
