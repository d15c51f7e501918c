"""C16: random variates follow their documented laws and seeds replay."""
import ctypes as C
import math
import os
import tempfile

import numpy as np
from common import PMIN, binom_bad, ks_bad, normal_bad, require, sut
from hypothesis import strategies as st

import fresh
import gens
import native
from native import P, arr

TECHNIQUE = 'Kolmogorov-Smirnov and binomial tests against closed-form laws, and replay of whole streams'
NAMES = ['exponential', 'normal', 'log-normal', 'uniform', 'integer uniform', 'power law', 'Student t', 'chi-square',
         'scaled inverse chi-square', 'gamma', 'inverse gamma']
RULE = ('one of the eleven scalar laws or the multivariate normal with generated parameters (several decades), 3000-300000 draws '
        '(quick), some with draws of other laws or parameters in between, tested against the exact law (rejected below 1e-12), '
        'with their moments of order in adjacent draws; generated mixed sequences of draws, seeds, saved and recovered '
        'generator states whose streams must repeat; and whole sampler runs, after 0-4 other runs, that must repeat each other '
        'and a run in a fresh process; non-trivial when the law is not degenerate (always for streams of 2 or more draws)')
ASSUMPTIONS = ['power-law slopes are -1 or at least 1e-3 away from -1', 'covariances are positive definite']
CHUNK = 30


def pars(draw, k):
    rs = np.random.RandomState(draw(gens.seeds()))
    dec = draw(st.sampled_from([0.5, 2.0, 5.0]))
    e = lambda: float(10 ** rs.uniform(-dec, dec))
    if k == 0:
        return [e()]
    if k in (1, 2):
        return [float(rs.normal() * (e() if k == 1 else 1)), e() if k == 1 else float(10 ** rs.uniform(-2, 0.5))]
    if k == 3:
        a = float(rs.normal() * e())
        return [a, a + e()]
    if k == 4:
        if draw(st.integers(0, 3)) == 0:       # up to the whole range of the type
            return draw(st.sampled_from([[-2 ** 31, 2 ** 31 - 1], [0, 2 ** 31 - 1], [-2 ** 31, -1], [-2 ** 30, 2 ** 30 + 5],
                                         [1, 10 ** 9], [2 ** 31 - 5, 2 ** 31 - 1], [-2 ** 31, -2 ** 31 + 2]]))
        a = int(rs.randint(-50, 50))
        return [a, a + int(draw(st.sampled_from([1, 0, 2, 5, 9, 50, 1000])))]
    if k == 5:
        lo = e()
        s = draw(st.sampled_from([-0.5, -1.0, -2.0, 0.0, 1.0, 3.0, -3.0, -1.001, -0.99, -1.5, -1.03, -0.9, -5.0, -8.0, 6.0, 0.5]))
        return [lo, lo * (1 + float(10 ** rs.uniform(-1, 7 if abs(s + 1) <= 0.1 else 2))), s]
    if k == 6:
        return [float(draw(st.sampled_from([8.0, 1.0, 2.0, 3.5, 30.0, 0.7, 50.0, 0.5, 200.0]))), float(rs.normal() * e()), e()]
    if k == 7:
        return [draw(st.sampled_from([1, 2, 3, 10, 50, 200, 1000]))]
    if k == 8:
        return [draw(st.sampled_from([1, 2, 3, 10, 50, 200, 1000])), e()]
    return [float(10 ** rs.uniform(-1.0, draw(st.sampled_from([1.0, 1.0, 2.5])))), e()]


def between(draw, k, par):
    """Draws that come before and between the tested ones: of other laws, or of this law with some parameters changed."""
    out = []
    for _ in range(draw(st.integers(0, 3))):
        n = draw(st.sampled_from([1, 2, 3, 8]))
        j = draw(st.sampled_from(['own', 'own', 'mvn'] + list(range(11))))
        if j == 'mvn':
            out.append([j, draw(st.sampled_from([1, 2, 4])), n])
            continue
        j = k if j == 'own' and k is not None else 1 if j == 'own' else j
        o = pars(draw, j)
        if j == k:
            keep = draw(st.lists(st.booleans(), min_size=len(o), max_size=len(o)))
            o = [a if f else b for a, b, f in zip(par, o, keep)]
            if k in (3, 4, 5) and not o[0] < o[1]:
                o = par
        out.append([j, o, n])
    return out


@st.composite
def _case(draw, tier):
    kind = draw(st.sampled_from(['law', 'law', 'law', 'mvn', 'stream', 'stream', 'chain']))
    if kind == 'chain':
        c = draw(gens.data(3, 15, big=60))
        k, p, q = draw(gens.model_order(5, kinds=('CARMA', 'CARp', 'CAR1', 'ZCAR')))
        rs = np.random.RandomState(draw(gens.seeds()))
        runs = []                             # earlier runs share some settings with the last one
        for i in range(1 + draw(st.integers(0, 3))):
            k2, p2, q2 = (k, p, q) if draw(st.booleans()) else draw(gens.model_order(5, kinds=('CARMA', 'CARp', 'CAR1', 'ZCAR')))
            init = draw(st.sampled_from(['none', 'none', 'good', 'short']))
            th = gens.make_theta(rs, k2, p2, q2, c['t'], c['y']) if init != 'none' else None
            runs.append(dict(p=p2, q=q2, z=k2 == 'ZCAR', n=draw(st.integers(1, 8)), burn=draw(st.sampled_from([15, 0, 40])),
                             nwalk=draw(st.integers(1, 6)), thin=draw(st.integers(1, 3)),
                             init=[] if th is None else [float(x) for x in th][:None if init == 'good' else -1],
                             scale=draw(st.sampled_from([0.0, 0.0, 100.0]))))
        runs.append(dict(runs[0], p=p, q=q, z=k == 'ZCAR', init=[], scale=0.0))
        if runs[0]['init'] and draw(st.booleans()):   # a supplied value of a wrong length, or the same value again
            x = runs[0]
            runs[-1].update(p=x['p'], q=x['q'], z=x['z'], init=x['init'][:draw(st.sampled_from([None, -1, 1]))])
        c.update(kind=kind, model=k, seed=draw(gens.seeds()), runs=runs, how=draw(st.sampled_from(['seed', 'file'])))
        return c
    if kind == 'law':
        k = draw(st.sampled_from([1, 6, 5, 0, 2, 3, 4, 7, 8, 9, 10]))
        par = pars(draw, k)
        return dict(kind=kind, seed=draw(gens.seeds()), law=k, par=par, between=between(draw, k, par),
                    n=draw(st.sampled_from([60000, 3000, 300000] if tier == 'quick' else [400000, 20000, 2000000])))
    if kind == 'mvn':
        return dict(kind=kind, seed=draw(gens.seeds()), d=draw(st.sampled_from([2, 3, 1, 4, 6, 9, 12])), dec=draw(st.sampled_from([0, 1, 3])),
                    n=15000 if tier == 'quick' else 60000,
                    before=draw(st.lists(st.sampled_from(['diagonal', 'corner', 'size', 'order']), max_size=3)),
                    between=between(draw, None, None))
    ops = draw(st.lists(st.one_of(st.tuples(st.integers(0, 10), st.integers(1, 5)), st.tuples(st.just('mvn'), st.integers(1, 3))),
                        min_size=1, max_size=12))
    pre = draw(st.lists(st.tuples(st.integers(0, 10), st.integers(1, 3)), max_size=4))
    ps = [pars(draw, k) for k in range(11)]
    return dict(kind=kind, seed=draw(st.one_of(gens.seeds(), st.integers(0, 2 ** 32 - 1), st.sampled_from([0, 1, 2]))), ops=[list(x) for x in ops],
                pre=[list(x) for x in pre], pars=ps, how=draw(st.sampled_from(['seed', 'file', 'file2', 'over'])), seed2=draw(gens.seeds()),
                bit=draw(st.integers(0, 31)))


def case(tier):
    return _case(tier)


def draws(k, par, n):
    out = np.full(n, np.nan)
    native.chk(native.lib().rng_draw(int(k), P(arr(par)), n, P(out)))
    return out


def interlude(ops):
    for k, o, n in ops:
        if k == 'mvn':
            V, x = np.eye(o) + 0.3, np.empty((n, o))
            native.chk(native.lib().rng_mvn(o, P(arr(V)), n, P(x)))
        else:
            draws(k, o, n)


def setseed(s):
    native.lib().rng_set_seed(C.c_ulong(int(s)))


def cdf(k, p):
    import scipy.stats as ss
    if k == 0:
        return ss.expon(scale=1 / p[0]).cdf
    if k == 1:
        return ss.norm(p[0], p[1]).cdf
    if k == 2:
        return lambda x: ss.norm.cdf((np.log(x) - p[0]) / p[1])
    if k == 3:
        return lambda x: (x - p[0]) / (p[1] - p[0])
    if k == 5:
        lo, hi, s = p
        if s == -1:
            return lambda x: np.log(x / lo) / math.log(hi / lo)
        return lambda x: np.expm1((s + 1) * np.log(x / lo)) / np.expm1((s + 1) * math.log(hi / lo))
    if k == 6:
        return lambda x: ss.t(p[0]).cdf((x - p[1]) / p[2])
    if k == 7:
        return ss.chi2(p[0]).cdf
    if k == 8:
        return lambda x: ss.chi2(p[0]).sf(p[0] * p[1] / x)
    if k == 9:
        return ss.gamma(p[0], scale=p[1]).cdf
    return lambda x: ss.gamma(p[0]).sf(p[1] / x)


def independent(u, what):
    """Adjacent draws: signs about the median agree half of the time."""
    b = np.asarray(u) > 0.5
    m = int(np.sum(b[::2][:len(b) // 2] == b[1::2][:len(b) // 2]))
    require(not binom_bad(m, len(b) // 2, 0.5), '%s: adjacent draws lie on the same side of the median %d times of %d', what, m,
            len(b) // 2)


def run(c):
    return dict(law=law, mvn=mvn, stream=stream, chain=chain)[c['kind']](c)


def law(c):
    k, p, n = c['law'], c['par'], c['n']
    with sut(NAMES[k]):
        setseed(c['seed'])
        x = []
        for i in range(4 if c['between'] else 1):
            interlude(c['between'])
            x.append(draws(k, p, n // 4 if c['between'] else n))
        x = np.concatenate(x)
    n = len(x)
    require(np.all(np.isfinite(x)), '%s%r draws %r', NAMES[k], tuple(p), x[~np.isfinite(x)][0] if not np.all(np.isfinite(x)) else 0)
    if k == 4:
        a, b = int(p[0]), int(p[1])
        require(np.all(x == np.round(x)) and x.min() >= a and x.max() <= b, 'integers outside [%d, %d]', a, b)
        m = b - a + 1
        if m > 1000:
            bad, d = ks_bad(x, lambda v: (v - a + 0.5) / m)
            require(not bad, '%d integers of [%d, %d] have KS distance %.4g from the uniform law', n, a, b, d)
            if m > 10 ** 8:
                odd = int(np.sum(x.astype(np.int64) % 2))
                require(not binom_bad(odd, n, ((b + 1) // 2 - a // 2) / m, PMIN),
                        'of %d integers of [%d, %d], %d are odd', n, a, b, odd)
            independent((x - a + 0.5) / m, NAMES[k])
        for v in range(a, min(b, a + 20) + 1):
            cnt = int(np.sum(x == v))
            require(not binom_bad(cnt, n, 1.0 / m, PMIN / 20), 'the integer %d of [%d, %d] is drawn %d times of %d', v, a, b, cnt, n)
        return dict(nontrivial=m > 1, tags=[NAMES[k]], counts=dict(draws=n))
    if k in (3, 5):
        lo, hi = p[0], p[1]
        slack = 1e-12 * (abs(lo) + abs(hi)) * (1 if k == 3 else 1000)
        require(x.min() >= lo - slack and x.max() <= hi + slack, '%s%r draws outside its bounds', NAMES[k], tuple(p))
    if k in (0, 2, 7, 8, 9, 10):
        require(x.min() >= 0, '%s%r draws a negative value', NAMES[k], tuple(p))
    F = cdf(k, p)
    bad, d = ks_bad(x, F)
    require(not bad, '%s%r: %d draws have KS distance %.4g from their law', NAMES[k], tuple(p), n, d)
    u = F(x)
    independent(u, NAMES[k])
    from scipy.special import ndtri
    bad = normal_bad(ndtri(np.clip(u, 1e-300, 1 - 1.2e-16)))
    require(bad is None, '%s%r: normal scores of the draws: %s', NAMES[k], tuple(p), bad)
    return dict(nontrivial=True, tags=[NAMES[k]], counts=dict(draws=n))


def covar(rs, d, dec):
    B = rs.normal(size=(d, d)) + np.eye(d)
    s = 10.0 ** rs.uniform(-dec, dec, d)
    return (B @ B.T + 0.1 * np.eye(d)) * np.outer(s, s)


def other(V, how):
    """Another covariance that has much in common with V."""
    d = len(V)
    if how == 'diagonal':                     # the same variances
        return np.diag(np.diag(V)) if d > 1 else 4.0 * V
    if how == 'corner':                       # the same leading block
        W = V.copy()
        W[-1, :] *= 0.5
        W[:, -1] *= 0.5
        return W
    if how == 'size':
        return np.eye(d + 1)
    return V[::-1, ::-1].copy()


def mvn(c):
    from scipy.special import ndtr
    rs = np.random.RandomState(c['seed'])
    d, n = c['d'], c['n']
    V = covar(rs, d, c['dec'])
    out = np.full((n, d), np.nan)
    with sut('multivariate normal'):
        setseed(c['seed'])
        for i in range(0, n, n // 4):
            for how in c['before']:
                W = other(V, how)
                o = np.full((2, len(W)), np.nan)
                native.chk(native.lib().rng_mvn(len(W), P(arr(W)), 2, P(o)))
            interlude(c['between'])
            native.chk(native.lib().rng_mvn(d, P(arr(V)), n // 4, P(out[i:i + n // 4])))
    s = np.sqrt(np.diag(V))
    # any linear combination is normal with variance a'Ca
    for j in range(d + 4):
        a = np.eye(d)[j] if j < d else rs.normal(size=d)
        a = a / s
        z = out @ a / math.sqrt(a @ V @ a)
        bad, dd = ks_bad(z, ndtr)
        require(not bad, 'a linear combination of the %d coordinates has KS distance %.4g from its normal law', d, dd)
    L = np.linalg.cholesky(V / np.outer(s, s))
    z = np.linalg.solve(L, (out / s).T)
    r2 = np.sum(z * z, axis=0)
    import scipy.stats as ss
    bad, dd = ks_bad(r2, ss.chi2(d).cdf)
    require(not bad, 'the squared length of the standardized vector has KS distance %.4g from chi-square(%d)', dd, d)
    for i in range(d):
        for j in range(i):
            m = int(np.sum((z[i] > 0) == (z[j] > 0)))
            require(not binom_bad(m, n, 0.5, PMIN / 30), 'standardized coordinates %d and %d have the same sign %d times of %d', i, j, m, n)
    return dict(nontrivial=True, tags=['mvn', 'd=%d' % d], counts=dict(draws=n))


def play(c, rs):
    out = []
    V = covar(rs, 3, 0)
    for k, n in c['ops']:
        if k == 'mvn':
            o = np.full((n, 3), np.nan)
            native.chk(native.lib().rng_mvn(3, P(arr(V)), n, P(o)))
            out.append(o.ravel())
        else:
            out.append(draws(k, c['pars'][k], n))
    return np.concatenate(out)


def stream(c):
    lib = native.lib()
    d = tempfile.mkdtemp(prefix='verif-rng-')
    f = os.path.join(d, 'seed.txt').encode()
    g = os.path.join(d, 'other.txt').encode()
    try:
        with sut('generator state'):
            setseed(c['seed'])
            for k, n in c['pre']:
                draws(k, c['pars'][k], n)
            mk = lambda: np.random.RandomState(c['seed2'])
            if c['how'] == 'over':            # the file holds an older state
                native.chk(lib.rng_save(f))
                play(c, mk())
            if c['how'] == 'seed':
                setseed(c['seed2'])
            else:
                native.chk(lib.rng_save(f))
            a = play(c, mk())
            if c['how'] == 'seed':
                setseed(c['seed2'])
                b = play(c, mk())
                setseed(c['seed2'] ^ (1 << c['bit']))
                o = play(c, mk())
            else:
                if c['how'] == 'file2':
                    native.chk(lib.rng_save(g))
                    a2 = play(c, mk())
                    native.chk(lib.rng_recover(g))
                    require(np.array_equal(a2, play(c, mk())), 'the stream after recovering a second state differs')
                setseed(c['seed2'])
                o = play(c, mk())
                native.chk(lib.rng_recover(f))
                b = play(c, mk())
    finally:
        for x in (f, g):
            if os.path.exists(x):
                os.unlink(x)
        os.rmdir(d)
    require(np.array_equal(a, b), 'the stream after %s differs: %r then %r', 'seeding again' if c['how'] == 'seed' else
            'recovering the saved state', list(a[:6]), list(b[:6]))
    if c['how'] == 'seed' and any(k != 4 for k, _ in c['ops']) and len(a) > 1:
        require(not np.array_equal(a, o), 'another seed gives the same stream')
    return dict(nontrivial=len(a) > 1, tags=['stream', c['how']], counts=dict(draws=len(a)))


def once(c, cfg, state):
    """One run of a sampler from the given seed or saved state: draws and log posteriors."""
    if state is not None:
        native.chk(native.lib().rng_recover(state.encode()))
    m = native.run_sampler(c['t'], c['y'], c['e'], cfg['p'], cfg['q'], cfg['n'], cfg['burn'], cfg['nwalk'], cfg['thin'], cfg['init'],
                           cfg['z'])
    x, lp = m.samples()
    m.close()
    return np.column_stack([x, lp])


def fresh_run(c, cfg, state):
    if state is None:
        setseed(c['seed'])
    return once(c, cfg, state)


def start():
    fresh.start(fresh_run)


def chain(c):
    """A whole run of the sampler is determined by the state of the generator."""
    main, state = c['runs'][-1], None
    with sut('the sampler'):
        if c['how'] == 'file':
            setseed(c['seed'])
            fd, state = tempfile.mkstemp(dir=os.environ.get('VERIF_RUNDIR'))
            os.close(fd)
            native.chk(native.lib().rng_save(state.encode()))
        try:
            a = once(c, main, state) if state else (setseed(c['seed']), once(c, main, None))[1]
            for cfg in c['runs'][:-1]:
                once(c if not cfg['scale'] else dict(c, y=[cfg['scale'] * v for v in c['y']]), cfg, None)
            if state is None:
                setseed(c['seed'])
            b = once(c, main, state)
            how, f = fresh.call(c, main, state)
        finally:
            if state:
                os.unlink(state)
    text = 'seed' if state is None else 'saved generator state'
    require(how == 'ok', 'the sampler in a fresh process: %s %s', how, f)
    require(a.shape == b.shape == f.shape and np.array_equal(a, b), 'two runs of the sampler from the same %s differ', text)
    require(np.array_equal(b, f), 'a run of the sampler and one in a fresh process from the same %s differ', text)
    return dict(nontrivial=len(set(map(tuple, a))) > 1 or main['n'] == 1, tags=['chain', c['model'], '%d earlier runs' % (len(c['runs']) - 1)],
                counts=dict(runs=3))
