"""C01: the model log density is the exact Gaussian log-posterior."""
import numpy as np
from common import require, sut
from hypothesis import strategies as st

import blocks
import gens
import native
import oracle

TECHNIQUE = 'log densities against dense multivariate-normal log-likelihoods in 80-bit arithmetic, over sequences of evaluations'
RULE = ('a generated series (up to 1100 points in the quick tier, 2200 in the thorough one; in one case of ten blocks separated by long gaps, up to 12000 points), a model class (CAR1, CARp, '
        'CARMA, ZCAR, ZCARMA; p<=8, all q) built natively or through the Python extension, and 1..4 parameter vectors '
        'inside the prior support evaluated one after the other on the same object (some equal to, near to or sharing '
        'part of an earlier one, some separated by out-of-support vectors); non-trivial when at least one vector has an absolute '
        'tolerance below 1e-3 on its log density')
ASSUMPTIONS = ['strictly increasing times, at least 3 points, non-constant series',
               'tolerance from the conditioning of the eigenbasis, see lib/oracle.py rel_tol/logpost']
CHUNK = 150


def related(draw, rs, kind, p, c, th):
    """A vector that shares part of an earlier one, or None."""
    how = draw(st.sampled_from(['new', 'new', 'again', 'some', 'some', 'near', 'block']))
    if how == 'new':
        return None
    x = list(th[draw(st.integers(0, len(th) - 1))])
    x[1] = min(x[1], 1.9)
    if how == 'some':                 # other values of some of the coordinates that are not roots
        sd = float(np.std(c['y']))
        free = [0, 1, 2] + list(range(3 + p, len(x)))
        for i in draw(st.lists(st.sampled_from(free), min_size=1, max_size=3, unique=True)):
            x[i] = float(x[i] * rs.uniform(0.5, 0.95) if i == 0 else rs.uniform(0.52, 1.98) if i == 1 else
                         x[i] + sd * rs.normal() if i == 2 else x[i] + rs.normal())
    elif how == 'near':               # a small step, as the sampler takes them
        k = 10.0 ** rs.uniform(-5, -1)
        for i in range(len(x)):
            if i != 1 and rs.uniform() < 0.5:
                x[i] = float(x[i] * (1 - k * rs.uniform()) if i == 0 else
                             x[i] + k * rs.normal() * (float(np.std(c['y'])) if i == 2 else 1.0))
    elif how == 'block':              # other roots, everything else kept
        z = gens.make_theta(rs, kind, p, 0, c['t'], c['y']) if kind != 'CAR1' else None
        if z is None:
            return None
        x[3:3 + p] = z[3:3 + p]
    return x if oracle.in_support(kind, p, x, c['t'], c['y']) else None


def model_roots(kind, p, x):
    if kind == 'CAR1':
        return [complex(-np.exp(x[3]))]
    return [complex(r) for r in oracle.factor_roots(x[3:3 + p])]


@st.composite
def _case(draw, big, long):
    c = draw(gens.data(3, 30, big=big, zero=True, long=long))
    kind, p, q = draw(gens.model_order(8))
    rs = np.random.RandomState(draw(gens.seeds()))
    th = []
    for _ in range(draw(st.integers(1, 4))):
        x = None
        if th:
            x = related(draw, rs, kind, p, c, th)
        if x is None:
            x = gens.make_theta(rs, kind, p, q, c['t'], c['y'], resolved=draw(st.booleans()))
        if x is not None:
            th.append(x)
            if draw(st.integers(0, 4)) == 0:      # an out-of-support vector in between
                b = list(x)
                b[1] = 2.5
                th.append(b)
    via = 'shim'
    if kind in ('CAR1', 'CARp', 'CARMA'):
        via = draw(st.sampled_from(['py', 'shim', 'shim-get']))
    c.update(kind=kind, p=p, q=q, theta=th, via=via)
    if th and kind[0] != 'Z' and len(c['t']) <= 30 and draw(st.integers(0, 9)) == 0:
        y = np.array(c['y'])
        roots = np.concatenate([gens.croots(dict(roots=[[r.real, r.imag] for r in model_roots(kind, p, x)])) for x in th])
        b = draw(blocks.blocks(c['t'], roots, float(np.std(y)), float(np.mean(y))))
        if b:
            t, y, _, _, _, _ = blocks.expand(b)
            th = [x for x in th if x[1] > 2 or oracle.in_support(kind, p, x, t, y)]
            c.update(blocks=b, t=[], y=[], e=[], theta=th)
    return c


def case(tier):
    return _case(100, 1100) if tier == 'quick' else _case(200, 2200)


def density(c, t, y, e):
    if c['via'] == 'py':
        import carmcmc._carmcmc as L
        a = (True, 'm', native.vecD(t), native.vecD(y), native.vecD(e))
        m = {'CAR1': lambda: L.CAR1(*a), 'CARp': lambda: L.CARp(*a, c['p']),
             'CARMA': lambda: L.CARMA(*a, c['p'], c['q'])}[c['kind']]()
        return lambda x: m.getLogDensity(native.vecD(x))
    m = native.Model(c['kind'], t, y, e, c['p'], c['q'])
    if c['via'] == 'shim':
        return lambda x: m.logdens(x)
    return lambda x: m.getlogdens(x)


def block_logpost(c, x, tb, Y, eb):
    # the first block with the prior, and the log-likelihoods of the others
    proc = oracle.theta_process(c['kind'], c['p'], c['q'], x, tb)
    want, tol, _ = oracle.logpost(c['kind'], c['p'], c['q'], x, tb, Y[0], eb)
    if want is None:
        return None, np.inf
    m, v, z = blocks.onestep(proc, tb, Y[1:] - oracle.LD(x[2]), eb * np.sqrt(oracle.LD(x[1])))
    ll = -oracle.LD(0.5) * (np.sum(np.log(v)) + np.sum(z * z))
    vmin = float(v.min())
    off = 10 * oracle.EPS * (float(np.max(np.abs(Y))) + abs(x[2])) / np.sqrt(vmin)
    tol += (oracle.rel_tol(proc, tb, vmin, e=eb * np.sqrt(x[1])) + off) * (v.size + float(np.sum(z * z))) + 1e-11 * (1 + abs(float(ll)))
    return float(want + ll), tol


def run(c):
    t, y, e = map(np.array, (c['t'], c['y'], c['e']))
    if 'blocks' in c:
        t, y, e, tb, Y, eb = blocks.expand(c['blocks'])
    with sut('the model'):
        f = density(c, t, y, e)
        got = [f(x) for x in c['theta']]
    good = 0
    tags = [c['kind'], 'p=%d' % c['p'], c['via']] + (['blocks'] if 'blocks' in c else [])
    for x, v in zip(c['theta'], got):
        if x[1] > 2:
            require(v == -np.inf, 'log density %r outside the prior support', v)
            continue
        if 'blocks' in c:
            want, tol = block_logpost(c, x, tb, Y, eb)
        else:
            want, tol, _ = oracle.logpost(c['kind'], c['p'], c['q'], x, t, y, e)
        if want is None or not tol < 1e-2:
            tags.append('ill-conditioned')
            continue
        require(np.isfinite(v) and abs(v - want) <= tol,
                'log density of a %s(%d,%d) model at %r is %.15g, exact value %.15g (tolerance %.1g)', c['kind'], c['p'],
                c['q'], x, v, want, tol)
        good += bool(tol < 1e-3)
    return dict(nontrivial=good > 0, tags=tags, counts=dict(densities=good))
