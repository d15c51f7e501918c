"""C02: the filter's means and variances are the exact one-step-ahead ones."""
import numpy as np
from common import Violation, require, sut
from hypothesis import strategies as st

import blocks
import gens
import native
import oracle

TECHNIQUE = 'filter output against sequential conditioning of the dense covariance in 80-bit arithmetic'
RULE = ('a generated series (2..40 points, up to 1100/2200 in some, blocks of 3..40 separated by long gaps up to 12000 in one case of ten; six sampling patterns, units from 1e-6 '
        'to 1e5), a generated stable CARMA(p,q) with p<=8, and one of six ways to build the filter; non-trivial when '
        'p>=2 or n>=3 and the conditioning bound of the case gives a tolerance below 1e-4; one case in five asks a model '
        'object of any class for the means and variances of the parameter vector it holds, after up to two others')
ASSUMPTIONS = ['autoregressive roots are distinct (relative separation at least 1e-2) and stable',
               'tolerance 1e5 * eps * (cancellation of the eigenbasis) * k(0)/smallest one-step variance']
CHUNK = 80


@st.composite
def _model(draw, big, long):
    c = draw(gens.data(3, 40, big=big, long=long))
    kind, p, q = draw(gens.model_order(8))
    rs = np.random.RandomState(draw(gens.seeds()))
    th = [gens.make_theta(rs, kind, p, q, c['t'], c['y']) for _ in range(draw(st.integers(1, 3)))]
    c.update(kind=kind, p=p, q=q, theta=[x for x in th if x is not None])
    return c


@st.composite
def _case(draw, big, long):
    if draw(st.integers(0, 4)) == 0:
        return draw(_model(big, long))
    c = draw(gens.series_and_process(2, 40, pmax=8, big=big, long=long))
    p = len(c['proc']['roots'])
    if 2 < len(c['t']) <= 40 and draw(st.integers(0, 9)) == 0:
        b = draw(blocks.blocks(c['t'], gens.croots(c['proc']), gens.stationary_sd(c['proc']) or 1.0))
        if b:
            c.update(blocks=b, t=[], y=[], e=[])
    c['via'] = draw(st.sampled_from(['py', 'shim0', 'shim1', 'shim2', 'shim3']))
    # moving-average vectors shorter than p mean trailing zeros; padding must not matter
    c['pad'] = draw(st.integers(0, p - len(c['proc']['ma'])))
    c['rev'] = draw(st.booleans())
    return c


def case(tier):
    return _case(120, 1100) if tier == 'quick' else _case(250, 2200)


def build(c, roots, ma, t, y, e):
    car1 = len(roots) == 1
    if c['via'] == 'py':
        return native.PyFilter(t, y, e, c['proc']['sigsqr'], roots, ma, car1=car1)
    return native.Filter(t, y, e, c['proc']['sigsqr'], roots, ma, car1=car1, how=int(c['via'][-1]))


def run_model(c):
    t, y, e = map(np.array, (c['t'], c['y'], c['e']))
    tags = [c['kind'], 'p=%d' % c['p'], 'model']
    good = False
    with sut('the model'):
        model = native.Model(c['kind'], t, y, e, c['p'], c['q'])
    for x in c['theta']:
        with sut('the model'):
            model.save(x)
            m, v = model.kalman(len(t))
        proc = oracle.theta_process(c['kind'], c['p'], c['q'], x, t)
        try:
            m0, v0, z0 = oracle.onestep(proc, t, y - oracle.LD(x[2]), e * np.sqrt(oracle.LD(x[1])))
        except ValueError:
            continue
        tol = oracle.rel_tol(proc, t, float(v0.min()), e=e * np.sqrt(x[1]))
        if not tol < 1e-3:
            continue
        sd = np.sqrt(v0)
        off = 10 * np.finfo(float).eps * (float(np.max(np.abs(y))) + abs(x[2])) / float(sd.min())
        zmax = 1.0 + float(np.max(np.abs(z0)))
        ev = float(np.max(np.abs(v - v0) / v0))
        em = float(np.max(np.abs(m - (m0 + oracle.LD(x[2]))) / sd)) / zmax
        require(ev <= tol, '%s(%d,%d) model: one-step variance wrong, relative error %.3g (tolerance %.1g)', c['kind'],
                c['p'], c['q'], ev, tol)
        require(em <= tol + off, '%s(%d,%d) model with mean %r: one-step mean wrong, error %.3g standard deviations '
                '(tolerance %.1g)', c['kind'], c['p'], c['q'], x[2], em, (tol + off) * zmax)
        good |= tol < 1e-4
    return dict(nontrivial=good, tags=tags)


def run(c):
    if 'kind' in c:
        return run_model(c)
    roots = gens.croots(c['proc'])
    if c['rev']:
        roots = roots[::-1]
    ma = list(c['proc']['ma']) + [0.0] * c['pad']
    t, y, e = map(np.array, (c['t'], c['y'], c['e']))
    if 'blocks' in c:
        t, y, e, tb, Y, eb = blocks.expand(c['blocks'])
    proc = oracle.Process(c['proc']['sigsqr'], roots, c['proc']['ma'])
    with sut('the filter'):
        f = build(c, roots, ma, t, y, e)
        m, v = f.filter()
        f.close()
    n = len(t)
    tags = ['p=%d' % len(roots), 'q=%d' % (len(c['proc']['ma']) - 1), c['via'], 'blocks' if 'blocks' in c else 'n>=200' if n >= 200 else 'n>=60' if n >= 60 else 'n<60']
    require(len(m) == n and len(v) == n, 'the filter reports %d means and %d variances for %d measurements', len(m),
            len(v), n)
    try:
        m0, v0, z0 = ([x.ravel() for x in blocks.onestep(proc, tb, Y, eb)] if 'blocks' in c else oracle.onestep(proc, t, y, e))
    except ValueError:
        return dict(nontrivial=False, tags=tags + ['singular'])
    vmin = float(v0.min())
    tol = oracle.rel_tol(proc, t, vmin, e=e)
    if not tol < 1e-3:
        return dict(nontrivial=False, tags=tags + ['ill-conditioned'])
    zmax = 1.0 + float(np.max(np.abs(z0)))
    ev = np.max(np.abs(v - v0) / v0)
    em = np.max(np.abs(m - m0) / np.sqrt(v0)) / zmax
    require(ev <= tol, 'one-step variance wrong: relative error %.3g (tolerance %.1g)', float(ev), tol)
    require(em <= tol, 'one-step mean wrong: error %.3g standard deviations (tolerance %.1g)', float(em), tol * zmax)
    return dict(nontrivial=tol < 1e-4 and (len(roots) > 1 or n > 2), tags=tags)
