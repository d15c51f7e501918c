"""C10: MCMC output is complete, inside the prior and self-consistent."""
import math

import numpy as np
from common import require, sut
from hypothesis import strategies as st

import gens
import native
import oracle

TECHNIQUE = 'a posteriori validation of every stored draw against the documented support and the exact log posterior'
RULE = ('a generated series, order (p=1..8, any q, ZCAR), number of chains 1-20, burn-in up to 700, thinning up to 25, sample size up to 1500 and starting '
        'value (none, valid, wrong length); run through the native drivers or the Python package; each stored sample is '
        'checked for its length, the prior support (50-digit arithmetic) and its stored log posterior; non-trivial when '
        'the chain moved at least once')
ASSUMPTIONS = ['at least 3 distinct times, values not all equal', 'supplied starting values lie in the prior support']
CHUNK = 20


@st.composite
def _case(draw):
    c = draw(gens.data(3, 25, big=120, long=400))
    if draw(st.integers(0, 4)) == 0:
        off = draw(st.sampled_from([1e4, -1e6, 1e9])) * float(np.std(c['y']))
        c['y'] = [float(v + off) for v in c['y']]
    kind, p, q = draw(gens.model_order(8, kinds=('CARMA', 'CARp', 'CAR1', 'ZCAR')))
    api = 'native' if kind == 'ZCAR' else draw(st.sampled_from(['native', 'lib', 'python']))
    init = draw(st.sampled_from(['none', 'none', 'valid', 'wrong']))
    rs = np.random.RandomState(draw(gens.seeds()))
    iv = []
    if init == 'valid':
        iv = gens.make_theta(rs, kind, p, q, c['t'], c['y'])
        if iv is None:
            iv, init = [], 'none'
    elif init == 'wrong':
        iv = [0.5] * (native.ntheta(kind, p, q) + draw(st.sampled_from([-1, 1, 2])))
    c.update(kind=kind, p=p, q=q, api=api, init=init, iv=iv, seed=draw(gens.seeds()), n=draw(st.integers(1, 25)) if draw(st.integers(0, 7)) else draw(st.sampled_from([400, 400, 1500])),
             burn=draw(st.sampled_from([20, 0, 1, 5, 60, 150, 150, 700])), nwalk=draw(st.sampled_from([2, 1, 3, 5, 8, 12, 20])),
             thin=draw(st.sampled_from([1, 2, 5, 1, 2, 5, 25])))
    return c


def case(tier):
    return _case()


def run(c):
    native.seed(c['seed'])
    t, y, e = map(np.array, (c['t'], c['y'], c['e']))
    kind, p, q, n = c['kind'], c['p'], c['q'], c['n']
    d = native.ntheta(kind, p, q)
    with sut('the sampler'):
        if c['api'] == 'native':
            m = native.run_sampler(t, y, e, p, q, n, c['burn'], c['nwalk'], c['thin'], c['iv'], kind == 'ZCAR')
            require(m.temperature() == 1.0, 'the returned chain has temperature %r', m.temperature())
            x, lp = m.samples()
            m.close()
        else:
            import carmcmc._carmcmc as L
            iv = native.vecD(c['iv'])
            if c['api'] == 'lib':
                tv, yv, ev = native.vecD(t), native.vecD(y), native.vecD(e)
                if p == 1:
                    s = L.run_mcmc_car1(n, c['burn'], tv, yv, ev, c['thin'], iv)
                else:
                    s = L.run_mcmc_carma(n, c['burn'], tv, yv, ev, p, q, c['nwalk'], False, c['thin'], iv)
                x, lp = np.array([list(v) for v in s.getSamples()]), np.array(s.GetLogLikes())
                for i in range(len(x)):
                    v = s.getLogDensity(native.vecD(x[i]))
                    require(abs(v - lp[i]) <= 1e-9 * (1 + abs(v)), 'sample %d: stored log posterior %.15g, the returned object '
                            'gives %.15g', i, lp[i], v)
            else:
                cm = native.carmcmc()
                mod = cm.CarmaModel(t, y, e, p=p, q=q)
                s = mod.run_mcmc(n, nburnin=c['burn'], ntemperatures=c['nwalk'], nthin=c['thin'], init=iv)
                require(mod.mcmc_sample is s, 'the sample is not stored in the model')
                lp = np.asarray(s.get_samples('logpost')).ravel()
                x = None
                for name in ('var', 'mu', 'measerr_scale'):
                    v = np.asarray(s.get_samples(name))
                    require(v.shape[0] == n, '%d values of %s for %d samples', v.shape[0], name, n)
                sd = np.sqrt(np.asarray(s.get_samples('var')).ravel())
                sc = np.asarray(s.get_samples('measerr_scale')).ravel()
                mu = np.asarray(s.get_samples('mu')).ravel()
                if p == 1:
                    coef = np.asarray(s.get_samples('log_omega')).reshape(n, -1)
                else:
                    coef = np.asarray(s.get_samples('quad_coefs')).reshape(n, -1)
                    coef = np.log(coef)
                x = np.column_stack([sd, sc, mu, coef])
    require(len(lp) == n and len(x) == n, '%d samples and %d log posteriors instead of %d', len(x), len(lp), n)
    full = c['api'] != 'python' or q == 0
    require(x.shape[1] == d or not full, 'samples of %d values for %d parameters', x.shape[1], d)
    with sut('the model'):
        m = native.Model(kind, t, y, e, p, q)
        dens = [m.logdens(v) for v in x] if full else None
        m.close()
    rt = 1e-7 if c['api'] == 'python' else 1e-9     # the package keeps variances and coefficients, not the parameters
    checked = 0
    done = {}
    for i in range(n):
        require(math.isfinite(lp[i]), 'sample %d: stored log posterior %r', i, lp[i])
        key = tuple(x[i])
        if key in done:
            require(not full or abs(lp[i] - done[key]) <= 1e-9 * (1 + abs(lp[i])), 'one value with two log posteriors')
            continue
        done[key] = lp[i]
        if len(done) > 300 and i % 7:
            continue
        ins = oracle.in_support(kind, p, [float(v) for v in x[i]], c['t'], c['y'])
        require(ins is not False, 'sample %d is outside the prior support: %r', i, list(x[i]))
        if full:
            if c['api'] != 'python':
                require(abs(dens[i] - lp[i]) <= rt * (1 + abs(lp[i])), 'sample %d: stored log posterior %.15g, log density there %.15g',
                        i, lp[i], dens[i])
            if checked < 6:
                v, tol, _ = oracle.logpost(kind, p, q, [float(u) for u in x[i]], t, y, e)
                if tol < 1e-2:
                    require(abs(v - lp[i]) <= tol + (1e-6 * (1 + abs(v)) if c['api'] == 'python' else 0),
                            'sample %d: stored log posterior %.15g, exact %.15g', i, lp[i], v)
                    checked += 1
    return dict(nontrivial=len(done) > 1 or n == 1, tags=[kind, c['api'], 'init=' + c['init'], 'nwalk=%d' % c['nwalk'],
                'moved' if len(done) > 1 else 'fixed'], counts=dict(samples=n, distinct=len(done), exact=checked))
