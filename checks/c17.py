"""C17: derived quantities of posterior samples are those of the sampled parameters."""
import math

import mpmath as mp
import numpy as np
from common import require, sut
from hypothesis import strategies as st

import gens
import native
import oracle
import sample

TECHNIQUE = 'every derived quantity recomputed in 40-digit arithmetic from the parameter vector of the same draw'
RULE = ('a posterior sample object over 1-12 (some 80, or up to 4000 with repeats) generated draws (p=1..7, all q<p; real and complex roots, repeats, close or '
        'unrelated draws, or taken from an actual run); each stored quantity of each draw is compared with the exact one, the '
        'log-likelihood with log posterior minus log prior and with the exact likelihood, the DIC with its formula, and a '
        'maximum-likelihood estimate (constructor or add_mle, a fresh vector) likewise; non-trivial when the noise amplitude '
        'of at least half the draws could be judged')
ASSUMPTIONS = ['draws inside the prior support with roots separated by at least 1e-3']
CHUNK = 40
EPS = oracle.EPS


@st.composite
def _case(draw):
    c = draw(sample.posterior(7, 3, 15, 1, 12, big=60, long=300, many=80, tile=(500, 1500, 4000), sep=draw(st.sampled_from([1e-2, 1e-3, 0.1]))))
    c['source'] = draw(st.sampled_from(['made', 'made', 'made', 'run']))
    c['mle'] = draw(st.sampled_from(['add', 'ctor', 'none']))
    c['seed'] = draw(gens.seeds())
    return c


def case(tier):
    return _case()


def process_quantities(get, kind, p, q, th, t, what):
    """Compare get(name) -> 1-d array for one draw; returns True when sigma was judged."""
    def same(name, want, rtol):
        v = get(name)
        require(v.shape == (1,), '%s: %s has shape %r', what, name, v.shape)
        require(abs(v[0] - want) <= rtol * abs(want), '%s: %s is %.17g, should be %.17g', what, name, v[0], want)
    same('var', th[0] * th[0], 1e-14)
    same('measerr_scale', th[1], 0)
    same('mu', th[2], 0)
    R, MA = oracle.theta_parts(kind, p, q, th, t)
    if kind == 'CAR1' and get('log_omega') is not None:
        same('log_omega', th[3], 0)
        same('sigma', math.sqrt(2 * math.exp(th[3])) * abs(th[0]), 1e-12 * (1 + abs(th[3])))
        return True
    tol, amp = oracle.factor_tol(th[3:3 + p])
    roots = get('ar_roots')
    require(roots.shape == (p,), '%s: %d roots for p=%d', what, len(roots), p)
    left = list(range(p))
    for r, e in zip(R, tol):
        r = complex(r)
        k = min(left, key=lambda i: abs(roots[i] - r))
        require(abs(roots[k] - r) <= e, '%s: root %r should be %r (tolerance %.1g)', what, complex(roots[k]), r, e)
        left.remove(k)
    w, cen = get('psd_width'), get('psd_centroid')
    require(w.shape == (p,) and cen.shape == (p,), '%s: %d widths and %d centroids for p=%d', what, len(w), len(cen), p)
    for i in range(p):
        a, b = -roots[i].real / (2 * math.pi), abs(roots[i].imag) / (2 * math.pi)
        require(abs(w[i] - a) <= 1e-13 * abs(a), '%s: width %d is %.15g for the root %r', what, i, w[i], complex(roots[i]))
        require(abs(cen[i] - b) <= 1e-13 * abs(b), '%s: centroid %d is %.15g for the root %r', what, i, cen[i],
                complex(roots[i]))
    qc = get('quad_coefs')
    if qc is not None:
        require(qc.shape == (p,), '%s: %d factor coefficients', what, len(qc))
        for i in range(p):
            v = math.exp(th[3 + i])
            require(abs(qc[i] - v) <= 1e-14 * v, '%s: factor coefficient %d is %.15g, should be %.15g', what, i, qc[i], v)
    ar = get('ar_coefs')
    require(ar.shape == (p + 1,), '%s: %d autoregressive coefficients for p=%d', what, len(ar), p)
    ctol, _ = oracle.polytol(R, tol)
    for i, (a, b) in enumerate(zip(oracle.fullpoly(R), ctol)):
        require(abs(ar[i] - float(a)) <= b, '%s: autoregressive coefficient %d is %.15g, should be %.15g (tolerance %.1g)',
                what, i, ar[i], float(a), b)
    ma = get('ma_coefs')
    require(ma.shape == (q + 1,), '%s: %d moving-average coefficients for q=%d', what, len(ma), q)
    require(abs(ma[0] - 1) < 1e-12, '%s: constant moving-average coefficient %r', what, ma[0])
    matol = 0.0
    if q:
        MR = oracle.factor_roots(th[3 + p:])
        mt, mamp = oracle.factor_tol(th[3 + p:])
        ctol, rel = oracle.polytol(MR, mt)
        c0 = ctol[-1]
        if rel < 1e-3:
            for i in range(1, q + 1):
                b = ctol[q - i] / c0 * rel * 2
                require(abs(ma[i] - float(MA[i])) <= b, '%s: moving-average coefficient %d is %.15g, should be %.15g '
                        '(tolerance %.1g)', what, i, ma[i], float(MA[i]), b)
                matol = max(matol, b / abs(float(MA[i])))
        else:
            matol = 1.0
    proc = oracle.theta_process(kind, p, q, th, t)
    stol = oracle.noise_tol(proc, tol, matol)
    if not stol < 1e-3:
        return False
    same('sigma', math.sqrt(float(proc.sigsqr)), stol)
    return True


def run(c):
    kind, p, q, t, y, e = (c[k] for k in ('kind', 'p', 'q', 't', 'y', 'e'))
    native.seed(c['seed'])
    rs = np.random.RandomState(c['seed'])
    draws = sample.draws_of(c)
    if draws is None:
        return dict(nontrivial=False, tags=['no parameter vector'])
    if c['source'] == 'run' and not c.get('tile'):
        with sut('the sampler'):
            m = native.run_sampler(t, y, e, p, q, c['n'], 20, 2, 3, draws[0])
            x, lp = m.samples()
            m.close()
        draws, lps = [[float(v) for v in r] for r in x], [float(v) for v in lp]
    else:
        with sut('the model'):
            lps = sample.logposts(kind, t, y, e, p, q, draws)
        lps = [float(v) if math.isfinite(v) else float(-rs.uniform(0, 100)) for v in lps]
        if rs.uniform() < 0.3:       # any stored value must be passed on
            lps = [float(v) for v in rs.normal(size=len(lps)) * 50]
    n = len(draws)
    mle, mth = None, None
    if c['mle'] != 'none':
        mth = gens.make_theta(rs, kind, p, q, t, y, sep=c['sep'])
        if mth is not None:
            mle = sample.Result(x=np.array(mth), fun=float(rs.normal() * 30), message='')
    with sut('building the sample object'):
        ctor = c['mle'] == 'ctor' and kind != 'CAR1'
        s = sample.build(kind, t, y, e, p, q, draws, lps, mle if ctor else None)
        if mle is not None and not ctor:
            s.add_mle(mle)
    require(s.p == p and s.q == q, 'orders (%r, %r) instead of (%d, %d)', s.p, s.q, p, q)
    names = list(s.parameters)
    A = {}
    with sut('get_samples'):
        for k in names:
            A[k] = s.get_samples(k)
            require(A[k].shape[0] == n, '%d values of %s for %d draws', A[k].shape[0], k, n)
    for k in ('var', 'measerr_scale', 'mu', 'sigma', 'logpost', 'loglik') + (
            ('log_omega',) if kind == 'CAR1' else ('quad_coefs', 'ar_roots', 'psd_width', 'psd_centroid', 'ar_coefs', 'ma_coefs')):
        require(k in names, 'no quantity %r in the sample', k)
    judged, exact, seen, priors = 0, 0, {}, {}

    def prior(key):
        if key not in priors:
            priors[key] = oracle.logprior(kind, p, list(key))
        return priors[key]
    for i in range(n):
        th = draws[i]
        what = 'draw %d' % i
        key = tuple(th)
        if key in seen:
            for k in names:
                if k not in ('logpost', 'loglik') and not np.array_equal(A[k][i], A[k][seen[key]]):
                    process_quantities(lambda k: A[k][i].ravel() if k in A else None, kind, p, q, th, t, what)
                    break
        else:
            seen[key] = i
            judged += process_quantities(lambda k: A[k][i].ravel() if k in A else None, kind, p, q, th, t, what)
        lp, ll = float(A['logpost'][i].ravel()[0]), float(A['loglik'][i].ravel()[0])
        require(lp == lps[i], '%s: log posterior %.17g instead of %.17g', what, lp, lps[i])
        pr = float(prior(key))
        require(abs(ll - (lps[i] - pr)) <= 1e-12 * (abs(pr) + abs(lps[i]) + 50), '%s: log-likelihood %.15g, log posterior minus '
                'log prior is %.15g', what, ll, lps[i] - pr)
        if c['source'] == 'run' and not c.get('tile') and exact < 3:
            v, tol, _ = oracle.logpost(kind, p, q, th, t, y, e)
            if tol < 1e-2:
                exact += 1
                require(abs(ll - (v - pr)) <= tol, '%s: log-likelihood %.15g, exact %.15g', what, ll, v - pr)
    with sut('DIC'):
        dic = float(np.asarray(s.DIC()).ravel()[0])
    dev = [-2 * (mp.mpf(lps[i]) - prior(tuple(draws[i]))) for i in range(n)]
    mean = sum(dev) / n
    want = float(mean + sum((d - mean) ** 2 for d in dev) / n / 2)
    big = max(abs(float(d)) for d in dev)
    require(abs(dic - want) <= 1e-11 * (big + big * math.sqrt(abs(want)) + 1), 'DIC %.15g, should be %.15g', dic, want)
    if mle is not None:
        M = s.mle
        require(M['loglik'] == -mle.fun, 'loglik of the estimate is %r for fun=%r', M['loglik'], mle.fun)
        ren = {'psd_centroid': 'psd_cent'}
        process_quantities(lambda k: np.atleast_1d(M[ren.get(k, k)]).ravel() if ren.get(k, k) in M else None, kind, p, q, mth, t,
                           'maximum-likelihood estimate')
        mus = s.get_samples('mu')
        for i in range(n):               # the draws themselves are untouched
            require(float(mus[i, 0]) == draws[i][2], 'adding an estimate changed draw %d', i)
    return dict(nontrivial=2 * judged >= len(seen), tags=[kind, 'p=%d' % p, c['source'], c['style'], 'mle=' + c['mle']],
                counts=dict(draws=n, judged=judged, exact_likelihoods=exact))
