"""C18: predictions and simulations from a posterior sample use the chosen best-fit model."""
import math

import numpy as np
from common import Violation, affine, binom_bad, ks_bad, normal_bad, require, sut
from hypothesis import strategies as st

import gens
import native
import oracle
import pred
import sample

TECHNIQUE = ('predictions against dense Gaussian conditioning under the selected parameters; simulations standardised with the '
             'exact conditional law and their mean and covariance recovered from the deviates drawn; random choice tested for uniformity over the draws')
RULE = ('a posterior sample object over 1-9 generated draws (some with repeats up to 3000; p=1..7, all q<p) on a generated series; best-fit map, median, mean or '
        'random in any letter case, scalar or array times (1-5, some 350; also integer and single precision), after 0-3 earlier '
        'calls on this or on another sample object; non-trivial when a prediction '
        'could be judged to 1e-4, or a simulation standardised')
ASSUMPTIONS = ['median and mean are asked for draws whose roots keep their order and type along the chain (elsewhere the median '
               'of complex roots has no agreed meaning)', 'measurement errors are used as supplied']
CHUNK = 30


@st.composite
def _case(draw):
    fit = draw(st.sampled_from(['map', 'median', 'mean', 'random']))
    # in style 'scale' all roots of a draw move together, so the median root is unambiguous
    c = draw(sample.posterior(7, 3, 12, 1, 4 if fit == 'random' else 9, style='free' if fit in ('map', 'random') else 'scale',
                              zero=True, big=60, long=300, tile=(300, 1200, 3000)))
    ints = draw(st.sampled_from([False, False, False, True]))
    if ints:
        c['t'] = [float(x) for x in np.cumsum(1 + np.array(draw(st.lists(st.integers(0, 4), min_size=len(c['t']),
                                                                         max_size=len(c['t'])))))]
    c.update(fit=fit, case=draw(st.sampled_from(['lower', 'upper', 'title'])), seed=draw(gens.seeds()),
             mode=draw(st.sampled_from(['predict', 'predict', 'simulate'])),
             form=draw(st.sampled_from(['array', 'array', 'scalar', 'int', 'single', 'npscalar', 'intscalar', 'int64scalar', 'singlescalar'])),
             pre=draw(st.lists(st.tuples(st.sampled_from(['same', 'same', 'decoy']), st.sampled_from(['map', 'median', 'mean', 'random']),
                                         st.sampled_from(['predict', 'simulate', 'dic'])), max_size=3)),
             default=draw(st.booleans()), qs=draw(pred.queries(c['t'], 1, 5)))
    if fit != 'random' and c['mode'] == 'predict' and draw(st.integers(0, 11)) == 0:      # many times
        w = c['t'][-1] - c['t'][0]
        c['qs'] = c['qs'] + [float(x) for x in np.linspace(c['t'][0] - 0.3 * w, c['t'][-1] + 0.4 * w, draw(st.sampled_from([350, 90])))]
    return c


def case(tier):
    return _case()


def run(c):
    kind, p, q = c['kind'], c['p'], c['q']
    t, y, e = map(np.array, (c['t'], c['y'], c['e']))
    native.seed(c['seed'])
    rs = np.random.RandomState(c['seed'])
    draws = sample.draws_of(c)
    tags = [kind, c['fit'], c['mode'], c['form']]
    if draws is None:
        return dict(nontrivial=False, tags=['no parameter vector'])
    n = len(draws)
    lps = [float(v) for v in rs.permutation(n) - 0.5 * rs.uniform(size=n) * 0.9 - 3]
    for i in range(1, n):                     # a repeated draw has the same log posterior
        if draws[i] == draws[i - 1]:
            lps[i] = lps[i - 1]
    cand = sample.candidates(c, draws, lps)
    weight = [draws.count(list(th)) for th in dict.fromkeys(map(tuple, draws))]
    extra = 0.0 if kind == 'CAR1' else 10 * max(oracle.rounding(kind, p, q, th, t) for th in set(map(tuple, draws)))
    fit = getattr(c['fit'], c['case'])()
    args = {} if c['default'] and c['fit'] == 'map' else dict(bestfit=fit)
    if not extra < 1e-4:
        return dict(nontrivial=False, tags=tags + ['ill-conditioned'])
    # the form in which times are passed
    qs = np.array(c['qs'])
    if c['form'] == 'single':
        qs = qs.astype(np.float32)
    elif c['form'] == 'int':
        qs = np.unique(np.round(qs)).astype(np.int64) if np.all(np.abs(qs) < 1e15) else qs
    elif c['form'] == 'scalar':
        qs = float(qs[0])
    elif c['form'] == 'npscalar':
        qs = qs[0]
    elif c['form'] == 'singlescalar':
        qs = np.float32(qs[0])
    elif c['form'] in ('intscalar', 'int64scalar'):
        qs = (int if c['form'] == 'intscalar' else np.int64)(round(float(qs[0])) if abs(qs[0]) < 1e15 else 0)
    xq = np.atleast_1d(np.asarray(qs, dtype=float))
    scalar = np.ndim(qs) == 0
    with sut('building the sample object'):
        s = sample.build(kind, t, y, e, p, q, draws, lps)
    decoy = None
    for who, f, what in c.get('pre', []):     # earlier calls on this sample or on another one
        with sut('earlier calls'):
            x = s
            if who == 'decoy':
                decoy = x = decoy or sample.build(kind, t, 3.0 - 2.0 * y, e, p, q, draws[::-1], lps)
            if what == 'dic':
                x.DIC()
            elif not (f in ('median', 'mean') and c['style'] == 'free'):
                getattr(x, what)(qs, bestfit=f)
        tags.append('earlier calls')
    if c['mode'] == 'predict':
        reps = 1 if c['fit'] != 'random' else 130
        rows = _rows(cand, t, y, e, xq) if len(cand) > 1 else None
        hits = np.zeros(len(cand))
        good, gt = False, set()
        memo = {}
        for r in range(reps):
            with sut('predict'):
                m, v = s.predict(qs, **args)
            if not scalar:
                require(isinstance(m, np.ndarray) and m.shape == xq.shape and np.asarray(v).shape == xq.shape,
                        'predictions of shape %r and %r for %d times', np.shape(m), np.shape(v), len(xq))
            m, v = np.atleast_1d(m), np.atleast_1d(v)
            key = (m.tobytes(), v.tobytes())
            if key not in memo:
                order = list(range(len(cand)))
                if rows is not None:          # the draws can be told apart: only the nearest one is a candidate
                    order = [int(np.argmin([np.max(np.abs(x[:len(m)] - m)) for x in rows]))]
                why = None
                for k in order:
                    pr, mu = cand[k]
                    try:
                        g, tg = pred.judge(pr, t, y - mu, e, list(xq), list(zip(m - mu, v)), 'best fit %s: ' % fit,
                                           extra=extra)
                    except Violation as ex:
                        why = ex
                        continue
                    memo[key] = k
                    good = good or g
                    gt.update(tg)
                    break
                else:
                    raise why
            hits[memo[key]] += 1
        if rows is not None:
            gt.add('choice counted')
            for k in range(len(cand)):
                require(not binom_bad(hits[k], reps, weight[k] / n), 'best fit random: a draw that makes up %d of %d was chosen '
                        'in %d of %d calls', weight[k], n, int(hits[k]), reps)
        return dict(nontrivial=good, tags=tags + sorted(gt), counts=dict(predictions=len(xq) * reps))
    # simulation
    reps = 120
    X = np.empty((reps, len(xq)))
    with sut('simulate'):
        for r in range(reps):
            x = s.simulate(qs, **args)
            require(np.shape(x) in ((len(xq),),) + (((),) if scalar else ()), 'simulated values of shape %r for %d times',
                    np.shape(x), len(xq))
            X[r] = x
    ux, ix = np.unique(xq, return_index=True)
    o = np.argsort(ix)
    ux, ix = ux[o], ix[o]
    mom = []
    for pr, mu in cand:
        tt = np.concatenate([t, ux])
        ee = np.concatenate([e, np.zeros(len(ux))])
        o = np.lexsort((ee, tt))
        try:
            L = oracle.chol(pr.cov(tt[o], tt[o]) + np.diag(np.asarray(ee[o], dtype=oracle.LD) ** 2))
            M, S = oracle.conditional(pr, t, y - mu, e, np.array(ux))
            Ls = oracle.chol(S)
        except ValueError:
            return dict(nontrivial=False, tags=tags + ['singular'])
        tol = oracle.rel_tol(pr, tt, float((np.diag(L) ** 2).min()), e=e) + extra
        if not tol < 1e-4:
            return dict(nontrivial=False, tags=tags + ['ill-conditioned'])
        mom.append((M.astype(float) + mu, Ls, float(S[0, 0]), S.astype(float)))
    require(np.all(np.isfinite(X)), 'a simulated value is not finite')
    if c['fit'] == 'random' and len(cand) > 1:
        from scipy.special import ndtr
        bad, d = ks_bad(X[:, 0], lambda x: np.average([ndtr((x - m[0]) / math.sqrt(v)) for m, _, v, _ in mom],
                                                     axis=0, weights=weight))
        require(not bad, 'best fit random: values simulated at one time are not from the mixture over the draws (KS %.3g)', d)
        return dict(nontrivial=True, tags=tags, counts=dict(simulated=reps))
    M, Ls, _, S = mom[0]
    Z = oracle.fsolve(Ls, (X[:, ix].T - M[:, None])).astype(float)
    bad = normal_bad(Z)
    require(bad is None, 'best fit %s: simulated values do not follow the conditional law: %s', fit, bad)
    for i in range(len(ix)):
        bad = normal_bad(Z[i])
        require(bad is None, 'best fit %s: values simulated at time %r do not follow the conditional law: %s', fit,
                float(ux[i]), bad)
    # the values as a function of the deviates drawn: their exact mean and covariance
    with sut('simulate'):
        ab = affine(lambda: np.atleast_1d(s.simulate(qs, **args)), len(xq), lambda i: native.seed(c['seed'] + 1 + i), native.normals)
    tags.append('exact covariance' if ab else 'other use of the generator')
    if ab:
        a, B = ab[0][ix], ab[1][ix]
        pr, mu = cand[0]
        lim = 3 * tol * pr.k0 + 1e-8 * float(np.max(S))
        dev = np.abs(B @ B.T - S)
        i, j = np.unravel_index(int(np.argmax(dev)), dev.shape)
        require(dev[i, j] <= lim, 'best fit %s: values simulated at times %r and %r have covariance %.9g, exact %.9g (tolerance %.1g)',
                fit, float(ux[i]), float(ux[j]), float((B @ B.T)[i, j]), float(S[i, j]), lim)
        K = oracle.chol(pr.cov(t, t) + np.diag(np.asarray(e, dtype=oracle.LD) ** 2))
        zmax = 1.0 + float(np.max(np.abs(oracle.fsolve(K, y - mu))))
        lim = 3 * tol * math.sqrt(pr.k0) * zmax + 1e-8 * math.sqrt(float(np.max(S))) + 1e-11 * float(np.max(np.abs(y)) + abs(mu))
        dev = np.abs(a - M)
        i = int(np.argmax(dev))
        require(dev[i] <= lim, 'best fit %s: values simulated at time %r have mean %.9g, exact %.9g (tolerance %.1g)', fit, float(ux[i]),
                a[i], float(M[i]), lim)
    return dict(nontrivial=True, tags=tags, counts=dict(simulated=reps * len(ix)))


def _rows(cand, t, y, e, xq):
    """Exact predicted means of every candidate, or None when two of them cannot be told apart safely."""
    rows, sds = [], []
    for pr, mu in cand:
        try:
            M, S = oracle.conditional(pr, t, y - mu, e, xq)
            if not all(oracle.rel_tol(pr, np.append(t, x), pred.vmin_with(pr, t, e, x)) < 1e-6 for x in xq
                       if not (x in t and e[list(t).index(x)] == 0.0)):
                return None
        except ValueError:
            return None
        rows.append(M.astype(float) + mu)
        sds.append(math.sqrt(pr.k0) + float(np.max(np.abs(y - mu))))
    for i in range(len(rows)):
        for j in range(i):
            if np.max(np.abs(rows[i] - rows[j])) <= 1e-3 * max(sds):
                return None
    return rows
