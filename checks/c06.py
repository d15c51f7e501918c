"""C06: observations in any order, with repeated times, are canonicalised."""
import itertools

import numpy as np
from common import require, sut
from hypothesis import strategies as st

import gens
import native

TECHNIQUE = 'permuted and duplicated observations against the canonical series built by hand'
RULE = ('a generated series in a drawn order with some times repeated (0..3 groups of up to 4 observations, some of up to 13, some in number as many as the times), fed to the '
        'CAR(1) and CARMA filters (four native constructors and the exported classes) or to CarmaModel; the result must '
        'be that of the sorted series with, for each repeated time, exactly one of its (value, error) pairs; non-trivial '
        'when the input is out of order or has a repeated time')
ASSUMPTIONS = ['at least two distinct times', 'results compared with relative tolerance 1e-8 on well-conditioned processes']
CHUNK = 150


@st.composite
def _case(draw):
    t = draw(gens.times(2, 12, big=90, long=400))
    pr = draw(gens.process(t, pmax=6, sep=0.05))
    sd = gens.stationary_sd(pr)
    rep = draw(st.lists(st.integers(0, len(t) - 1), max_size=3))
    if rep and draw(st.integers(0, 5)) == 0:
        rep = rep + [rep[0]] * draw(st.integers(2, 9))
    elif draw(st.integers(0, 9)) == 0:
        rep = rep + [draw(st.integers(0, len(t) - 1)) for _ in range(len(t))]
    t0 = t
    for i in rep:
        t = np.append(t, t0[i])
    n = len(t)
    y = draw(gens.values(n, sd))
    # all values and errors distinct, so that a mixed-up pair shows
    rs = np.random.RandomState(draw(gens.seeds()))
    y = [v + 0.01 * sd * float(rs.normal()) for v in y]
    e = [float(x) for x in sd * rs.uniform(0.05, 0.5, n)]
    if draw(st.integers(0, 2)) == 0:
        e[rs.randint(n)] = 0.0
    how = draw(st.sampled_from(['shuffled', 'sorted', 'reversed', 'swap']))
    idx = np.argsort(t, kind='stable')
    if how == 'shuffled':
        idx = rs.permutation(n)
    elif how == 'reversed':
        idx = idx[::-1]
    elif how == 'swap':
        i = draw(st.integers(0, n - 2))
        idx[i], idx[i + 1] = idx[i + 1], idx[i]
    return dict(t=[float(t[i]) for i in idx], y=[y[i] for i in idx], e=[e[i] for i in idx], proc=pr,
                via=draw(st.sampled_from(['py', 'shim0', 'shim1', 'shim2', 'shim3', 'model'])), how=how, seed=draw(gens.seeds()))


def case(tier):
    return _case()


def choose(c, ut, y, e, groups, var, car1, roots):
    """Which observation of each group was kept, told by its error in the variance of that measurement."""
    pick = [g[0] for g in groups]
    for i, g in enumerate(groups):
        if len(g) == 1:
            continue
        best = []
        for j in g:
            pick[i] = j
            n = max(i + 1, 2)
            with sut('a filter from sorted data'):
                f = native.Filter(ut[:n], y[pick[:n]], e[pick[:n]], c['proc']['sigsqr'], roots, c['proc']['ma'], car1=car1)
                best.append((abs(f.filter()[1][i] - var[i]), j))
                f.close()
        pick[i] = min(best)[1]
    return pick


def run(c):
    t, y, e = map(np.array, (c['t'], c['y'], c['e']))
    roots, ma, s2 = gens.croots(c['proc']), c['proc']['ma'], c['proc']['sigsqr']
    car1 = len(roots) == 1
    ut = np.unique(t)
    groups = [np.where(t == x)[0] for x in ut]
    tags = [c['via'], c['how'], 'repeats' if len(ut) < len(t) else 'unique']
    copies = t.copy(), y.copy(), e.copy()
    nontriv = len(ut) < len(t) or not np.all(np.diff(t) > 0)

    def triples(a, b, d, what):
        require(len(a) == len(ut) == len(b) == len(d) and np.array_equal(a, ut),
                '%s holds times %r instead of the sorted distinct ones', what, list(a))
        for i, g in enumerate(groups):
            require(any(b[i] == y[j] and d[i] == e[j] for j in g),
                    '%s pairs time %r with value %r and error %r, which were not observed together', what, a[i], b[i],
                    d[i])

    if c['via'] == 'model':
        cm = native.carmcmc()
        with sut('CarmaModel'):
            m = cm.CarmaModel(t, y, e, p=len(roots), q=len(ma) - 1)
            triples(np.asarray(m.time), np.asarray(m.y), np.asarray(m.ysig), 'the model')
            # the model must also *use* the canonical series: same chain as a model built from it
            ref = cm.CarmaModel(np.array(m.time), np.array(m.y), np.array(m.ysig), p=len(roots), q=len(ma) - 1)
            if len(ut) >= 4:
                chain = []
                for obj in (m, ref):
                    native.seed(c['seed'])
                    s = obj.run_mcmc(3, nburnin=2, ntemperatures=2, nthin=1)
                    chain.append(np.column_stack([s.get_samples(k).reshape(3, -1)
                                                  for k in ('logpost', 'var', 'mu', 'measerr_scale')]))
                require(np.allclose(chain[0], chain[1], rtol=1e-9, atol=0, equal_nan=True),
                        'the chain of the unsorted series differs from that of the sorted one')
    else:
        with sut('the filter'):
            if c['via'] == 'py':
                f = native.PyFilter(t, y, e, s2, roots, ma, car1=car1)
            else:
                f = native.Filter(t, y, e, s2, roots, ma, car1=car1, how=int(c['via'][-1]))
            mean, var = f.filter()
            x = float(ut[0] + 0.37 * (ut[-1] - ut[0]))
            pr = f.predict(x)
        require(len(mean) == len(ut) and len(var) == len(ut), '%d filtered values for %d distinct times', len(mean),
                len(ut))
        if c['via'] != 'py':
            with sut('reading the data'):
                triples(*f.data(), what='the filter')
        ok = False
        if np.prod([float(len(g)) for g in groups]) <= 64:
            picks = itertools.product(*groups)
        else:
            picks = [choose(c, ut, y, e, groups, var, car1, roots)]
        for pick in picks:
            pick = list(pick)
            with sut('a filter from sorted data'):
                g = native.Filter(ut, y[pick], e[pick], s2, roots, ma, car1=car1)
                m0, v0 = g.filter()
                p0 = g.predict(x)
                g.close()
            sd = np.sqrt(np.max(np.abs(v0)))
            if np.all(np.abs(m0 - mean) <= 1e-8 * (sd + np.abs(m0))) and np.all(np.abs(v0 - var) <= 1e-8 * v0) and \
               abs(p0[0] - pr[0]) <= 1e-6 * sd and abs(p0[1] - pr[1]) <= 1e-6 * abs(p0[1]):
                ok = True
                break
        require(ok, 'the filter of the unsorted series differs from that of the sorted one')
        f.close()
    for a, b, w in zip((t, y, e), copies, ('times', 'values', 'errors')):
        require(np.array_equal(a, b), "the caller's %s were changed", w)
    return dict(nontrivial=nontriv, tags=tags)
