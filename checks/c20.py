"""C20: maximum-likelihood fits and order selection return the best candidate."""
import math
import os
import tempfile

import numpy as np
from common import require, sut
from hypothesis import strategies as st

import gens
import native
import oracle
import sample

TECHNIQUE = ('the outcome of several trials against the same trials run one at a time, against the exact log density, and with '
             'the optimiser replaced by one of prescribed outcomes')
RULE = ('a generated series and, in mode real, actual fits (p=1..3): the best of k trials must equal the best of the same k '
        'trials run singly, lie in the bounds and reproduce the log density; in the other modes the optimiser called by the '
        'package is replaced by one that reports prescribed or recorded values (NaN, ties, infinities, several processes), '
        'over generated order grids or lists; non-trivial when at least two trials or orders with different finite values '
        'competed')
ASSUMPTIONS = ['at least one trial has a defined log density', 'n - k - 1 > 0 where an AICc value is compared with its formula']
CHUNK = 15
HANG = 200


@st.composite
def _case(draw):
    mode = draw(st.sampled_from(['real', 'real', 'trials', 'trials', 'order', 'order', 'order', 'jobs']))
    c = draw(gens.data(4 if mode != 'order' else 5, 30 if mode == 'order' else 14, big=70))
    c['mode'] = mode
    c['seed'] = draw(gens.seeds())
    if mode == 'order':
        if draw(st.booleans()):
            c['pmax'] = draw(st.sampled_from([3, 1, 2, 4, 5]))
            c['qmax'] = draw(st.sampled_from([None, None, 0, 1, 2, 3]))
            c['list'] = None
        else:
            c['pmax'], c['qmax'] = draw(st.sampled_from([1, 3])), None
            pq = [(p, q) for p in range(1, 6) for q in range(p)]
            c['list'] = [list(x) for x in draw(st.lists(st.sampled_from(pq), min_size=1, max_size=5, unique=True))]
        c['trials'] = draw(st.integers(1, 2))
    else:
        c['p'] = draw(st.sampled_from([2, 1, 3, 2, 1, 3, 4]))
        c['q'] = draw(st.integers(0, c['p'] - 1))
        c['trials'] = draw(st.integers(2, 3) if mode == 'real' else st.integers(1, 7))
        if mode in ('trials', 'jobs') and draw(st.integers(0, 3)) == 0:
            c['trials'] = draw(st.sampled_from([20, 45, 100]))
    v = st.one_of(st.sampled_from([0.0, 1.0, 2.0, -3.0, float('nan'), float('inf'), 50.0, 1e300]), st.floats(-500, 500))
    c['vals'] = draw(st.lists(v, min_size=1, max_size=12))
    c['njobs'] = draw(st.sampled_from([2, 3, 4, 2, 3, 4, -1]))
    return c


def case(tier):
    return _case()


def bounds_ok(x, p, q, t, y):
    sd = float(np.std(y))
    dt = float(np.min(np.diff(t)))
    lo, hi = 1 / (t[-1] - t[0]), 0.9 / dt
    eps = 1e-9 * (1 + float(np.max(np.abs(y))) / sd)
    require(sd / 10 * (1 - eps) <= x[0] <= 10 * sd * (1 + eps), 'standard deviation %.6g outside (%.6g, %.6g)', x[0], sd / 10,
            10 * sd)
    require(0.9 - 1e-9 <= x[1] <= 1.1 + 1e-9, 'measurement error scale %.6g outside (0.9, 1.1)', x[1])
    if p == 1:
        a, b = math.log(lo), math.log(hi)
    else:
        a, b = math.log(min(lo ** 2, 2 * lo)), math.log(max(hi ** 2, 2 * hi))
    for v in x[3:3 + p]:
        require(a - 1e-9 * (1 + abs(a)) <= v <= b + 1e-9 * (1 + abs(b)), 'autoregressive parameter %.6g outside (%.6g, %.6g)', v, a,
                b)


def eq(a, b):
    return a == b or (math.isnan(a) and math.isnan(b))


def best_of(vals):
    ok = [v for v in vals if not math.isnan(v)]
    return min(ok) if ok else math.nan


def run(c):
    cm = native.carmcmc()
    from scipy.optimize import OptimizeResult
    t, y, e = map(np.array, (c['t'], c['y'], c['e']))
    n = len(t)
    tags = [c['mode']]
    with sut('CarmaModel'):
        mod = cm.CarmaModel(t, y, e, p=2, q=1)

    def get(p, q, k, **kw):
        with sut('get_mle'):
            with sample.quiet():
                return mod.get_mle(p, q, ntrials=k, **kw)
    if c['mode'] == 'real':
        p, q, k = c['p'], c['q'], c['trials']
        if n < 5 and p > 2:
            return dict(nontrivial=False, tags=tags + ['too few data'])
        native.seed(c['seed'])
        r = get(p, q, k)
        native.seed(c['seed'])
        one = [get(p, q, 1) for _ in range(k)]
        vals = [float(x.fun) for x in one]
        tags.append('p=%d' % p)
        require(mod.p == 2 and mod.q == 1, 'get_mle changed the order of the model')
        d = native.ntheta('CAR1' if p == 1 else 'CARp' if q == 0 else 'CARMA', p, q)
        for res in [r] + one:
            x = np.asarray(res.x, dtype=float)
            require(x.shape == (d,), 'estimate of %d values for %d parameters', x.size, d)
            bounds_ok(x, p, q, t, y)
        same = eq(float(r.fun), best_of(vals))
        require(same, 'best of %d trials has value %.15g, the same trials run singly give %r', k, float(r.fun), vals)
        if math.isfinite(r.fun):
            kind = 'CAR1' if p == 1 else 'CARp' if q == 0 else 'CARMA'
            with sut('the model'):
                m = native.Model(kind, t, y, e, p, q)
                if p > 1:
                    m.setmle(True)
                v = m.logdens(r.x)
                m.close()
            w, tol, _ = oracle.logpost(kind, p, q, [float(u) for u in r.x], t, y, e, extreme=True)
            if tol < 1e-2:
                tags.append('exact')
                require(abs(v + r.fun) <= 1e-9 * (1 + abs(v)) + tol, 'reported value %.15g, minus log density at the reported '
                        'parameters %.15g', float(r.fun), -v)
                require(abs(w + r.fun) <= tol, 'reported value %.15g, exact minus log density %.15g', float(r.fun), -w)
        return dict(nontrivial=len(set(v for v in vals if math.isfinite(v))) > 1, tags=tags, counts=dict(trials=k))

    calls = []
    it = iter(range(10 ** 9))

    def planned(fun, x0, *a, **kw):
        i = next(it)
        v = c['vals'][i % len(c['vals'])] + (0.0 if i < len(c['vals']) else 0.25 * (i // len(c['vals'])))
        calls.append((np.array(x0, dtype=float), v))
        return OptimizeResult(x=np.array(x0, dtype=float) + i * 1e-3, fun=v, message='ok', success=True, status=0, nit=1, index=i)

    if c['mode'] == 'trials':
        native.seed(c['seed'])
        with sample.Patch(planned):
            r = get(c['p'], c['q'], c['trials'])
        if len(calls) != c['trials']:
            require(not calls, 'optimiser called %d times for %d trials', len(calls), c['trials'])
            return dict(nontrivial=False, tags=tags + ['optimiser not reached'])
        vals = [v for _, v in calls]
        require(eq(float(r.fun), best_of(vals)), 'of trials with values %r the one with %r was returned', vals, float(r.fun))
        i = int(getattr(r, 'index', -1))
        require(i < 0 or eq(vals[i], float(r.fun)), 'the returned result mixes two trials')
        xs = [tuple(x) for x, _ in calls]
        require(len(set(xs)) == len(xs), 'two trials start from the same point')
        return dict(nontrivial=len(set(v for v in vals if math.isfinite(v))) > 1, tags=tags + (['nan'] if any(map(math.isnan, vals))
                    else []), counts=dict(trials=len(vals)))

    if c['mode'] == 'jobs':
        fd, path = tempfile.mkstemp(dir=os.environ.get('VERIF_RUNDIR'))
        os.close(fd)

        def recorded(fun, x0, *a, **kw):
            x0 = np.array(x0, dtype=float)
            v = float(np.sum(np.sin(1e3 * x0))) if int(1e6 * abs(x0[0])) % 4 else math.nan
            with open(path, 'a') as f:
                f.write(' '.join(map(float.hex, [v] + [float(u) for u in x0])) + '\n')
            return OptimizeResult(x=x0, fun=v, message='ok', success=True, status=0, nit=1)
        native.seed(c['seed'])
        k = c['trials'] + 1
        try:
            with sample.Patch(recorded):
                r = get(c['p'], c['q'], k, njobs=c['njobs'])
            with open(path) as f:
                rows = [[float.fromhex(u) for u in line.split()] for line in f]
        finally:
            os.unlink(path)
        if not rows:
            return dict(nontrivial=False, tags=tags + ['optimiser not reached'])
        require(len(rows) == k, '%d trials were run instead of %d', len(rows), k)
        vals = [x[0] for x in rows]
        require(eq(float(r.fun), best_of(vals)), 'of trials with values %r the one with %r was returned', vals, float(r.fun))
        xs = [tuple(x[1:]) for x in rows]
        require(len(set(xs)) == len(xs), 'two of %d trials run in %d processes start from the same point %r', k, c['njobs'],
                [x for x in xs if xs.count(x) > 1][:1])
        return dict(nontrivial=len(set(v for v in vals if math.isfinite(v))) > 1, tags=tags, counts=dict(trials=k))

    # order selection
    native.seed(c['seed'])
    want = [tuple(x) for x in c['list']] if c['list'] else None
    if want is None:
        qm = c['pmax'] - 1 if c['qmax'] is None else c['qmax']
        want = [(p, q) for p in range(1, c['pmax'] + 1) for q in range(p) if q <= qm]
    kw = dict(ntrials=c['trials'])
    if c['list']:
        kw['pqlist'] = [tuple(x) for x in c['list']]
    elif c['qmax'] is not None:
        kw['qmax'] = c['qmax']
    with sample.Patch(planned):
        with sut('choose_order'):
            with sample.quiet():
                best, pq, aicc = mod.choose_order(c['pmax'], **kw)
    pq = [tuple(int(v) for v in x) for x in pq]
    require(sorted(pq) == sorted(want) and (not c['list'] or pq == want), 'orders tried %r, requested %r', pq, want)
    require(len(aicc) == len(pq), '%d AICc values for %d orders', len(aicc), len(pq))
    if len(calls) != c['trials'] * len(pq):
        require(not calls, 'optimiser called %d times for %d orders of %d trials', len(calls), len(pq), c['trials'])
        return dict(nontrivial=False, tags=tags + ['optimiser not reached'])
    exp = []
    for i, (p, q) in enumerate(pq):
        grp = calls[i * c['trials']:(i + 1) * c['trials']]
        for x, _ in grp:
            require(len(x) == 3 + p + q, 'order %r was fitted with %d parameters', (p, q), len(x))
        f = best_of([v for _, v in grp])
        k = 2 + p + q
        a = 2 * k + 2 * f + 2 * k * (k + 1) / (n - k - 1) if n - k - 1 > 0 else math.inf
        exp.append((a, f))
        got = float(aicc[i])
        if n - k - 1 > 0:
            require(eq(got, a) or abs(got - a) <= 1e-10 * (1 + abs(a)), 'AICc of order %r is %.12g, should be %.12g (n=%d)', (p, q),
                    got, a, n)
        else:
            tags.append('saturated')
            require(got == math.inf or math.isnan(got), 'AICc of order %r is %.6g with %d data points', (p, q), got, n)
    ok = [a for a, _ in exp if math.isfinite(a) and a < 1e299]
    if ok:
        win = [i for i, (a, _) in enumerate(exp) if a == min(ok)]
        require((mod.p, mod.q) in [pq[i] for i in win], 'order %r was kept, the smallest AICc is that of %r (%r)', (mod.p, mod.q),
                [pq[i] for i in win], [a for a, _ in exp])
        i = pq.index((mod.p, mod.q))
        require(float(best.fun) == exp[i][1], 'the returned estimate has value %r, that of the chosen order is %r',
                float(best.fun), exp[i][1])
        require(len(best.x) == 3 + mod.p + mod.q, 'the returned estimate is not of the chosen order')
    return dict(nontrivial=len(set(ok)) > 1, tags=tags + (['list'] if c['list'] else ['grid']), counts=dict(orders=len(pq)))
