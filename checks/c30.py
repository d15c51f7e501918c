"""C30: CarmaModel runs the native sampler on its own data with the documented options, whatever was called before."""
import numpy as np
from common import require, sut
from hypothesis import strategies as st

import gens
import native
import sample

TECHNIQUE = ('sequences of calls on one CarmaModel and on the samples it returned; every run against the native sampler '
             'called directly with the same seed, every other answer against that of a freshly built object')
RULE = ('a generated series (3-20 points, some up to 60, in any order) and a sequence of 1-6 operations on one CarmaModel: '
        'runs (p=1..4, some 7; default or explicit burn-in, temperatures, thinning, starting value), maximum-likelihood fits '
        'and order selections (with a replaced optimiser), changes of the public order, and predictions, simulations, '
        'spectra and information criteria of the samples returned so far, with calls on another model in between; non-trivial '
        'when a run follows another operation or a sample is used twice')
ASSUMPTIONS = ['the default burn-in is compared for even sample sizes', 'at least 3 distinct times, values not all equal']
CHUNK = 12
HANG = 200


@st.composite
def _case(draw):
    c = draw(gens.data(3, 20, big=60))
    orders = [[2, 1], [1, 0], [2, 0], [3, 1], [3, 2], [4, 1], [4, 0], [7, 5]]
    c['order'] = draw(st.sampled_from(orders[:-1]))
    c['shuffle'] = draw(st.sampled_from([None, None, 1, 2, 3]))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(['run', 'run', 'run', 'set', 'mle', 'order', 'use', 'use', 'use', 'other']))
        s = draw(gens.seeds())
        if k == 'run':
            ops.append([k, s, dict(n=draw(st.sampled_from([4, 2, 1, 8, 30, 4, 2, 1, 8, 200])), burn=draw(st.sampled_from([None, None, 0, 1, 3, 20])),
                                   nt=draw(st.sampled_from([None, None, 1, 2, 4])), thin=draw(st.sampled_from([None, 1, 2, 3])),
                                   init=draw(st.sampled_from([False, False, True])))])
        elif k == 'set':
            ops.append([k, s, draw(st.sampled_from(orders))])
        elif k == 'mle':
            ops.append([k, s, draw(st.sampled_from(orders[:-1])), draw(st.integers(1, 3))])
        elif k == 'order':
            ops.append([k, s, draw(st.lists(st.sampled_from(orders[:-1]), min_size=1, max_size=3, unique_by=tuple))])
        elif k == 'use':
            ops.append([k, s, draw(st.integers(0, 5)), draw(st.sampled_from(['predict', 'predict', 'simulate', 'dic', 'psd', 'get'])),
                        draw(st.sampled_from(['map', 'random', 'median', 'mean'])), draw(st.sampled_from([0.3, 0.7, 1.1, -0.2]))])
        else:
            ops.append([k, s])
    c['ops'] = ops
    return c


def case(tier):
    return _case()


def reference(p, q, t, y, e, n, burn, nt, thin, init, seed):
    import carmcmc._carmcmc as L
    a = (native.vecD(t), native.vecD(y), native.vecD(e))
    native.seed(seed)
    if p == 1:
        s = L.run_mcmc_car1(n, burn, a[0], a[1], a[2], thin, native.vecD(init))
    else:
        s = L.run_mcmc_carma(n, burn, a[0], a[1], a[2], p, q, nt, False, thin, native.vecD(init))
    return s, np.array([list(v) for v in s.getSamples()]), np.array(list(s.GetLogLikes()))


def same(a, b, what, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, '%s: shape %r instead of %r', what, a.shape, b.shape)
    with np.errstate(all='ignore'):
        ok = (a == b) | (np.abs(a - b) <= tol * np.abs(b)) | (np.isnan(a) & np.isnan(b))
    require(bool(np.all(ok)), '%s: %s instead of %s', what, np.ravel(a)[~np.ravel(ok)][:3], np.ravel(b)[~np.ravel(ok)][:3])


def names(p):
    return ['logpost', 'loglik', 'var', 'measerr_scale', 'mu', 'sigma'] + \
        (['log_omega'] if p == 1 else ['ar_roots', 'ar_coefs', 'quad_coefs', 'ma_coefs', 'psd_width', 'psd_centroid'])


def stored(s, p):
    return {k: np.array(s.get_samples(k)) for k in names(p)}


def use(s, op, t, seed):
    """The answer of one call on a posterior sample."""
    _, _, _, what, fit, x = op
    T = t[-1] - t[0]
    tt = np.array([t[0] + x * T, t[0] + 0.51 * T])
    native.seed(seed)
    with sample.quiet():
        if what == 'predict':
            return np.array(s.predict(tt, bestfit=fit))
        if what == 'simulate':
            return np.asarray(s.simulate(tt, bestfit=fit))
        if what == 'dic':
            return np.array([s.DIC()])
        import matplotlib.pyplot as plt
        try:
            return np.array(s.plot_power_spectrum(percentile=90.0, doShow=False)[:4])
        finally:
            plt.close('all')


def run(c):
    from scipy.optimize import OptimizeResult
    cm = native.carmcmc()
    import carmcmc.carma_pack as cp
    t, y, e = map(np.array, (c['t'], c['y'], c['e']))
    p, q = c['order']
    o = np.arange(len(t)) if c['shuffle'] is None else np.random.RandomState(c['shuffle']).permutation(len(t))
    ti, yi, ei = t[o], y[o], e[o]
    keep = [ti.copy(), yi.copy(), ei.copy()]
    with sut('CarmaModel'):
        mod = cm.CarmaModel(ti, yi, ei, p=p, q=q)
    tags, made, done, nontriv = [], [], 0, False

    def fake(fun, x0, *a, **kw):
        x0 = np.array(x0, dtype=float)
        return OptimizeResult(x=x0, fun=float(len(x0)) + (x0[0] % 1.0), message='ok', success=True, status=0, nit=1)

    for op in c['ops']:
        k, seed = op[:2]
        if k == 'run':
            a = op[2]
            n = a['n'] if a['burn'] is not None else a['n'] + a['n'] % 2
            iv = []
            if a['init']:
                kind = 'CAR1' if p == 1 else 'CARp' if q == 0 else 'CARMA'
                iv = gens.make_theta(np.random.RandomState(seed % 2 ** 31), kind, p, q, c['t'], c['y']) or []
            kw = {}
            if a['burn'] is not None:
                kw['nburnin'] = a['burn']
            if a['nt'] is not None:
                kw['ntemperatures'] = a['nt']
            if a['thin'] is not None:
                kw['nthin'] = a['thin']
            if iv:
                kw['init'] = native.vecD(iv)
            with sut('run_mcmc'):
                native.seed(seed)
                with sample.quiet():
                    s = mod.run_mcmc(n, **kw)
                ref, x, lp = reference(p, q, t, y, e, n, a['burn'] if a['burn'] is not None else n // 2,
                                       a['nt'] or max(10, p + q), a['thin'] or 1, iv, seed)
            what = 'CARMA(%d,%d) run of %d samples (%r)' % (p, q, n, a)
            require(isinstance(s, cp.CarmaSample) and isinstance(s, cp.Car1Sample) == (p == 1), '%s returned a %s', what,
                    type(s).__name__)
            require(mod.mcmc_sample is s, 'the sample is not stored in the model')
            require((mod.p, mod.q) == (p, q), 'run_mcmc changed the order of the model')
            with sut('the sample'):
                st0 = stored(s, p)
                for w, v in (('time', t), ('y', y), ('ysig', e)):
                    same(getattr(s, w), v, '%s of the sample' % w, 0.0)
                same(st0['logpost'].ravel(), lp, what + ': log posterior')
                same(st0['var'].ravel(), x[:, 0] ** 2, what + ': variance')
                same(st0['measerr_scale'].ravel(), x[:, 1], what + ': error scale')
                same(st0['mu'].ravel(), x[:, 2], what + ': mean')
                if p == 1:
                    same(st0['log_omega'].ravel(), x[:, 3], what + ': log rate')
                else:
                    same(st0['quad_coefs'].reshape(n, -1), np.exp(x[:, 3:3 + p]), what + ': quadratic coefficients', 1e-8)
                    require(st0['ma_coefs'].reshape(n, -1).shape[1] >= q + 1, '%s: too few moving-average terms', what)
            made.append((s, st0, ref, p, q))
            nontriv |= done > 0
            tags.append('run p=%d' % p)
        elif k == 'set':
            mod.p, mod.q = p, q = op[2]
            tags.append(k)
        elif k == 'mle':
            with sut('get_mle'), sample.quiet(), sample.Patch(fake):
                native.seed(seed)
                mod.get_mle(op[2][0], op[2][1], ntrials=op[3])
            require((mod.p, mod.q) == (p, q), 'get_mle changed the order of the model')
            tags.append(k)
        elif k == 'order':
            with sut('choose_order'), sample.quiet(), sample.Patch(fake):
                native.seed(seed)
                mod.choose_order(4, pqlist=[tuple(x) for x in op[2]], ntrials=1)
            p, q = mod.p, mod.q
            tags.append(k)
        elif k == 'other':
            with sut('another model'), sample.quiet():
                native.seed(seed)
                z = cm.CarmaModel(t.copy(), y * 2.0 + 1.0, e.copy(), p=p, q=q)
                zs = z.run_mcmc(4, nburnin=2, ntemperatures=2)
                zs.predict(float(t[0] + 0.4 * (t[-1] - t[0])))
            tags.append(k)
        elif made:
            s, st0, ref, sp, sq = made[op[2] % len(made)]
            if op[3] != 'get' and not (op[3] in ('predict', 'simulate') and op[4] in ('median', 'mean') and
                                       len(np.unique(st0['logpost'])) > 1 and sp > 1):
                # medians and means of roots that change their type along the chain are left out
                with sut(op[3]):
                    a = use(s, op, t, seed)
                    with sample.quiet():
                        arg = (t.copy(), y.copy(), e.copy(), ref)
                        g = cp.Car1Sample(*arg) if sp == 1 else cp.CarmaSample(*arg, q=sq)
                    b = use(g, op, t, seed)
                same(a, b, '%s (%s) of a sample of CARMA(%d,%d) after %d calls' % (op[3], op[4], sp, sq, done), 1e-7)
                nontriv = True
            tags.append(op[3])
        done += 1
        require(all(np.array_equal(a, b) for a, b in zip(keep, (ti, yi, ei))), '%s changed the arrays of the caller', k)
        for w, v in (('time', t), ('y', y), ('ysig', e)):
            same(getattr(mod, w), v, '%s of the model after %s' % (w, k), 0.0)
        for s, st0, _, sp, sq in made:
            with sut('get_samples'):
                now = stored(s, sp)
            for w in now:
                same(now[w], st0[w], 'stored %s of an earlier CARMA(%d,%d) sample after %s' % (w, sp, sq, k), 0.0)
    return dict(nontrivial=nontriv, tags=tags, counts=dict(runs=len(made), operations=done))
