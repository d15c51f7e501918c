"""C22: results do not depend on the choice of units or origin."""
import math

import numpy as np
from common import require, sut
from hypothesis import strategies as st

import gens
import native
import oracle
import pred
import sample

TECHNIQUE = ('a metamorphic relation: the same data evaluated in two systems of units or from two origins must differ exactly by '
             'the change of variables')
RULE = ('a generated series with exactly representable times and values, and the same series after an exact shift of times or '
        'values, a change of the time unit by 1e-12..1e12 or of the measurement unit by 1e-30..1e30; filters (p<=7), model log '
        'densities (five classes), variance and spectrum functions, predictions of posterior samples, and seeded chains (unit '
        'changed by a power of two) are compared; non-trivial when the conditioning bound gives a tolerance below 1e-4')
ASSUMPTIONS = ['shifts are exact in floating point, so that only the code can make a difference',
               'tolerance from the conditioning of the base case, see lib/oracle.py rel_tol/logpost',
               'all intermediate powers of the unit stay far inside the floating-point range']
CHUNK = 60


@st.composite
def _change(draw, p):
    """(time factor, time shift, value factor, value shift)"""
    k = draw(st.sampled_from(['time unit', 'value unit', 'time origin', 'value origin', 'all']))
    u = s = 1.0
    t0 = y0 = 0.0
    if k in ('time unit', 'all'):
        lim = min(12.0, 120.0 / p)
        u = draw(st.sampled_from([86400.0, 1 / 365.25, 24.0, 2.0 ** 20, 2.0 ** -20, 1e9, 1e-9, 1e12, 1e-12, 1e5, 1e-5]))
        if abs(math.log10(u)) > lim:
            u = 10.0 ** (lim if u > 1 else -lim)
    if k in ('value unit', 'all'):
        s = draw(st.sampled_from([1e3, 1e-3, 1e6, 1e-6, 1e-10, 1e10, 1e-20, 1e20, 1e-30, 1e30, 2.0 ** 30]))
    if k in ('time origin', 'all'):
        t0 = float(draw(st.sampled_from([1, -1, 1000, -1000, 53000, 2400000, -2 ** 22, 2 ** 25])))
    if k in ('value origin', 'all'):
        y0 = float(draw(st.sampled_from([1, -1, 100, -100, 5000, -2 ** 20])))
    if k == 'all':
        u = 2.0 ** round(math.log2(u))       # so that the shifted times stay exact
    return dict(kind=k, u=u, t0=t0, s=s, y0=y0)


def snap(x, k):
    return np.round(np.asarray(x) * 2.0 ** k) / 2.0 ** k


@st.composite
def _case(draw, big):
    mode = draw(st.sampled_from(['filter', 'filter', 'filter', 'model', 'model', 'model', 'sample', 'func', 'chain']))
    if mode == 'filter':
        t = np.unique(snap(draw(gens.times(2, 30, units=False, big=big)), 18))
        if len(t) < 2:
            t = np.array([0.0, 1.0])
        pr = draw(gens.process(t, pmax=7))
        sd = gens.stationary_sd(pr) or 1.0
        c = dict(t=[float(x) for x in t], y=draw(gens.values(len(t), sd)), e=draw(gens.errors(len(t), sd, True)), proc=pr,
                 p=len(pr['roots']), q=draw(pred.queries(t)), via=draw(st.sampled_from(['py', 'shim0', 'shim2'])))
        c['q'] = [float(x) for x in snap(c['q'], 20)]
    elif mode == 'func':
        t = draw(gens.times(2, 8, units=False))
        pr = draw(gens.process(t, pmax=7))
        c = dict(t=[float(x) for x in t], proc=pr, p=len(pr['roots']),
                 lags=[float(x) for x in draw(st.lists(st.sampled_from([0.0, 0.5, 1.0, 3.0, 0.01, 20.0]), min_size=1, max_size=4))],
                 freq=[float(x) for x in draw(st.lists(st.sampled_from([0.001, 0.1, 1.0, 0.03, 10.0]), min_size=1, max_size=4))])
    else:
        if mode == 'chain':
            c = draw(gens.data(3, 15, units=False))
            kind, p, q = draw(gens.model_order(4, kinds=('CARMA', 'CARp', 'CAR1', 'ZCAR')))
            c.update(kind=kind, p=p, q=q, nwalk=draw(st.sampled_from([1, 3])), nsamp=draw(st.sampled_from([5, 40])))
        elif mode == 'sample':
            c = draw(sample.posterior(pmax=6, units=False, smax=6))
            c['ma_order'] = c['q']
            c['q'] = draw(pred.queries(c['t'], nmax=3))
            c['q'] = [float(x) for x in snap(c['q'], 20)]
        else:
            c = draw(gens.data(3, 20, big=big, zero=True, units=False))
            kind, p, q = draw(gens.model_order(7))
            c.update(kind=kind, p=p, q=q, via=draw(st.sampled_from(['py', 'shim'])), resolved=draw(st.booleans()))
        t = np.unique(snap(c['t'], 18))
        while len(t) < 3:
            t = np.append(t, t[-1] + 1)
        n = len(t)
        y = np.array(c['y'])[:n]
        while len(y) < n:
            y = np.append(y, y[-1] + 1)
        e = np.resize(np.array(c['e']), n)
        # exactly representable values of order one
        k = 10 - int(math.floor(math.log2(max(float(np.std(y)), 1e-300))))
        sc = 2.0 ** (k - 10)
        y = snap(y * sc, 12)
        if np.std(y) < 1e-3:
            y = y + np.arange(n)
        c.update(t=[float(x) for x in t], y=[float(x) for x in y], e=[float(x) for x in e * sc])
    c.update(mode=mode, seed=draw(gens.seeds()), ch=draw(_change(c['p'])))
    if mode == 'chain':
        c['ch'] = dict(kind='value unit', u=1.0, t0=0.0, s=2.0 ** draw(st.sampled_from([1, 10, -10, -40, 40])), y0=0.0)
    if mode in ('filter', 'func') and c['ch']['y0']:
        c['ch'] = dict(c['ch'], y0=0.0)
    return c


def case(tier):
    return _case(100 if tier == 'quick' else 200)


def moved_process(pr, p, ch):
    u, s = ch['u'], ch['s']
    return (pr['sigsqr'] * s * s * u ** (1 - 2 * p), gens.croots(pr) / u, [m * u ** k for k, m in enumerate(pr['ma'])])


def moved_theta(th, kind, p, q, ch):
    u, s = ch['u'], ch['s']
    th = list(th)
    th[0] *= s
    th[2] = (th[2] + ch['y0']) * s
    lu = math.log(u)
    if kind == 'CAR1':
        th[3] -= lu
        return th
    blocks = [(3, p)] + ([(3 + p, q)] if kind == 'CARMA' else [])
    for a, k in blocks:
        for i in range(k):
            th[a + i] -= lu if i % 2 or (k % 2 and i == k - 1) else 2 * lu
    return th


def series(c, ch):
    t = (np.array(c['t']) + ch['t0']) * ch['u']
    y = (np.array(c['y']) + ch['y0']) * ch['s']
    return t, y, np.array(c['e']) * ch['s']


NONE = dict(kind='none', u=1.0, t0=0.0, s=1.0, y0=0.0)


def unit_noise(c, ch, proc, vmin):
    """Rounding of (t + t0) * u relative to the gaps, as a relative error of one-step quantities."""
    if ch['u'] == 1.0 or math.frexp(ch['u'])[0] == 0.5:
        return 0.0
    tm = float(np.max(np.abs(np.array(c['t']) + ch['t0'])))
    w = max(abs(r) for r in proc.roots)
    return 30 * oracle.EPS * tm * w * proc.amp() * max(proc.k0 / vmin, 1.0)


def run_filter(c):
    ch, pr, p = c['ch'], c['proc'], c['p']
    t, y, e = map(np.array, (c['t'], c['y'], c['e']))
    proc = oracle.Process(pr['sigsqr'], gens.croots(pr), pr['ma'])
    try:
        m0, v0, z0 = oracle.onestep(proc, t, y, e)
    except ValueError:
        return False, ['singular']
    vmin = float(v0.min())
    tol = oracle.rel_tol(proc, t, vmin) + unit_noise(c, ch, proc, vmin)
    out = []
    for x in (NONE, ch):
        tt, yy, ee = series(c, x)
        s2, roots, ma = moved_process(pr, p, x)
        with sut('the filter (%s)' % x['kind']):
            if c['via'] == 'py':
                f = native.PyFilter(tt, yy, ee, s2, roots, ma, car1=p == 1)
            else:
                f = native.Filter(tt, yy, ee, s2, roots, ma, car1=p == 1, how=int(c['via'][-1]))
            m, v = f.filter()
            ans = [f.predict((q + x['t0']) * x['u']) for q in c['q']]
            f.close()
        out.append((m / x['s'], v / x['s'] / x['s'], [(a / x['s'], b / x['s'] / x['s']) for a, b in ans]))
    good = False
    tags = []
    if tol < 1e-3:
        (m, v, _), (m2, v2, _) = out
        require(np.all(np.isfinite(m2)) and np.all(np.isfinite(v2)), 'one-step predictions are not finite after %s', ch)
        zmax = 1.0 + float(np.max(np.abs(z0)))
        dv = float(np.max(np.abs(v - v2) / v))
        dm = float(np.max(np.abs(m - m2) / np.sqrt(v))) / zmax
        require(dv <= 2 * tol, 'one-step variances change by %.3g (relative) after %s', dv, ch)
        require(dm <= 2 * tol, 'one-step means change by %.3g standard deviations after %s', dm * zmax, ch)
        good = tol < 1e-4
    else:
        tags.append('ill-conditioned')
    zmax = 1.0 + float(np.max(np.abs(z0)))
    for k, q in enumerate(c['q']):
        i = int(np.searchsorted(t, q))
        (a, b), (a2, b2) = out[0][2][k], out[1][2][k]
        if i < len(t) and t[i] == q and e[i] == 0:
            require(abs(a2 - a) <= 1e-9 * max(abs(a), math.sqrt(proc.k0)) and abs(b2 - b) <= 1e-9 * proc.k0,
                    'prediction at a noise-free measurement changes from %r to %r after %s', (a, b), (a2, b2), ch)
            continue
        try:
            vm = pred.vmin_with(proc, t, e, q)
        except ValueError:
            continue
        tq = oracle.rel_tol(proc, np.append(t, q), vm) + 100 * oracle.EPS * float(np.max(e)) ** 2 / vm
        tq += unit_noise(dict(t=list(t) + [q]), ch, proc, vm)
        if not tq < 1e-3:
            continue
        require(math.isfinite(a2) and math.isfinite(b2), 'prediction (%r, %r) after %s', a2, b2, ch)
        require(abs(b - b2) <= 2 * tq * proc.k0 and (b <= 0 or abs(b - b2) <= 2 * tq * b),
                'prediction variance changes from %.15g to %.15g after %s', b, b2, ch)
        require(abs(a - a2) <= 2 * tq * math.sqrt(proc.k0) * zmax, 'prediction mean changes from %.15g to %.15g after %s', a, a2,
                ch)
        good = good or tq < 1e-4
    return good, tags


def run_model(c):
    kind, p, q, ch = c['kind'], c['p'], c['q'], c['ch']
    rs = np.random.RandomState(c['seed'])
    th = gens.make_theta(rs, kind, p, q, c['t'], c['y'], resolved=c['resolved'])
    if th is None:
        return False, ['no parameters']
    th[2] = float(snap(th[2], 12))
    t, y, e = map(np.array, (c['t'], c['y'], c['e']))
    want, tol, proc = oracle.logpost(kind, p, q, th, t, y, e, extreme=True)
    if want is None or not tol < 1e-2:
        return False, ['ill-conditioned']
    n = len(t)
    tol += 1e-11 * n * abs(math.log(ch['s']))
    # the moved parameters are rounded themselves
    lu = abs(math.log(ch['u'])) if ch['u'] != 1 else 0.0
    _, v, z = oracle.loglik(proc, t, y - th[2], e * math.sqrt(th[1]))
    vm = float(v.min())
    tol += (100 * oracle.EPS * lu * proc.amp() * max(proc.k0 / vm, 1.0) + unit_noise(c, ch, proc, vm)) * (n + float(np.sum(z * z)))
    if not tol < 1e-2:
        return False, ['ill-conditioned']
    vals = []
    for x in (NONE, ch):
        tt, yy, ee = series(c, x)
        th2 = moved_theta(th, kind, p, q, x)
        with sut('the model (%s)' % x['kind']):
            if c['via'] == 'py' and kind in ('CAR1', 'CARp', 'CARMA'):
                import carmcmc._carmcmc as L
                a = (True, 'm', native.vecD(tt), native.vecD(yy), native.vecD(ee))
                m = {'CAR1': lambda: L.CAR1(*a), 'CARp': lambda: L.CARp(*a, p), 'CARMA': lambda: L.CARMA(*a, p, q)}[kind]()
                vals.append(m.getLogDensity(native.vecD(th2)))
            else:
                m = native.Model(kind, tt, yy, ee, p, q)
                vals.append(m.logdens(th2))
                m.close()
    d = vals[1] + n * math.log(ch['s']) - vals[0]
    require(math.isfinite(vals[1]), 'log density %r after %s (before: %r)', vals[1], ch, vals[0])
    require(abs(d) <= 2 * tol, 'log density changes by %.6g more than %s implies (tolerance %.1g)', d, ch, 2 * tol)
    return tol < 1e-3, [kind]


def run_func(c):
    import carmcmc.carma_pack as cp
    pr, p, ch = c['proc'], c['p'], c['ch']
    proc = oracle.Process(pr['sigsqr'], gens.croots(pr), pr['ma'])
    tol = oracle.rel_tol(proc, c['t'], proc.k0)
    if not tol < 1e-3:
        return False, ['ill-conditioned']
    res = []
    for x in (NONE, ch):
        s2, roots, ma = moved_process(pr, p, x)
        with sut('carma_variance and power_spectrum (%s)' % x['kind']):
            v = [float(cp.carma_variance(s2, roots, ma_coefs=ma, lag=l * x['u'])) / x['s'] / x['s'] for l in c['lags']]
            ar = np.real(np.poly(roots))
            f = np.array(c['freq']) / x['u']
            s = np.asarray(cp.power_spectrum(f, math.sqrt(s2), ar, ma)) / x['s'] / x['s'] / x['u']
        res.append((v, s))
    for l, a, b in zip(c['lags'], res[0][0], res[1][0]):
        require(abs(a - b) <= 2 * tol * proc.k0, 'autocovariance at lag %r changes from %.15g to %.15g after %s', l, a, b, ch)
    # the spectrum from polynomial coefficients loses the cancellation of alpha(i w) and beta(i w)
    for f, a, b in zip(c['freq'], res[0][1], res[1][1]):
        w = 2 * math.pi * f
        al = np.poly(gens.croots(pr))[::-1].real
        ca = sum(abs(x) * w ** k for k, x in enumerate(al)) / abs(sum(x * (1j * w) ** k for k, x in enumerate(al)))
        nb = abs(sum(x * (1j * w) ** k for k, x in enumerate(pr['ma'])))
        cb = sum(abs(x) * w ** k for k, x in enumerate(pr['ma'])) / nb if nb else math.inf
        ts = 1e4 * oracle.EPS * (ca + cb) + 1e-12
        if ts < 1e-3:
            require(math.isfinite(b) and abs(a - b) <= ts * a, 'power spectrum at %r changes from %.15g to %.15g after %s', f, a, b,
                    ch)
    return tol < 1e-4, ['func']


def run_posterior(c, q, qs):
    kind, p, ch = c['kind'], c['p'], c['ch']
    ds = sample.draws_of(dict(c, q=q))
    if ds is None:
        return False, ['no parameters']
    for d in ds:
        d[2] = float(snap(d[2], 12))
    ds = ds[:1]
    t, y, e = map(np.array, (c['t'], c['y'], c['e']))
    th = ds[0]
    proc = oracle.theta_process(kind, p, q, th, t)
    extra = oracle.rounding(kind, p, q, th, t)
    lu = abs(math.log(ch['u'])) if ch['u'] != 1 else 0.0
    res = []
    for x in (NONE, ch):
        tt, yy, ee = series(c, x)
        d2 = [moved_theta(d, kind, p, q, x) for d in ds]
        with sut('posterior predictions (%s)' % x['kind']):
            s = sample.build(kind, tt, yy, ee, p, q, d2, [0.0])
            m, v = s.predict((np.array(qs) + x['t0']) * x['u'], bestfit='median')
        res.append((np.asarray(m) / x['s'] - x['y0'], np.asarray(v) / x['s'] / x['s']))
    good = False
    yc = y - th[2]
    try:
        K = proc.cov(t, t) + np.diag(np.asarray(e, dtype=oracle.LD) ** 2)
        z = oracle.fsolve(oracle.chol(K), np.asarray(yc, dtype=oracle.LD))
    except ValueError:
        return False, ['singular']
    zmax = 1.0 + float(np.max(np.abs(z)))
    for k, x in enumerate(qs):
        try:
            vm = pred.vmin_with(proc, t, e, x)
        except ValueError:
            continue
        tol = oracle.rel_tol(proc, np.append(t, x), vm) + 100 * oracle.EPS * float(np.max(e)) ** 2 / vm
        tol += (10 * extra + 100 * oracle.EPS * lu * proc.amp()) * max(proc.k0 / vm, 1.0)
        tol += unit_noise(dict(t=list(t) + [x]), ch, proc, vm)
        if not tol < 1e-3:
            continue
        a, b, a2, b2 = res[0][0][k], res[0][1][k], res[1][0][k], res[1][1][k]
        off = 20 * oracle.EPS * (abs(ch['y0']) + abs(th[2]))
        require(math.isfinite(a2) and math.isfinite(b2) and abs(b - b2) <= 2 * tol * proc.k0,
                'posterior prediction variance changes from %.15g to %.15g after %s', b, b2, ch)
        require(abs(a - a2) <= 2 * tol * math.sqrt(proc.k0) * zmax + off,
                'posterior prediction changes from %.15g to %.15g after %s', a, a2, ch)
        good = good or tol < 1e-4
    return good, [kind]


def run_chain(c):
    kind, p, q, s = c['kind'], c['p'], c['q'], c['ch']['s']
    res = []
    for x in (NONE, c['ch']):
        native.seed(c['seed'])
        t, y, e = series(c, x)
        with sut('the sampler (%s)' % x['kind']):
            m = native.run_sampler(t, y, e, p, q, nsamp=c['nsamp'], burn=20, nwalk=c['nwalk'], zcarma=kind == 'ZCAR')
            ths, lp = m.samples()
            m.close()
        ths = ths.copy()
        ths[:, [0, 2]] /= x['s']
        res.append((ths, lp + len(t) * math.log(x['s'])))
    (a, la), (b, lb) = res
    # the two runs must be the same chain
    sc = np.maximum(np.abs(a), float(np.std(c['y'])) * 1e-3)
    d = np.max(np.abs(a - b) / sc)
    require(d < 1e-6, 'with measurements and errors multiplied by %g the same random numbers give another chain (largest relative '
            'difference %.3g)', s, float(d))
    require(np.max(np.abs(la - lb)) <= 1e-6 * (1 + np.max(np.abs(la))), 'log densities along the chain differ by %.3g',
            float(np.max(np.abs(la - lb))))
    return len(np.unique(a[:, 0])) > 1, ['chain', kind]


def run(c):
    native.carmcmc()
    if c['mode'] == 'filter':
        good, tags = run_filter(c)
    elif c['mode'] == 'model':
        good, tags = run_model(c)
    elif c['mode'] == 'func':
        good, tags = run_func(c)
    elif c['mode'] == 'chain':
        good, tags = run_chain(c)
    else:
        good, tags = run_posterior(c, c['ma_order'], c['q'])
    return dict(nontrivial=good, tags=tags + [c['mode'], c['ch']['kind'], 'p=%d' % c['p']])
