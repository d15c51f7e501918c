"""C19: power-spectrum bands are posterior quantiles of the sample spectra."""
import math

import numpy as np
from common import require, sut
from hypothesis import strategies as st

import gens
import native
import oracle
import sample

TECHNIQUE = 'quantiles of exact spectra (80-bit, from the roots) of the generated draws, at every returned frequency'
RULE = ('a posterior sample object over 1-14 (some 200, or up to 1500 with repeats) generated draws (p=1..8, all q<p), a percentile between 1 and 99.9, all draws or a '
        'requested number of them (chains made of blocks or of two halves of equal draws, so that any way of spreading over '
        'the chain gives the same answer), given or new axes, linear or log; non-trivial when at least 90% of the frequencies '
        'could be judged and the draws differ')
ASSUMPTIONS = ['draws inside the prior support', 'Agg plotting backend']
CHUNK = 20


@st.composite
def _case(draw):
    c = draw(sample.posterior(8, 3, 20, 1, 14, big=90, long=400, many=200, tile=(600, 1500, 1500), sep=draw(st.sampled_from([1e-2, 1e-3]))))
    c['pct'] = draw(st.sampled_from([68.0, 68.0, 95.0, 50.0, 99.7, 10.0, 1.0, 90.0, 99.9]))
    c['sub'] = draw(st.sampled_from(['all', 'all', 'blocks', 'halves', 'halves', 'same']))
    c['m'] = draw(st.sampled_from([1, 2, 3, 7]))
    c['k'] = draw(st.sampled_from([4, 7, 10, 13, 24, 40]))
    c['axes'] = draw(st.booleans())
    c['log'] = draw(st.booleans())
    c['default'] = draw(st.booleans())
    c['seed'] = draw(gens.seeds())
    c['pre'] = draw(st.lists(st.sampled_from(['same', 'decoy', 'sub', 'predict']), max_size=2))
    return c


def case(tier):
    return _case()


def spectra(kind, p, q, th, t, f):
    """Exact spectrum and the relative error allowed at each frequency."""
    pr = oracle.theta_process(kind, p, q, th, t)
    s = (2j * np.pi * f.astype(oracle.LD)).astype(oracle.CLD)
    a = np.ones(len(f), dtype=oracle.CLD)
    for r in pr._r:
        a = a * (s - r)
    b = np.zeros(len(f), dtype=oracle.CLD)
    for x in reversed(pr.ma):
        b = b * s + oracle._ld(x)
    S = oracle._ld(pr.sigsqr) * np.abs(b) ** 2 / np.abs(a) ** 2
    w = 2 * np.pi * f
    if kind == 'CAR1':
        return S, np.full(len(f), 1e-12 * (1 + abs(th[3])))
    tol, _ = oracle.factor_tol(th[3:3 + p])
    ct, _ = oracle.polytol(pr.R, tol)
    ea = sum(x * w ** (p - i) for i, x in enumerate(ct)) / np.abs(a).astype(float)
    eb, matol = np.zeros(len(f)), 0.0
    if q:
        MR = oracle.factor_roots(th[3 + p:])
        mt, _ = oracle.factor_tol(th[3 + p:])
        ct, rel = oracle.polytol(MR, mt)
        ct = [x / (ct[-1] / rel) * 2 for x in ct]
        eb = sum(x * w ** (q - i) for i, x in enumerate(ct)) / np.abs(b).astype(float)
        matol = max(x / abs(float(m)) for x, m in zip(ct[::-1], pr.ma))
    es = oracle.noise_tol(pr, tol, matol)
    return S, 2 * es + 4 * ea + 4 * eb + 1e-12


def run(c):
    import matplotlib.pyplot as plt
    kind, p, q = c['kind'], c['p'], c['q']
    t, y, e = map(np.array, (c['t'], c['y'], c['e']))
    native.seed(c['seed'])
    draws = sample.draws_of(c)
    if draws is None:
        return dict(nontrivial=False, tags=['no parameter vector'])
    kw = {}
    counts = None                 # weights of the distinct draws that the request may use
    n = len(draws)
    if c['sub'] == 'blocks':
        chain = [d for d in draws for _ in range(c['m'])]
        kw['nsamples'] = n
        used = [draws]
    elif c['sub'] == 'halves':
        A, B = draws[0], draws[-1]
        n0 = c['k'] * c['m'] + (c['m'] - 1 if c['m'] > 1 else c['k'] // 2)
        h = n0 // 2
        chain = [A] * h + [B] * (n0 - h)
        k = c['k']
        kw['nsamples'] = k
        used = [[A] * a + [B] * (k - a) for a in range(max(0, k // 2 - 1), min(k, (k + 1) // 2 + 1) + 1)]
    else:
        chain, used = draws, [draws]
        if c['sub'] == 'same':
            kw['nsamples'] = n
    if not (c['default'] and c['pct'] == 68.0):
        kw['percentile'] = c['pct']
    if not (c['default'] and c['log']):
        kw['plot_log'] = c['log']
    with sut('building the sample object'):
        s = sample.build(kind, t, y, e, p, q, chain, [-1.0 * i for i in range(len(chain))])
    ax = None
    try:
        for what in c.get('pre', []):        # earlier calls on this sample or on another one
            with sut('earlier calls'), np.errstate(all='ignore'):
                if what == 'predict':
                    s.predict(t[:1])
                else:
                    x = s if what != 'decoy' else sample.build(kind, t, y, e, p, q, chain[:1], [0.0])
                    x.plot_power_spectrum(doShow=False, percentile=80.0, **(dict(nsamples=1) if what == 'sub' else {}))
        if c['axes']:
            ax = plt.figure().add_subplot(111)
            kw['sp'] = ax
        with sut('plot_power_spectrum'):
            with np.errstate(all='ignore'):
                out = s.plot_power_spectrum(doShow=False, **kw)
        line = None
        if ax is not None and ax.lines:
            line = np.array(ax.lines[-1].get_xydata())
    finally:
        plt.close('all')
    lo, hi, med, f = [np.asarray(v) for v in out[:4]]
    require(lo.shape == hi.shape == med.shape == f.shape and f.ndim == 1 and len(f) > 1, 'shapes %r %r %r %r', lo.shape,
            hi.shape, med.shape, f.shape)
    T, dt = t[-1] - t[0], float(np.min(np.diff(t)))
    require(abs(f[0] * T - 1) < 1e-9, 'frequencies start at %.15g, one over the series length is %.15g', f[0], 1 / T)
    require(abs(f[-1] * 2 * dt - 1) < 1e-9, 'frequencies end at %.15g, one over twice the shortest gap is %.15g', f[-1],
            0.5 / dt)
    require(f[-1] < f[0] * (1 + 1e-9) or np.all(np.diff(f) > 0), 'frequencies do not increase')
    require(np.all(np.isfinite(lo)) and np.all(np.isfinite(hi)) and np.all(np.isfinite(med)), 'a band is not finite')
    require(np.all(lo <= med * (1 + 1e-12)) and np.all(med <= hi * (1 + 1e-12)), 'lower <= median <= upper does not hold')
    require(np.all(lo > 0), 'a power spectrum is not positive')
    cache = {}
    for d in chain:
        if tuple(d) not in cache:
            cache[tuple(d)] = spectra(kind, p, q, d, t, f)
    why = None
    for u in used:
        S = np.array([cache[tuple(d)][0] for d in u])
        E = np.max([cache[tuple(d)][1] for d in u], axis=0)
        ok = E < 1e-3
        a = (100.0 - c['pct']) / 2.0
        why = None
        for name, got, pc in (('lower bound', lo, a), ('median', med, 50.0), ('upper bound', hi, 100.0 - a)):
            S64 = S.astype(float)
            want = np.percentile(S64, pc, axis=0)
            # interpolation between neighbours: the error is at most that of the larger one
            up = np.percentile(S64, pc, axis=0, method='higher')
            bad = ok & ~(np.abs(got - want) <= E * up)
            if np.any(bad):
                k = int(np.argmax(bad))
                why = ('%s of the %g%% band at frequency %.6g is %.12g, the quantile of the sample spectra is %.12g (tolerance '
                       '%.1g)' % (name, c['pct'], f[k], got[k], want[k], E[k] * up[k]))
                break
        if why is None:
            break
    require(why is None, '%s', why)
    if line is not None and len(line) == len(f):
        require(np.array_equal(line[:, 0], f) and np.array_equal(line[:, 1], med), 'the drawn line is not the median spectrum')
    moved = len(cache) > 1
    return dict(nontrivial=bool(moved and ok.mean() >= 0.9), tags=[kind, c['sub'], 'pct=%g' % c['pct'], 'p=%d' % p, 'one draw' if
                not moved else 'several draws'], counts=dict(frequencies=int(ok.sum()), spectra=len(cache)))
