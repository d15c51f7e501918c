"""C27: the fit-assessment figure shows the model's true residuals and interpolation."""
import math

import numpy as np
from common import require, sut
from hypothesis import strategies as st

import gens
import native
import oracle
import pred
import sample

TECHNIQUE = ('the data of the artists in the returned figure against dense Gaussian conditioning under the selected parameters and '
             'directly summed autocorrelations')
RULE = ('a posterior sample object over 1-7 generated draws (some with repeats up to 1200; p=1..7, all q<p) on a generated series of 3-70, some up to 300, points, best-fit map, '
        'median or mean, 2-40 (some 400) plotted interpolation times; the figure is drawn off screen and its points, bands and bars are '
        'compared; non-trivial when the residuals could be judged to 1e-4')
ASSUMPTIONS = ['measurement errors are used as supplied', 'the figure has the data, residual, residual autocorrelation and squared '
               'residual autocorrelation panels in this order']
CHUNK = 10


@st.composite
def _case(draw):
    fit = draw(st.sampled_from(['map', 'median', 'mean']))
    c = draw(sample.posterior(7, 3, draw(st.sampled_from([10, 30, 70])), 1, 7, big=100, long=300, tile=(300, 1200), style='free' if fit == 'map' else 'scale'))
    c.update(fit=fit, case=draw(st.sampled_from(['lower', 'upper', 'title'])), seed=draw(gens.seeds()),
             nplot=draw(st.sampled_from([2, 3, 10, 40] * 6 + [400])), default=draw(st.booleans()))
    return c


def case(tier):
    return _case()


def points(ax):
    return [(np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)) for l in ax.lines]


def bars(ax):
    """{lag: height} of the vertical bars of an autocorrelation panel."""
    from matplotlib.collections import LineCollection
    out = {}
    for k in ax.collections:
        if isinstance(k, LineCollection):
            for s in k.get_segments():
                require(s[0][0] == s[1][0], 'slanted bar in an autocorrelation panel')
                out[int(round(s[0][0]))] = float(s[1][1] if abs(s[1][1]) >= abs(s[0][1]) else s[0][1])
    if not out:                              # drawn as markers
        for x, y in points(ax):
            if len(x) > 2:
                out.update({int(round(a)): float(b) for a, b in zip(x, y)})
    return out


def acf(x, k):
    x = np.asarray(x, dtype=oracle.LD)
    k = abs(k)
    return float(np.sum(x[:len(x) - k] * x[k:]) / np.sum(x * x))


def run(c):
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib import pyplot as plt
    kind, p, q = c['kind'], c['p'], c['q']
    t, y, e = map(np.array, (c['t'], c['y'], c['e']))
    rs = np.random.RandomState(c['seed'])
    draws = sample.draws_of(c)
    tags = [kind, c['fit'], 'n>50' if len(t) > 50 else 'n<=50']
    if draws is None:
        return dict(nontrivial=False, tags=['no parameter vector'])
    n = len(draws)
    lps = [float(v) for v in rs.permutation(n) - 0.4 * rs.uniform(size=n) - 3]
    for i in range(1, n):
        if draws[i] == draws[i - 1]:
            lps[i] = lps[i - 1]
    (proc, mu), = sample.candidates(c, draws, lps)
    extra = 0.0 if kind == 'CAR1' else 10 * max(oracle.rounding(kind, p, q, th, t) for th in set(map(tuple, draws)))
    fit = getattr(c['fit'], c['case'])()
    args = dict(doShow=False, nplot=c['nplot'])
    if not (c['default'] and c['fit'] == 'map'):
        args['bestfit'] = fit
    if not extra < 1e-4:
        return dict(nontrivial=False, tags=tags + ['ill-conditioned'])
    try:
        m0, v0, z0 = oracle.onestep(proc, t, y - mu, e)
    except ValueError:
        return dict(nontrivial=False, tags=tags + ['singular'])
    vmin = float(v0.min())
    tol = oracle.rel_tol(proc, t, vmin) + extra * max(proc.k0 / vmin, 1.0) + 100 * oracle.EPS * float(np.max(e)) ** 2 / vmin
    tol += 10 * oracle.EPS * (abs(mu) + float(np.max(np.abs(y)))) / math.sqrt(vmin)
    if not tol < 1e-4:
        return dict(nontrivial=False, tags=tags + ['ill-conditioned'])
    z = z0.astype(float)
    zmax = 1.0 + float(np.max(np.abs(z)))
    try:
        with sut('assess_fit'):
            s = sample.build(kind, t, y, e, p, q, draws, lps)
            with np.errstate(all='ignore'):
                fig = s.assess_fit(**args)
            ax = fig.axes
        require(len(ax) == 4, 'the figure has %d panels', len(ax))
        # data and interpolation
        require(any(np.array_equal(a, t) and np.array_equal(b, y) for a, b in points(ax[0])), 'the measured series is not shown')
        x = np.linspace(t.min(), t.max(), c['nplot'])
        span = t.max() - t.min()
        cand = [b for a, b in points(ax[0]) if len(a) == len(x) and np.max(np.abs(a - x)) <= 1e-9 * span
                and not (np.array_equal(a, t) and np.array_equal(b, y))]
        if not cand and c['nplot'] == len(t):
            return dict(nontrivial=False, tags=tags)
        require(len(cand) == 1, 'the interpolation at %d times is not shown', len(x))
        from matplotlib.collections import PolyCollection
        polys = [k for k in ax[0].collections if isinstance(k, PolyCollection)]
        require(len(polys) == 1, 'no band around the interpolation')
        V = polys[0].get_paths()[0].vertices
        lo, hi = np.full(len(x), np.inf), np.full(len(x), -np.inf)
        for a, b in V:
            i = int(np.argmin(np.abs(x - a)))
            lo[i], hi[i] = min(lo[i], b), max(hi[i], b)
        # half width of the band and its centre against the exact conditionals
        mean = cand[0]
        wid = (hi - lo) / 2
        require(np.all(np.isfinite(wid)), 'the band does not cover all plotted times')
        off = 1e-9 * (float(np.max(np.abs(y))) + abs(mu)) / math.sqrt(proc.k0)
        g, tg = pred.judge(proc, t, y - mu, e, [float(v) for v in x], list(zip(mean - mu, wid ** 2)), 'interpolation: ',
                           extra=extra + off ** 2 + off)
        require(np.all(np.abs((hi + lo) / 2 - mean) <= 1e-6 * wid + 1e-9 * np.max(np.abs(mean))), 'the band is not centred on the '
                'interpolation')
        # residuals
        res = [b for a, b in points(ax[1]) if np.array_equal(a, t)]
        require(len(res) == 1, 'the standardised residuals are not shown at the measured times')
        res = res[0]
        d = float(np.max(np.abs(res - z)))
        require(np.all(np.isfinite(res)) and d <= tol * zmax, 'a standardised residual is off by %.3g (tolerance %.1g)', d,
                tol * zmax)
        # autocorrelations of what is shown
        r2 = z * z
        r2 = r2 - r2.mean()
        njudged = 0
        for k, (a, name) in enumerate(((z, 'residuals'), (r2, 'squared residuals'))):
            got = bars(ax[2 + k])
            require(len(got) > 0, 'no autocorrelation of the %s is shown', name)
            want = min(50, len(t) - 1)
            require(set(range(0, want + 1)) <= set(got), 'autocorrelations of the %s are shown for lags %d to %d', name, min(got),
                    max(got))
            bands = [k2 for k2 in ax[2 + k].collections if isinstance(k2, PolyCollection)]
            require(len(bands) == 1, 'no white-noise bounds in the autocorrelation panel of the %s', name)
            V = bands[0].get_paths()[0].vertices[:, 1]
            lim = 1.96 / math.sqrt(len(t))
            require(abs(V.max() - lim) < 1e-3 * lim and abs(V.min() + lim) < 1e-3 * lim, 'the 95%% white-noise bounds of the %s are '
                    'drawn at %.4g and %.4g for %d points', name, float(V.min()), float(V.max()), len(t))
            den = float(np.sum(a * a))
            if not den > 1e-6 * len(t) * zmax:
                continue
            tl = 20 * tol * zmax ** (2 + 2 * k) * len(t) / den + 1e-9
            if not tl < 1e-3:
                continue
            njudged += 1
            for lag, h in got.items():
                w = acf(a, lag)
                require(abs(h - w) <= tl, 'autocorrelation of the %s at lag %d is shown as %.6g, is %.6g', name, lag, h, w)
    finally:
        plt.close('all')
    return dict(nontrivial=True, tags=tags + sorted(set(tg)), counts=dict(residuals=len(t), interpolations=len(x), panels=njudged))
