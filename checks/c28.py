"""C28: the diagnostic plots of a sample show the stored draws and their statistics."""
import math
import sys
import types

import numpy as np
from common import require, sut
from hypothesis import strategies as st

import gens
import native
import oracle
import sample

TECHNIQUE = 'the data of the artists drawn by each plotting method against the stored draws and directly computed statistics'
RULE = ('a container of 2-4 generated parameters (1-5 elements, 2-300, some up to 12000, draws: independent, random walk, ties, integers, heavy-tailed) '
        'or a posterior sample object, then 1-3 plots (trace, histogram, joint, joint density, autocorrelation, parameter summary) of '
        'generated parameters and elements, drawn off screen; non-trivial when the points, bars or contours of a plot were compared')
ASSUMPTIONS = ['draws are stored one row per draw (newaxis was called for scalar parameters)', 'real parameters',
               'the acor package (absent here) is replaced by a stand-in that returns a known autocorrelation time']
CHUNK = 10
_seen = []


def tau_of(x):
    x = np.asarray(x, dtype=float)
    d = x - x.mean()
    v = float(np.dot(d, d))
    if not v > 0 or len(x) < 3:
        return 1.5
    return 1.0 + 2.0 * abs(float(np.dot(d[1:], d[:-1])) / v)


def _acor(x, *args):
    _seen.append(1)
    return tau_of(x), float(np.mean(x)), float(np.std(x))


_fake = types.ModuleType('acor')
_fake.acor = _acor
_fake.function = lambda x, *a: np.ones(len(x))
sys.modules['acor'] = _fake

NAMES = ['alpha', 'beta', 'x y', 'M']
KINDS = ['trace', 'hist', 'joint', 'density', 'acf', 'parameter', 'missing']


@st.composite
def _param(draw, n):
    return dict(d=draw(st.sampled_from([1, 2, 3, 5])), seed=draw(gens.seeds()), n=n,
                style=draw(st.sampled_from(['normal', 'normal', 'walk', 'integers', 'ties', 'heavy', 'scaled'])))


@st.composite
def _case(draw):
    c = {}
    if draw(st.integers(0, 3)) == 0:
        c = draw(sample.posterior(5, 3, 8, 2, 30, many=400, style=draw(st.sampled_from(['free', 'chain']))))
        c['mode'] = 'sample'
    else:
        n = draw(st.sampled_from([2, 3, 7, 20, 60, 300, 300, 300, 2500] * 4 + [12000]))
        c = dict(mode='plain', n=n, pars=draw(st.lists(_param(n), min_size=2, max_size=4)), matrix=draw(st.booleans()))
    c['plots'] = draw(st.lists(st.tuples(st.sampled_from(KINDS), st.integers(0, 30), st.integers(0, 6), st.integers(0, 30),
                                         st.integers(0, 6), st.booleans()), min_size=1, max_size=3))
    return c


def case(tier):
    return _case()


def values(f):
    rs = np.random.RandomState(f['seed'])
    x = rs.normal(size=(f['n'], f['d']))
    s = f['style']
    if s == 'heavy':
        x = rs.standard_cauchy(size=x.shape)
    elif s == 'walk':
        x = np.cumsum(x, axis=0) + 100
    elif s == 'integers':
        x = rs.randint(-5, 6, size=x.shape).astype(float)
    elif s == 'ties':
        x = x[np.sort(rs.randint(0, max(1, f['n'] // 2), size=f['n']))]
    elif s == 'scaled':
        x = x * 10 ** rs.uniform(-3, 3) + rs.normal()
    return x


def top_down(fig):
    return sorted(fig.axes, key=lambda a: -a.get_position().y0)


def lines(ax):
    return [(np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)) for l in ax.lines]


def has_trace(ax, x, what):
    n = len(x)
    ok = any(len(b) == n and np.array_equal(b, x) and np.array_equal(a - a[0], np.arange(n)) for a, b in lines(ax))
    require(ok, '%s: the draws in chain order are not shown', what)


def bars(ax):
    from matplotlib.collections import LineCollection
    out = {}
    for k in ax.collections:
        if isinstance(k, LineCollection):
            for s in k.get_segments():
                out[int(round(s[0][0]))] = float(s[1][1] if abs(s[1][1]) >= abs(s[0][1]) else s[0][1])
    return out


def check_acf(ax, x, what):
    n = len(x)
    ld = np.asarray(x, dtype=oracle.LD)
    d = ld - ld.mean()
    v = float(np.sum(d * d))
    if not v > 1e-12 * n * float(np.max(np.abs(x))) ** 2:
        return
    got = bars(ax)
    require(set(range(n)) <= set(got), '%s: the autocorrelation is not shown at every lag (%d of %d)', what, len(got), n)
    tol = 1e-9 + 1e-13 * n * float(np.max(np.abs(x))) ** 2 / v
    for k, h in got.items():
        k = abs(k)
        w = float(np.sum(d[:n - k] * d[k:])) / v
        require(abs(h - w) <= tol, '%s: autocorrelation at lag %d is shown as %.8g, is %.8g', what, k, h, w)


def near_count(x, a, b, last, eps):
    """Smallest and largest admissible count of values in the bin [a, b)."""
    sure = int(np.sum((x > a + eps) & (x < b - eps)))
    edge = int(np.sum(np.abs(x - a) <= eps)) + int(np.sum(np.abs(x - b) <= eps))
    return sure, sure + edge


def check_hist(ax, x, what, density, horizontal=False):
    """Rectangles of a histogram of x: positions, and counts (or densities)."""
    R = []
    for r in ax.patches:
        a, b, w, h = r.get_x(), r.get_y(), r.get_width(), r.get_height()
        R.append((b, h, w) if horizontal else (a, w, h))
    R.sort()
    require(len(R) >= 2, '%s: no histogram', what)
    span = max(R[-1][0] + R[-1][1] - R[0][0], 1e-300)
    eps = 1e-9 * span + 1e-12 * float(np.max(np.abs(x)))
    require(R[0][0] - eps <= x.min() and x.max() <= R[-1][0] + R[-1][1] + eps, '%s: the histogram leaves out draws', what)
    total = 0.0
    for i, (a, w, h) in enumerate(R):
        if i:
            require(abs(R[i - 1][0] + R[i - 1][1] - a) <= eps, '%s: the bins of the histogram have gaps or overlap', what)
        c = h * w * len(x) if density else h
        total += c
        lo, hi = near_count(x, a, a + w, i == len(R) - 1, eps)
        require(lo - 1e-6 * len(x) <= c <= hi + 1e-6 * len(x), '%s: the bar from %.6g to %.6g stands for %.6g draws of %d; there are '
                '%d', what, a, a + w, c, len(x), lo)
    require(abs(total - len(x)) <= 1e-6 * len(x), '%s: the bars stand for %.6g of %d draws', what, total, len(x))


def joint_axes(fig):
    """(joint, above, right)"""
    ax = sorted(fig.axes, key=lambda a: -a.get_position().width * a.get_position().height)
    require(len(ax) == 3, 'the joint plot has %d panels', len(ax))
    j = ax[0]
    up, right = sorted(ax[1:], key=lambda a: -a.get_position().y0)
    return j, up, right


def kde_grid(x, y, nbins):
    """Gaussian kernel estimate with Scott's bandwidth on the grid over the range of the draws."""
    n = len(x)
    C = np.cov(np.array([x, y]), ddof=1) * n ** (-1.0 / 3)
    det = C[0, 0] * C[1, 1] - C[0, 1] ** 2
    if not det > 1e-8 * C[0, 0] * C[1, 1]:
        return None
    gx, gy = np.linspace(x.min(), x.max(), nbins), np.linspace(y.min(), y.max(), nbins)
    h = np.zeros((nbins, nbins))
    for a, b in zip(x, y):
        u, v = gx[None, :] - a, gy[:, None] - b
        h += np.exp(-0.5 * (C[1, 1] * u * u - 2 * C[0, 1] * u * v + C[0, 0] * v * v) / det)
    return gx, gy, h / (2 * math.pi * n * math.sqrt(det))


def check_density(fig, x, y, name, stragglers, nbins):
    from matplotlib.contour import ContourSet
    j, up, right = joint_axes(fig)
    check_hist(up, x, name + ' joint density', False)
    check_hist(right, y, name + ' joint density', False, True)
    sets = [k for k in j.collections if isinstance(k, ContourSet)]
    require(len(sets) == 1, 'no contours in the joint density plot')
    cs = sets[0]
    g = kde_grid(x, y, nbins)
    if g is None:
        return []
    gx, gy, h = g
    if not h.max() > 1e-6:
        return []
    lev = [float(v) for v in cs.levels]
    require(len(lev) == 3, 'the joint density plot has %d contours', len(lev))
    tot = h.sum()
    for v, frac in zip(sorted(lev), (0.9973, 0.9545, 0.6827)):
        a = float(h[h >= v * (1 + 1e-6)].sum() / tot)
        b = float(h[h >= v * (1 - 1e-6)].sum() / tot)
        step = float(h[(h >= v * 0.97) & (h <= v * 1.03)].max(initial=0.0) / tot) * 8 + 1e-4
        require(a - step <= frac <= b + step, 'the contour for %.4f of the joint density encloses %.6f', frac, (a + b) / 2)
    # the contours lie at their level
    from scipy.interpolate import RegularGridInterpolator
    f = RegularGridInterpolator((gy, gx), h)
    for v, segs in zip(lev, cs.allsegs):
        for s in segs:
            s = np.asarray(s)
            z = f(np.column_stack([np.clip(s[:, 1], gy[0], gy[-1]), np.clip(s[:, 0], gx[0], gx[-1])]))
            require(np.all(np.abs(z - v) <= 0.2 * v + 0.02 * h.max()), 'a contour of the joint density is not at its level')
    tags = ['contours']
    low = cs.allsegs[int(np.argmin(lev))]
    if stragglers and low:
        # a draw is judged when the density and the drawn polygon agree about its side of the outer contour
        from matplotlib.path import Path
        v = min(lev)
        shown = {(float(a), float(b)) for xs, ys in lines(j) for a, b in zip(xs, ys)}
        ix = np.clip(np.searchsorted(gx, x) - 1, 0, nbins - 2)
        iy = np.clip(np.searchsorted(gy, y) - 1, 0, nbins - 2)
        H = np.array([h[iy, ix], h[iy + 1, ix], h[iy, ix + 1], h[iy + 1, ix + 1]])
        inside = np.any([Path(s).contains_points(np.column_stack([x, y])) for s in low], axis=0)
        for k in range(len(x)):
            if H[:, k].max() < v * 0.999 and not inside[k]:
                require((x[k], y[k]) in shown, 'a draw outside the outer contour is not shown')
                tags.append('straggler')
            elif H[:, k].min() > v * 1.001 and inside[k]:
                require((x[k], y[k]) not in shown, 'a draw inside the outer contour is shown as lying outside')
                tags.append('inside')
        tags = sorted(set(tags))
    return tags


def run(c):
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib import pyplot as plt
    del _seen[:]
    native.carmcmc()
    from carmcmc.samplers import MCMCSample
    if c['mode'] == 'sample':
        draws = sample.draws_of(c)
        if draws is None:
            return dict(nontrivial=False, tags=['no parameters'])
        rs = np.random.RandomState(c['tseed'])
        with sut('building the sample object'):
            s = sample.build(c['kind'], c['t'], c['y'], c['e'], c['p'], c['q'], draws, [float(v) for v in rs.normal(size=len(draws))])
            s.newaxis()
            model = {k: np.array(s.get_samples(k)) for k in s.parameters}
        model = {k: v for k, v in model.items() if not np.iscomplexobj(v) and v.ndim == 2}
    else:
        s = MCMCSample()
        model = {NAMES[i]: values(f) for i, f in enumerate(c['pars'])}
        for k, v in model.items():
            s._samples[k] = v.copy()
    names = sorted(model)
    tags, done = [c['mode']], 0
    for kind, i1, e1, i2, e2, flag in c['plots']:
        n1, n2 = names[i1 % len(names)], names[i2 % len(names)]
        x1, x2 = model[n1], model[n2]
        plt.close('all')
        w = '%s of %s' % (kind, n1)
        if not np.all(np.isfinite(x1)) or not np.all(np.isfinite(x2)):
            continue
        try:
            with sut(w), sample.quiet(), np.errstate(all='ignore'):
                nb = 40
                if kind == 'trace':
                    s.plot_trace(n1)
                elif kind == 'hist':
                    s.plot_1dpdf(n1)
                elif kind == 'acf':
                    s.plot_autocorr(n1)
                elif kind == 'parameter':
                    k1 = e1 % x1.shape[1]
                    s.plot_parameter(n1, **({} if k1 == 0 and flag else dict(pindex=k1)))
                elif kind == 'missing':
                    for f in (s.plot_trace, s.plot_1dpdf, s.plot_autocorr, s.plot_parameter, s.effective_samples):
                        f('no such parameter')
                    s.plot_2dpdf(n1, 'no such parameter')
                    s.plot_2dpdf('no such parameter', n1)
                    s.plot_2dpdf(n1, n2, x1.shape[1], 0)
                    s.plot_2dpdf(n1, n2, 0, x2.shape[1])
                else:
                    k1, k2 = e1 % x1.shape[1], e2 % x2.shape[1]
                    a, b = x1[:, k1], x2[:, k2]
                    if len(a) != len(b):
                        continue
                    kw = {} if k1 == k2 == 0 and flag else dict(pindex1=k1, pindex2=k2)
                    if kind == 'joint':
                        s.plot_2dpdf(n1, n2, **kw)
                    else:
                        sc = np.std(a) * np.std(b)
                        if len(a) < 7 or not 1e-6 < sc < 1e4 or kde_grid(a, b, 5) is None or max(np.ptp(a) / np.std(a), np.ptp(b) /
                                                                                                 np.std(b)) > 12:
                            continue
                        s.plot_2dkde(n1, n2, doPlotStragglers=flag, nbins=nb, **kw)
            figs = plt.get_fignums()
            if kind == 'missing':
                require(not figs, 'a figure is drawn for a parameter that does not exist')
                done += 1
                tags.append(kind)
                continue
            require(len(figs) == 1, '%s: %d figures', w, len(figs))
            fig = plt.figure(figs[0])
            if kind in ('trace', 'hist', 'acf'):
                ax = top_down(fig)
                require(len(ax) == x1.shape[1], '%s: %d panels for %d elements', w, len(ax), x1.shape[1])
                for k, a in enumerate(ax):
                    v = x1[:, k]
                    wk = '%s element %d' % (w, k)
                    if kind == 'trace':
                        has_trace(a, v, wk)
                    elif kind == 'hist':
                        check_hist(a, v, wk, True)
                    else:
                        check_acf(a, v, wk)
                        if _seen:
                            tau = tau_of(v)
                            require(any(np.all(np.abs(xs - tau) <= 1e-9 * tau) for xs, ys in lines(a)), '%s: the autocorrelation time '
                                    '%.6g is not marked', wk, tau)
            elif kind == 'parameter':
                v = x1[:, k1]
                top, low = top_down(fig)
                has_trace(top, v, w)
                check_acf(low, v, w)
                R = sorted((r.get_y(), r.get_height(), r.get_width()) for r in top.patches)
                require(len(R) >= 2, '%s: no histogram', w)
                if np.ptp(v) > 1e-9 * np.max(np.abs(v)):
                    nb = len(R)
                    edges = np.linspace(v.min(), v.max(), nb + 1)
                    eps = 1e-9 * np.ptp(v)
                    big = max(r[2] for r in R)
                    best = max(np.histogram(v, bins=edges)[0])
                    for k, (b, h, width) in enumerate(R):
                        lo, hi = near_count(v, edges[k], edges[k + 1], k == nb - 1, eps)
                        cnt = width / big * best
                        require(abs(b - edges[k]) <= 1.01 * h, '%s: a histogram bar is not at its bin', w)
                        amb = sum(np.any(np.abs(v - e) <= eps) for e in edges[1:-1])
                        require(amb or lo - 1e-6 <= cnt <= hi + 1e-6, '%s: the bar at %.6g stands for %.6g draws, there are %d', w, b,
                                cnt, lo)
            elif kind == 'joint':
                j, up, right = joint_axes(fig)
                require(any(np.array_equal(xs, a) and np.array_equal(ys, b) for xs, ys in lines(j)), '%s and %s: the pairs of draws are '
                        'not shown', w, n2)
                check_hist(up, a, w, False)
                check_hist(right, b, w, False, True)
                require(n1 in j.get_xlabel() and str(k1) in j.get_xlabel() and n2 in j.get_ylabel() and str(k2) in j.get_ylabel(),
                        '%s: the axes are labelled %r and %r', w, j.get_xlabel(), j.get_ylabel())
            else:
                tags += check_density(fig, a, b, n1, flag, nb)
                j = joint_axes(fig)[0]
                require(n1 in j.get_xlabel() and n2 in j.get_ylabel(), '%s: the axes are labelled %r and %r', w, j.get_xlabel(),
                        j.get_ylabel())
            done += 1
            tags.append(kind)
            for k in model:
                require(np.array_equal(s.get_samples(k), model[k]), '%s changes the stored draws', w)
        finally:
            plt.close('all')
    return dict(nontrivial=done > 0, tags=tags, counts=dict(plots=done))
