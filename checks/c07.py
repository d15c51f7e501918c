"""C07: prior support and prior density."""
import math

import mpmath as mp
import numpy as np
from common import require, sut
from hypothesis import strategies as st

import gens
import native
import oracle

TECHNIQUE = 'the documented bounds evaluated in 50-digit arithmetic and the exact log posterior'
RULE = ('a generated series, a model of any class and order, and a parameter vector made by moving 0..3 of its components '
        '(process standard deviation, error scale, CAR(1) rate, Lorentzian widths and centroids, their order, their '
        'distinctness) to either side of, onto or near a bound; non-trivial when every condition is decided by more than '
        'the rounding margin (1e-6 relative for frequencies, exact for the first two parameters)')
ASSUMPTIONS = ['strictly increasing times, at least 3 points', '|logit kappa| < 30']
CHUNK = 250


@st.composite
def _case(draw):
    c = draw(gens.data(3, 12, big=80, long=600))
    t, y = np.array(c['t']), np.array(c['y'])
    kind, p, q = draw(gens.model_order(draw(st.sampled_from([7, 7, 12]))))
    rs = np.random.RandomState(draw(gens.seeds()))
    T, dt = t[-1] - t[0], float(np.min(np.diff(t)))
    lo, hi = 1.0 / T, 1.0 / dt
    sdmax = draw(st.sampled_from([None, None, None, 2.0, 0.5, 1e-3, 100.0]))
    smax = 10.0 * math.sqrt(np.var(y, ddof=1)) if sdmax is None else sdmax * float(np.std(y))
    th = gens.make_theta(rs, kind, p, q, t, y, resolved=False)
    if th is None:
        th = gens.make_theta(rs, 'CAR1', 1, 0, t, y)
        kind, p, q = 'CAR1', 1, 0
    th[0] = min(th[0], 0.9 * smax)
    eps = lambda: draw(st.sampled_from([-1, 1])) * draw(st.sampled_from([3e-6, 1e-4, 0.03, 0.5]))
    # Lorentzians of the base vector
    roots = [complex(r) for r in oracle.theta_parts(kind, p, q, th, t)[0]]
    pairs = [[roots[2 * i], roots[2 * i + 1]] for i in range(p // 2)]
    last = roots[-1] if p % 2 else None
    moves = []
    for _ in range(draw(st.integers(0, 3))):
        mv = ['sd', 'scale'] + (['rate'] if kind == 'CAR1' else ['width', 'width', 'cent', 'order', 'dup'])
        m = draw(st.sampled_from(mv))
        moves.append(m)
        if m == 'sd':
            th[0] = draw(st.sampled_from([smax * (1 + 1e-6), smax * (1 - 1e-6), -1e-3 * smax, 2 * smax, 0.5 * smax,
                                          1e-9 * smax, -1e-12 * smax, 0.0]))
            if sdmax is not None and draw(st.integers(0, 3)) == 0:
                th[0] = smax
        elif m == 'scale':
            th[1] = draw(st.sampled_from([0.5, 2.0, 0.5 * (1 - 1e-12), 2 * (1 + 1e-12), 0.5 * (1 + 1e-12),
                                          2 * (1 - 1e-12), 0.3, 2.7, -0.7, 1e-3]))
        elif m == 'rate':
            th[3] = math.log(draw(st.sampled_from([lo, hi]))) + eps()
        elif m == 'width':
            w = 2 * math.pi * draw(st.sampled_from([lo, hi])) * math.exp(eps())
            i = draw(st.integers(0, p - 1))
            if i == p - 1 and p % 2:
                last = complex(-w, 0)
            else:
                i //= 2
                a, b = pairs[i]
                if a.imag == 0 and b.imag == 0:
                    pairs[i] = [complex(-w, 0), b] if draw(st.booleans()) else [a, complex(-w, 0)]
                else:
                    pairs[i] = [complex(-w, a.imag), complex(-w, b.imag)]
        elif m == 'cent':
            i = draw(st.integers(0, p // 2 - 1))
            a = pairs[i][0]
            cc = 2 * math.pi * draw(st.sampled_from([hi, hi, lo, 0.01 * lo])) * math.exp(eps())
            pairs[i] = [complex(a.real, -cc), complex(a.real, cc)]
        elif m == 'order' and p >= 4:
            i, j = draw(st.integers(0, p // 2 - 1)), draw(st.integers(0, p // 2 - 1))
            if draw(st.booleans()):
                pairs[i], pairs[j] = pairs[j], pairs[i]
            else:   # nearly equal centroids, either order
                b = pairs[i][1]
                cc = abs(b.imag) * math.exp(eps())
                pairs[j] = [complex(pairs[j][0].real, -cc), complex(pairs[j][0].real, cc)]
        elif m == 'dup':
            d = draw(st.sampled_from([0.0, 1e-5, 1.5e-4, 1.9e-4, 2.1e-4, 3e-4, 1e-2]))
            i, j = draw(st.integers(0, p // 2 - 1)), draw(st.integers(0, (p - 1) // 2))
            a = pairs[i][0]
            if j >= p // 2:      # the odd real root next to a real root of a pair
                if a.imag == 0:
                    last = complex(a.real * (1 + d), 0)
            elif i == j:         # the two roots of one pair, real or complex
                if draw(st.booleans()):
                    pairs[i] = [complex(a.real, 0), complex(a.real * (1 - d), 0)]
                else:
                    pairs[i] = [complex(a.real, -a.real * d / 2), complex(a.real, a.real * d / 2)]
            else:
                pairs[j] = [z * (1 + d) for z in pairs[i]]
    if kind != 'CAR1':
        flat = [z for pr in pairs for z in pr] + ([last] if last is not None else [])
        if all(z.real < 0 for z in flat):
            th[3:3 + p] = gens.log_factors(flat)
    c.update(kind=kind, p=p, q=q, theta=[float(x) for x in th], sdmax=None if sdmax is None else smax, moves=moves,
             mle=draw(st.integers(0, 3)) == 0)
    # vectors evaluated on the same object before, differing in one or two components, and earlier prior bounds
    other = []
    for _ in range(draw(st.integers(0, 3))):
        v = list(c['theta'])
        for _ in range(draw(st.integers(1, 2))):
            i = draw(st.integers(0, len(v) - 1))
            v[i] = draw(st.sampled_from([v[i] + 0.1, v[i] - 0.1, v[i] + 3.0, v[i] - 3.0, -v[i], 0.7, 1.3, 2.5]))
        other.append(v)
    c.update(other=other, sdfirst=draw(st.sampled_from([None, None, 10.0 * smax, 0.01 * smax])) if sdmax else None)
    return c


def case(tier):
    return _case()


def run(c):
    t, y, e = map(np.array, (c['t'], c['y'], c['e']))
    th = c['theta']
    with sut('the model'):
        m = native.Model(c['kind'], t, y, e, c['p'], c['q'])
        if c['sdmax'] is not None:
            if c['sdfirst'] is not None:
                m.setprior(c['sdfirst'])
            m.setprior(c['sdmax'])
        for v in c['other']:
            m.inbounds(v)
            m.logdens(v)
        ld = m.logdens(th)
        inb = m.inbounds(th)
        lp = m.logprior(th) if th[1] > 0 else None
    want = oracle.in_support(c['kind'], c['p'], c['theta'], c['t'], c['y'], c['sdmax'])
    tags = [c['kind'], {True: 'inside', False: 'outside', None: 'undecided'}[want]] + sorted(set(c['moves']))
    n = 0
    if lp is not None:
        exact = float(oracle.logprior(c['kind'], c['p'], th))
        require(abs(lp - exact) <= 1e-11 * (1 + abs(exact)), 'log prior %.15g, exact %.15g', lp, exact)
        n += 1
    full, tol = None, math.inf
    if th[0] == 0 and th[1] > 0 and min(e) > 0 and want is not None:
        # no process variance: independent measurement errors about the mean
        v = th[1] * e ** 2
        full = float(-0.5 * np.sum(np.log(v) + (y - th[2]) ** 2 / v) + oracle.logprior(c['kind'], c['p'], th))
        tol = 1e-9 * (len(y) + float(np.sum((np.abs(y) + abs(th[2])) ** 2 / v)))
    elif th[1] > 0 and th[0] > 0 and (want is not None):
        try:
            full, tol, _ = oracle.logpost(c['kind'], c['p'], c['q'], th, t, y, e, extreme=want is not True)
        except (ZeroDivisionError, ValueError, OverflowError):
            full = None
    if want is True:
        require(inb, 'a parameter vector inside the prior support is rejected')
        require(ld != -np.inf or th[0] == 0, 'log density minus infinity inside the prior support')
        if full is not None and tol < 1e-2:
            require(np.isfinite(ld) and abs(ld - full) <= tol, 'log density %.15g inside the support, exact %.15g', ld,
                    full)
            n += 1
    elif want is False:
        require(not inb, 'a parameter vector outside the prior support is accepted')
        require(ld == -np.inf, 'log density %r outside the prior support', ld)
    if c['mle'] and want is not None:
        with sut('maximum-likelihood mode'):
            m.setmle(True)
            a, ia = m.logdens(th), m.inbounds(th)
            m.setmle(False)
            b = m.logdens(th)
        require(ia, 'maximum-likelihood mode applies the prior bounds')
        require(b == ld or (b != b and ld != ld), 'leaving maximum-likelihood mode does not restore the density')
        if full is not None and tol < 1e-2:
            require(abs(a - full) <= tol, 'log density %.15g in maximum-likelihood mode, exact %.15g', a, full)
            n += 1
        tags.append('mle')
    m.close()
    return dict(nontrivial=want is not None, tags=tags, counts=dict(densities=n))
