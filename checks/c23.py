"""C23: default starting values lie in the support with finite posterior."""
import math

import numpy as np
from common import require, sut
from hypothesis import strategies as st

import gens
import native
import oracle

TECHNIQUE = 'the documented prior support and the exact log posterior at every drawn starting value'
RULE = ('a generated series (3-60, some up to 500, points, any units and offset), a model class and order (p up to 8), several draws of the '
        'starting value, supplied starting values (inside the support, outside it, of a wrong length), and short chains; '
        'every starting value is tested against the support and the exact posterior, and each chain for movement; '
        'non-trivial when a starting value is decided to lie inside the support')
ASSUMPTIONS = ['at least 3 distinct times, values not all equal', 'a chain counts as able to move when 6000 iterations of one '
               'chain after 6000 adapting ones contain two values']
CHUNK = 25


@st.composite
def _case(draw):
    c = draw(gens.data(3, 25, big=60, long=500))
    kind, p, q = draw(gens.model_order(8))
    rs = np.random.RandomState(draw(gens.seeds()))
    if draw(st.integers(0, 4)) == 0:
        off = draw(st.sampled_from([1e4, -1e6, 1e8])) * float(np.std(c['y']))
        c['y'] = [float(v + off) for v in c['y']]
    iv = gens.make_theta(rs, kind, p, q, c['t'], c['y'])
    near = draw(st.sampled_from(['', '', 'scale', 'sd', 'rate']))
    if iv is not None:      # supplied values close to the bounds
        eps = 10 ** rs.uniform(-9, -1.5)
        if near == 'scale':
            iv[1] = float(rs.choice([0.5 + eps, 2.0 - eps]))
        elif near == 'sd':
            iv[0] = float(np.std(c['y']) * rs.choice([eps, 10 * (1 - eps)]))
        elif near == 'rate' and kind == 'CAR1':
            t = np.array(c['t'])
            iv[3] = float(rs.choice([eps - math.log(t[-1] - t[0]), -math.log(np.min(np.diff(t))) - eps]))
    c.update(kind=kind, p=p, q=q, seed=draw(gens.seeds()), iv=iv, temp=draw(st.sampled_from([1.0, 1.0, 10.0])),
             bad=draw(st.sampled_from(['sd', 'scale', 'rate', 'long', 'short', 'empty'])),
             move=draw(st.integers(0, 3)) == 0 and kind != 'ZCARMA')
    return c


def case(tier):
    return _case()


def run(c):
    native.seed(c['seed'])
    t, y, e = map(np.array, (c['t'], c['y'], c['e']))
    kind, p, q = c['kind'], c['p'], c['q']
    d = native.ntheta(kind, p, q)
    n = exact = 0

    def good(x, lp, what):
        """x must be an admissible start with log posterior lp."""
        require(len(x) == d, '%s with %d values for %d parameters', what, len(x), d)
        ins = oracle.in_support(kind, p, [float(v) for v in x], c['t'], c['y'])
        require(ins is not False, '%s is outside the prior support: %r', what, list(x))
        require(math.isfinite(lp), '%s has log density %r', what, lp)
        v, tol, _ = oracle.logpost(kind, p, q, [float(v) for v in x], t, y, e)
        if tol < 1e-2:
            require(abs(v - lp) <= tol, '%s has log density %.15g, exact %.15g', what, lp, v)
            return ins is True, 1
        return ins is True, 0
    with sut('starting values'):
        m = native.Model(kind, t, y, e, p, q, temp=c['temp'])
        xs = []
        for _ in range(3):
            x, lp = m.start()
            a, b = good(x, lp, 'a default starting value')
            n += a
            exact += b
            xs.append(tuple(x))
        require(len(set(xs)) == 3, 'starting values are not random: %r', xs)
        if c['iv'] is not None:
            x, lp = m.setstart(c['iv'])
            if oracle.in_support(kind, p, c['iv'], c['t'], c['y']) is True and math.isfinite(m.logdens(c['iv'])):
                require(np.array_equal(x, np.array(c['iv'])), 'a supplied starting value inside the support is changed from %r to %r',
                        c['iv'], list(x))
            good(x, lp, 'the supplied starting value')
            bad = list(c['iv'])
            if c['bad'] == 'sd':
                bad[0] = -bad[0]
            elif c['bad'] == 'scale':
                bad[1] = 2.5
            elif c['bad'] == 'rate':
                bad[3] += 60.0
            elif c['bad'] == 'long':
                bad.append(0.0)
            elif c['bad'] == 'short':
                bad.pop()
            else:
                bad = []
            x, lp = m.setstart(bad)
            good(x, lp, 'the start after an inadmissible supplied value')
        m.close()
    moved = None
    if c['move']:
        # a slowly adapting chain gets a second chance with ten times the length
        for k in (600, 6000, 6000):
            with sut('the sampler'):
                m = native.run_sampler(t, y, e, p, q, k, k, 1, 1, (), kind == 'ZCAR')
                x, lp = m.samples()
                m.close()
            moved = len({tuple(v) for v in x})
            if moved > 1:
                break
        require(moved > 1, '6000 samples after 6000 burn-in iterations contain one single value %r', list(x[0]))
    return dict(nontrivial=n > 0, tags=[kind, 'p=%d' % p] + (['moves<10' if moved < 10 else 'moves<60' if moved < 60 else 'moves>=60'] if moved else []),
                counts=dict(starts=3, exact=exact))
