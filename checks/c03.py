"""C03: predictions are the exact conditional mean and variance given all the data."""
import numpy as np
from common import sut
from hypothesis import strategies as st

import blocks
import gens
import native
import oracle
import pred

TECHNIQUE = 'predictions against dense Gaussian conditioning in 80-bit arithmetic'
RULE = ('a generated series (up to 1100/2200 points; in one case of ten blocks separated by long gaps, up to 12000 points) and CARMA(p,q) process (p<=8) with 1..6 query times placed before, between, after, exactly '
        'at and very near the measured times; non-trivial when some query has a tolerance below 1e-4 from the '
        'conditioning bound, or asks for a noise-free measurement')
ASSUMPTIONS = ['autoregressive roots are distinct (relative separation at least 1e-2) and stable',
               'tolerance 1e5 * eps * (cancellation of the eigenbasis) * k(0)/smallest variance met by the recursion']
CHUNK = 200


@st.composite
def _case(draw, big, long):
    c = draw(gens.series_and_process(2, 40, pmax=8, big=big, long=long))
    if 2 < len(c['t']) <= 40 and draw(st.integers(0, 9)) == 0:
        b = draw(blocks.blocks(c['t'], gens.croots(c['proc']), gens.stationary_sd(c['proc']) or 1.0, far=3.0))
        if b:
            room = (b['P'] - b['tb'][-1]) / 3
            qs = [x for x in draw(pred.queries(b['tb'], 3, 6)) if -room < x < b['tb'][-1] + room]
            if qs:
                c.update(blocks=b, t=[], y=[], e=[], q=qs, at=[draw(st.integers(0, b['count'] - 1)) for _ in qs],
                         via=draw(st.sampled_from(['py', 'shim0', 'shim3'])))
                return c
    c['q'] = draw(pred.queries(c['t']))
    c['via'] = draw(st.sampled_from(['py', 'shim0', 'shim3']))
    return c


def case(tier):
    return _case(100, 1100) if tier == 'quick' else _case(200, 2200)


def build(c, t, y, e):
    roots = gens.croots(c['proc'])
    car1 = len(roots) == 1
    if c['via'] == 'py':
        return native.PyFilter(t, y, e, c['proc']['sigsqr'], roots, c['proc']['ma'], car1=car1)
    return native.Filter(t, y, e, c['proc']['sigsqr'], roots, c['proc']['ma'], car1=car1,
                         how=int(c['via'][-1]))


def run_blocks(c, proc):
    t, y, e, tb, Y, eb = blocks.expand(c['blocks'])
    P = c['blocks']['P']
    with sut('prediction'):
        f = build(c, t, y, e)
        ans = [f.predict(i * P + x) for i, x in zip(c['at'], c['q'])]
        f.close()
    good, tags = False, ['p=%d' % len(c['proc']['roots']), 'blocks']
    for i, x, a in zip(c['at'], c['q'], ans):
        g, tg = pred.judge(proc, tb, Y[i], eb, [(i * P + x) - i * P], [a], ctx='point %d of %d: ' % (i * len(tb), len(t)))
        good, tags = good or g, tags + tg
    return dict(nontrivial=good, tags=tags)


def run(c):
    t, y, e = map(np.array, (c['t'], c['y'], c['e']))
    proc = oracle.Process(c['proc']['sigsqr'], gens.croots(c['proc']), c['proc']['ma'])
    if 'blocks' in c:
        return run_blocks(c, proc)
    with sut('prediction'):
        f = build(c, t, y, e)
        ans = [f.predict(x) for x in c['q']]
        f.close()
    good, tags = pred.judge(proc, t, y, e, c['q'], ans)
    return dict(nontrivial=good, tags=tags + ['p=%d' % len(c['proc']['roots'])])
