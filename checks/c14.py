"""C14: chain exchange swaps whole states with the tempering probability."""
import math

import numpy as np
from common import Rates, accept_prob as prob, require, sut, tally
from hypothesis import strategies as st

import gens
import native
from native import D, P, arr

TECHNIQUE = 'the exchange probabilities of generated temperature ladders, and conservation of the (value, log density) pairs'
RULE = ('ensembles of 2-25 chains with generated temperatures (any ladder), values and log densities; generated sequences of '
        'exchange steps mixed with moves of single chains; after each step either nothing changed or exactly the two '
        'neighbouring states swapped, with the reported ratio; printed rates match the swaps made; acceptances tested against their probabilities; '
        'non-trivial when some probability lies strictly between 0 and 1')
ASSUMPTIONS = ['log densities of the current values are finite', 'temperatures are positive']
CHUNK = 60


@st.composite
def _case(draw):
    rs = np.random.RandomState(draw(gens.seeds()))
    k = draw(st.sampled_from([2, 3, 4, 5, 6, 12, 25]))
    lad = draw(st.sampled_from(['log', 'random', 'down', 'equal', 'close']))
    if lad == 'log':
        temps = np.exp(np.linspace(0, math.log(100), k))
    elif lad == 'random':
        temps = np.sort(np.exp(rs.uniform(0, 5, k)))
    elif lad == 'down':
        temps = np.sort(np.exp(rs.uniform(0, 3, k)))[::-1]
    elif lad == 'equal':
        temps = np.full(k, 1.0 + rs.randint(0, 3))
    else:
        temps = 1.0 + 0.1 * np.arange(k)
    return dict(seed=draw(gens.seeds()), temps=[float(x) for x in temps], lad=lad, d=draw(st.sampled_from([3, 1, 2, 5, 14])),
                spread=draw(st.sampled_from([1.0, 0.1, 10.0, 1e3])), off=draw(st.sampled_from([0.0, -500.0, 1e5])),
                n=draw(st.sampled_from([100, 600] * 8 + [5000])), saves=draw(st.sampled_from([0.0, 0.3, 0.6])),
                report=draw(st.sampled_from([-1, 5, 1, 40])), nval=draw(st.sampled_from([8, 3, 20])))


def case(tier):
    return _case()


def run(c):
    native.seed(c['seed'])
    lib = native.lib()
    rs = np.random.RandomState(c['seed'])
    T, d = c['temps'], c['d']
    k = len(T)
    pts = rs.normal(size=(c['nval'], d)) + 100 * np.arange(c['nval'])[:, None]
    ls = c['off'] + c['spread'] * rs.normal(size=c['nval'])
    key = {tuple(pts[i]): i for i in range(len(pts))}
    LOG = native.LOGF(lambda i, n, x: float(ls[key[tuple(x[:n])]]))
    acc, swaps, mid = [], 0, 0
    with sut('exchange step'):
        ens = native.ptr(lib.ens_new())
        for i in range(k):
            lib.ens_add(ens, native.ptr(lib.vpar_new(0, b'x', D(T[i]), i, LOG, d, P(arr(pts[0])), native.EVENT())))
        par = [native.ptr(lib.ens_get(ens, i)) for i in range(k)]
        state = [int(rs.randint(len(pts))) for _ in range(k)]
        for i in range(k):
            native.chk(lib.vpar_save(par[i], d, P(arr(pts[state[i]]))))
        steps = {i: native.ptr(lib.step_exchange(ens, i, c['report'])) for i in range(1, k)}

        def read():
            out = []
            for i in range(k):
                v = np.full(d, np.nan)
                native.chk(lib.vpar_value(par[i], P(v)))
                out.append((key.get(tuple(v)), lib.vpar_logdens(par[i]), lib.vpar_temp(par[i])))
            return out
        rates = {i: Rates(c['report']) for i in steps}
        for n in range(c['n']):
            if rs.uniform() < c['saves']:
                i = int(rs.randint(k))
                state[i] = int(rs.randint(len(pts)))
                native.chk(lib.vpar_save(par[i], d, P(arr(pts[state[i]]))))
            i = int(rs.randint(1, k))
            shown = native.printed(lambda: native.chk(lib.step_do(steps[i], 1)))
            now = read()
            for j in range(k):
                require(now[j][0] is not None and now[j][1] == ls[now[j][0]], 'exchange %d: chain %d holds log density %r with '
                        'value %r, whose log density is %r', n, j, now[j][1], now[j][0],
                        None if now[j][0] is None else ls[now[j][0]])
                require(now[j][2] == T[j], 'exchange %d: chain %d has temperature %r, was %r', n, j, now[j][2], T[j])
            got = [x[0] for x in now]
            sw = list(state)
            sw[i], sw[i - 1] = sw[i - 1], sw[i]
            require(got in (state, sw), 'exchange %d of chains %d and %d turned the states %r into %r', n, i, i - 1, state, got)
            la, lb = ls[state[i]], ls[state[i - 1]]
            x = (1 / T[i] - 1 / T[i - 1]) * (lb - la)
            pa = prob(x)
            ratio = lib.step_exchange_ratio(steps[i])
            tol = 1e-9 + 1e-15 * (abs(la) + abs(lb)) * (1 / T[i] + 1 / T[i - 1])
            require(abs(ratio - pa) <= tol, 'exchange %d: reported ratio %r, probability %r (T %r and %r, l %r and %r)', n, ratio, pa,
                    T[i], T[i - 1], la, lb)
            if state[i] != state[i - 1]:
                moved = got == sw
                require(moved or pa < 1 - tol, 'exchange %d with probability one was not made', n)
                require(not moved or pa > 1e-15, 'exchange %d with probability %r was made', n, pa)
                acc.append((pa, moved))
                swaps += moved
                mid += 0 < pa < 1
            rates[i].step(got == sw, shown, 'exchange %d' % n)
            state = got
        for s in steps.values():
            lib.step_free_exchange(s)
        lib.ens_free(ens)
    b = tally(acc, 'exchanges')
    return dict(nontrivial=mid > 0 and swaps > 0, tags=['ladder=' + c['lad'], 'k=%d' % k],
                counts=dict(exchanges=c['n'], swaps=swaps, binned=b))
