"""C11: the sampler runs every step on schedule and keeps the right states."""
import ctypes as C
import math

import numpy as np
from common import require, sut
from hypothesis import strategies as st

import gens
import native
from native import D, P, arr

TECHNIQUE = 'a reference execution of the schedule written from the documentation, on recorded call-back events'
RULE = ('1-5 vector parameters of 1-6 (some 25) values (tracked or not) and 1-8 (some 300) steps over them (recording steps, Gibbs steps, exchange steps '
        'between ensemble members), any burn-in, thinning and sample size, supplied or default starting values, one or '
        'two runs; the order of the recorded steps, the stored samples and their log densities must equal the reference '
        'execution; non-trivial when at least one sample is stored and two steps exist or thinning exceeds one')
ASSUMPTIONS = ['tracked parameters have distinct labels', 'all parameters of a run have the same number of values '
               'when a starting value is supplied']
CHUNK = 200


@st.composite
def _case(draw):
    npar = draw(st.integers(1, 5))
    same = draw(st.booleans())
    d = draw(st.integers(1, 6)) if draw(st.integers(0, 9)) else 25
    dims = [d] * npar if same else [draw(st.integers(1, 6)) for _ in range(npar)]
    track = [draw(st.booleans()) for _ in range(npar)]
    steps = [[draw(st.sampled_from(['event', 'event', 'gibbs'])), draw(st.integers(0, npar - 1))]
             for _ in range(draw(st.integers(1, 8)))]
    if draw(st.integers(0, 19)) == 0:
        steps = (steps * 300)[:draw(st.sampled_from([40, 140, 300]))]
    init = draw(st.sampled_from(['none', 'match', 'long', 'short']))
    if not same and init == 'match':
        init = 'none'
    thin = draw(st.integers(1, 7)) if draw(st.integers(0, 9)) else draw(st.sampled_from([10, 30, 100, 1000]))
    n = draw(st.integers(0, 25)) if thin < 10 else draw(st.integers(0, 4))
    if thin < 10 and draw(st.integers(0, 9)) == 0:
        n = 1200
    burn = draw(st.integers(0, 30)) if draw(st.integers(0, 9)) else 700 if draw(st.booleans()) else 6000
    if len(steps) > 8:
        n, thin, burn = min(n, 5), min(thin, 3), min(burn, 5)
    return dict(seed=draw(gens.seeds()), dims=dims, track=track, steps=steps, init=init, n=n, thin=thin,
                burn=burn, runs=draw(st.sampled_from([1, 1, 1, 2])))


def case(tier):
    return _case()


def density(i, x):
    return float(-(i + 1.0) * np.sum(x * x) + math.sin(float(x[0]) + i))


def move(i, x, k):
    """What a step does to a parameter: depends on the value and on how many steps were done before."""
    return 0.5 * x + 0.01 * (k % 97) + 0.1 * i


def run(c):
    lib = native.lib()
    rs = np.random.RandomState(c['seed'])
    npar = len(c['dims'])
    starts = [rs.normal(size=d) for d in c['dims']]
    events, k = [], [0]

    def logf(i, n, x):
        return density(i, np.array(x[:n]))

    def event(kind, i):
        events.append((kind, i))

    def draw(i, n, a, b):
        y = move(i, np.array(a[:n]), k[0])
        k[0] += 1
        for j in range(n):
            b[j] = y[j]
    LOG, EV, DR = native.LOGF(logf), native.EVENT(event), native.DRAW(draw)
    pars = []
    init = dict(none=0, match=c['dims'][0], long=max(c['dims']) + 1, short=min(c['dims']) - 1)[c['init']]
    iv = arr(rs.normal(size=init))
    with sut('sampler'):
        for i in range(npar):
            h = native.ptr(lib.vpar_new(int(c['track'][i]), ('par%d' % i).encode(), D(1.0), i, LOG, c['dims'][i],
                                        P(arr(starts[i])), EV))
            lib.vpar_posterior(h, DR)
            pars.append(h)
        s = native.ptr(lib.sampler_new(c['n'], c['burn'], c['thin']))
        try:
            for j, (kind, i) in enumerate(c['steps']):
                h = native.ptr(lib.step_gibbs(pars[i]) if kind == 'gibbs' else lib.step_event(pars[i], i, EV, DR))
                lib.sampler_add(s, h)
            require(lib.sampler_nsteps(s) == len(c['steps']), 'the sampler reports %d steps of %d', lib.sampler_nsteps(s),
                    len(c['steps']))
            used = [i for _, i in c['steps']]
            tracked = sorted({i for i in used if c['track'][i]})
            require(lib.sampler_ntracked(s) == len(tracked), 'the sampler reports %d tracked parameters, %d are',
                    lib.sampler_ntracked(s), len(tracked))
            for r in range(c['runs']):
                del events[:]
                k[0] = 0
                native.chk(lib.sampler_run(s, init, P(iv)))
                ev = [e for e in events if e[0] in (1, 2)]
                first = next((j for j, e in enumerate(events) if e[0] in (1, 2)), len(events))
                require(all(e[0] in (1, 2) for e in events[first:]), 'a starting value is asked for after the first step')
                kind = 11 if c['init'] == 'match' else 10
                require({e[1] for e in events[:first]} == set(used) and all(e[0] == kind for e in events[:first]),
                        'starting values asked for: %r, expected kind %d for parameters %r', events[:first][:10], kind, used)
                # reference execution
                val = {i: (iv.copy() if kind == 11 else starts[i].copy()) for i in used}
                want = [(2 if a == 'gibbs' else 1, i) for a, i in c['steps']]
                total = c['burn'] + c['thin'] * c['n']
                require(len(ev) == total * len(want), '%d step calls for burn-in %d + thinning %d x %d samples and %d steps',
                        len(ev), c['burn'], c['thin'], c['n'], len(want))
                keep = {i: [] for i in tracked}
                q = 0
                for it in range(1, total + 1):
                    for a, i in want:
                        require(ev[q] == (a, i), 'call %d was step %r, expected %r', q, ev[q], (a, i))
                        val[i] = move(i, val[i], q)
                        q += 1
                    if it > c['burn'] and (it - c['burn']) % c['thin'] == 0:
                        for i in tracked:
                            keep[i].append(val[i].copy())
                for i in range(npar):
                    ns = lib.vpar_nsamples(pars[i])
                    if i not in keep:
                        require(ns == 0, 'parameter %d is not tracked and stores %d samples', i, ns)
                        continue
                    require(ns == c['n'], 'parameter %d stores %d samples of %d', i, ns, c['n'])
                    if ns:
                        out, lp = np.full((ns, c['dims'][i]), np.nan), np.full(ns, np.nan)
                        native.chk(lib.vpar_samples(pars[i], c['dims'][i], P(out), P(lp)))
                        for j in range(ns):
                            require(np.array_equal(out[j], keep[i][j]), 'sample %d of parameter %d is %r, expected %r', j, i,
                                    out[j], keep[i][j])
                            require(lp[j] == density(i, keep[i][j]), 'log density of sample %d of parameter %d', j, i)
                for i in used:
                    v = np.full(c['dims'][i], np.nan)
                    native.chk(lib.vpar_value(pars[i], P(v)))
                    require(np.array_equal(v, val[i]), 'final value of parameter %d', i)
        finally:
            lib.sampler_free(s)
            for h in pars:
                lib.vpar_free(h)
    nt = c['n'] > 0 and (len(c['steps']) > 1 or c['thin'] > 1) and bool(tracked)
    return dict(nontrivial=nt, tags=['init=' + c['init'], 'runs=%d' % c['runs'], 'gibbs' if any(a == 'gibbs' for a, _ in
                c['steps']) else 'no-gibbs', 'burn=0' if c['burn'] == 0 else 'burn>0'], counts=dict(steps=int(k[0])))
