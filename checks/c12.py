"""C12: Metropolis steps accept with the right probability and stay consistent."""
import math

import numpy as np
from common import Rates, accept_prob as prob, binom_bad, require, sut, tally
from hypothesis import strategies as st

import gens
import native
from native import D, P, arr

TECHNIQUE = 'the acceptance probabilities of generated targets and proposals (exact per move, binomial tests per kind of move)'
RULE = ('chains of Metropolis-Hastings steps over 2-6 (some 15) states with generated log densities (some minus infinity or not a '
        'number), asymmetric proposal densities and temperatures, scalar and vector; chains of adaptive Metropolis steps on '
        'a generated target; every step is checked for its effect, the stored log density and the reported ratio, the '
        'printed rates against the moves made, the acceptances of each kind of move against their probability; non-trivial when some probability lies '
        'strictly between 0.02 and 0.98')
ASSUMPTIONS = ['the current value has a finite log density', 'proposals for adaptive steps are symmetric']
CHUNK = 40


@st.composite
def _case(draw):
    kind = draw(st.sampled_from(['scalar', 'vector', 'ram', 'ram']))
    rs = np.random.RandomState(draw(gens.seeds()))
    k = draw(st.integers(2, 6)) if draw(st.integers(0, 9)) else 15
    off = draw(st.sampled_from([0.0, 0.0, -1e3, 5e4, 1e6]))
    spread = draw(st.sampled_from([1.0, 0.3, 3.0, 30.0]))
    temp = draw(st.sampled_from([1.0, 1.0, 2.0, 10.0, 100.0, 1.3, 1e4, 0.5]))
    ls = [float(off + spread * x) for x in rs.normal(size=k)]
    bad = draw(st.lists(st.tuples(st.integers(1, k - 1), st.sampled_from(['-inf', 'nan'])), max_size=2))
    for i, b in bad:
        ls[i] = b
    qs = draw(st.sampled_from([0.0, 1.0, 0.5, 3.0]))
    q = [[float(x) for x in row] for row in qs * rs.normal(size=(k, k))]
    return dict(kind=kind, seed=draw(gens.seeds()), l=ls, q=q, temp=temp, d=draw(st.integers(1, 5)) if draw(st.integers(0, 9)) else 14,
                n=draw(st.sampled_from([400, 1500] * 10 + [12000])), maxiter=draw(st.sampled_from([0, 100, 1000000])),
                target=draw(st.sampled_from([0.25, 0.4, 0.05, 0.8])), scale=draw(st.sampled_from([1.0, 0.05, 20.0])),
                report=draw(st.sampled_from([-1, 0, 7, 1, 60])))


def case(tier):
    return _case()


def num(x):
    return dict(nan=math.nan).get(x, -math.inf) if isinstance(x, str) else x


def run(c):
    native.seed(c['seed'])
    return ram(c) if c['kind'] == 'ram' else discrete(c)


def discrete(c):
    lib = native.lib()
    rs = np.random.RandomState(c['seed'])
    ls = [num(x) for x in c['l']]
    k, T, q = len(ls), c['temp'], c['q']
    scalar = c['kind'] == 'scalar'
    d = 1 if scalar else c['d']
    pts = rs.normal(size=(k, d)) + np.arange(k)[:, None] * 10
    key = {tuple(pts[i]): i for i in range(k)}
    prop = rs.randint(0, k, size=c['n'])
    it = [0]

    def logf(i, n, x):
        return ls[key[tuple(x[:n])]]

    def draw(i, n, a, b):
        y = pts[prop[it[0]]]
        for j in range(n):
            b[j] = y[j]

    def qd(i, n, to, frm):
        return q[key[tuple(to[:n])]][key[tuple(frm[:n])]]
    LOG, DR, QD = native.LOGF(logf), native.DRAW(draw), native.QDENS(qd)
    acc = {}
    with sut('Metropolis step'):
        if scalar:
            par = native.ptr(lib.spar_new(D(T), 0, LOG, D(pts[0, 0])))
            pr = native.ptr(lib.sprop_new(0, DR, QD))
            native.chk(lib.spar_save(par, D(pts[0, 0])))
            s = native.ptr(lib.step_metrop_s(par, pr, c['report']))
        else:
            par = native.ptr(lib.vpar_new(0, b'x', D(T), 0, LOG, d, P(arr(pts[0])), native.EVENT()))
            pr = native.ptr(lib.vprop_new(0, DR, QD))
            native.chk(lib.vpar_save(par, d, P(arr(pts[0]))))
            s = native.ptr(lib.step_metrop_v(par, pr, c['report']))
        cur = 0
        v = np.full(d, np.nan)
        rates = Rates(c['report'])
        for n in range(c['n']):
            it[0] = n
            j = int(prop[n])
            shown = native.printed(lambda: native.chk(lib.step_do(s, 1)))
            if scalar:
                v[0] = lib.spar_value(par)
                ld, ratio = lib.spar_logdens(par), lib.step_metrop_s_ratio(s)
            else:
                native.chk(lib.vpar_value(par, P(v)))
                ld, ratio = lib.vpar_logdens(par), lib.step_metrop_v_ratio(s)
            new = key.get(tuple(v))
            require(new in (cur, j), 'step %d from state %d with proposal %d ended at %r', n, cur, j, list(v))
            x = (ls[j] - ls[cur]) / T + q[cur][j] - q[j][cur]
            pa = prob(x)
            require(ld == ls[new], 'step %d: stored log density %r, that of the stored value is %r', n, ld, ls[new])
            tol = 1e-9 + 8e-16 * (abs(ls[j]) + abs(ls[cur])) / T if math.isfinite(x) else 1e-9
            require(abs(ratio - pa) <= tol, 'step %d: reported ratio %r, acceptance probability %r', n, ratio, pa)
            if j != cur:
                a = acc.setdefault((cur, j), [pa, 0, 0])
                a[1] += 1
                a[2] += new == j
                if pa == 0.0:
                    require(new == cur, 'step %d moved to a state with log density %r', n, ls[j])
            rates.step(new == j, shown, 'step %d' % n)
            cur = new
        (lib.step_free_metrop_s if scalar else lib.step_free_metrop_v)(s)
        (lib.spar_free if scalar else lib.vpar_free)(par)
        (lib.sprop_free if scalar else lib.vprop_free)(pr)
    mid = 0
    for (i, j), (pa, n, m) in sorted(acc.items()):
        if pa < 1 - 1e-9:
            require(not binom_bad(m, n, pa), '%d of %d proposals %d -> %d accepted, probability %.6g (l %r -> %r, T=%r, q_fwd %r, '
                    'q_back %r)', m, n, i, j, pa, ls[i], ls[j], T, q[j][i], q[i][j])
        else:
            require(m == n, '%d of %d proposals %d -> %d accepted, probability 1', m, n, i, j)
        mid += 0.02 < pa < 0.98
    mid2 = tally([(pa, 1) for pa, n, m in acc.values() for _ in range(m)] + [(pa, 0) for pa, n, m in acc.values()
                 for _ in range(n - m)], c['kind'])
    return dict(nontrivial=mid > 0, tags=[c['kind'], 'T=%g' % T, 'asymmetric' if any(any(r) for r in q) else 'symmetric',
                'holes' if any(not math.isfinite(x) for x in ls) else 'no-holes'], counts=dict(steps=c['n'], binned=mid2, reports=rates.reports))


def ram(c):
    lib = native.lib()
    rs = np.random.RandomState(c['seed'])
    d, T = c['d'], c['temp']
    A = rs.normal(size=(d, d)) + 2 * np.eye(d)
    ws = rs.normal(size=d)
    seen = []
    holes = any(isinstance(x, str) for x in c['l'])
    off = next((x for x in c['l'] if not isinstance(x, str)), 0.0)

    def f(x):
        if holes and math.sin(3 * float(x @ ws)) > 0.8:
            return -math.inf if x[0] > 0 else math.nan
        y = A @ x
        return off - 0.5 * float(y @ y) / c['scale'] ** 2 * T

    def logf(i, n, x):
        v = np.array(x[:n])
        seen.append(v)
        return f(v)

    def draw(i, n, a, b):
        b[0] = a[0] + rs.normal()

    def qd(i, n, to, frm):
        return 0.0
    LOG, DR, QD = native.LOGF(logf), native.DRAW(draw), native.QDENS(qd)
    x0 = np.zeros(d)
    acc, nacc = [], 0
    cov = np.eye(d) * (0.5 * c['scale']) ** 2
    n = min(c['n'], 800)
    with sut('adaptive Metropolis step'):
        par = native.ptr(lib.vpar_new(0, b'x', D(T), 0, LOG, d, P(arr(x0)), native.EVENT()))
        pr = native.ptr(lib.sprop_new(0, DR, QD))
        native.chk(lib.vpar_save(par, d, P(arr(x0))))
        s = native.ptr(lib.step_ram(par, pr, d, P(arr(cov)), D(c['target']), c['maxiter'], 0))
        cur, lc = x0, f(x0)
        v = np.full(d, np.nan)
        for i in range(n):
            del seen[:]
            shown = native.printed(lambda: native.chk(lib.step_do(s, 1)))
            native.chk(lib.vpar_value(par, P(v)))
            new = [x for x in seen if not np.array_equal(x, cur)]
            require(len(new) > 0, 'step %d evaluates no proposed value', i)
            prop = new[0]
            require(all(np.array_equal(x, prop) for x in new), 'step %d evaluates more than one proposal', i)
            moved = np.array_equal(v, prop)
            require(moved or np.array_equal(v, cur), 'step %d ended at %r, neither the old value nor the proposal', i, list(v))
            lp = f(prop)
            pa = prob((lp - lc) / T)
            ratio, rate, ld = lib.step_ram_ratio(s), lib.step_ram_rate(s), lib.vpar_logdens(par)
            tol = 1e-9 + 8e-16 * (abs(lp) + abs(lc)) / T if math.isfinite(lp) else 1e-9
            require(abs(ratio - pa) <= tol, 'step %d: reported ratio %r, acceptance probability %r', i, ratio, pa)
            require(moved or pa < 1 - tol, 'step %d rejected a proposal with probability one', i)
            require(not moved or pa > 0, 'step %d accepted a proposal with log density %r', i, lp)
            nacc += moved
            require(abs(rate - nacc / (i + 1.0)) < 1e-12, 'acceptance rate %r after %d of %d steps were accepted', rate, nacc, i + 1)
            if i + 1 == c['maxiter'] and len(shown) == 1:
                require(abs(shown[0] - nacc / (i + 1.0)) <= 1e-5 * shown[0] + 1e-12, 'acceptance rate %r reported at the end of '
                        'the adaptation, %d of %d steps were accepted', shown[0], nacc, i + 1)
            acc.append((pa, moved))
            if moved:
                cur, lc = prop, lp
            require(ld == lc, 'step %d: stored log density %r, that of the stored value is %r', i, ld, lc)
        lib.step_free_ram(s)
        lib.vpar_free(par)
        lib.sprop_free(pr)
    mid = tally(acc, 'adaptive steps')
    return dict(nontrivial=mid > 0, tags=['ram', 'T=%g' % T, 'holes' if holes else 'no-holes'], counts=dict(steps=n, binned=mid))
