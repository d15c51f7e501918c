"""C08: parameter vectors map to the documented CARMA process."""
import ctypes as C
import math

import mpmath as mp
import numpy as np
from common import require, sut
from hypothesis import strategies as st

import gens
import native
import oracle

TECHNIQUE = 'roots, polynomial products and stationary variance computed in 40-digit arithmetic'
RULE = ('a model of any class with p=1..9 (all q<p), a generated sampling pattern and a parameter vector whose log '
        'coefficients are normal with standard deviation 0.3..5 around a drawn scale, come from Lorentzians, or make '
        'nearly equal roots; the roots, moving-average coefficients and driving-noise variance are compared with exact '
        'ones, each within a rounding bound of its own; then up to 3 further vectors on the same object that share part of their '
        'values with an earlier one; non-trivial when the noise variance too could be judged')
ASSUMPTIONS = ['quadratic coefficients with quad1/quad2^2 > 1e-11 (below, double precision cannot hold the small root)']
CHUNK = 250
EPS = oracle.EPS


@st.composite
def _case(draw):
    t = draw(gens.times(3, 10))
    kind = draw(st.sampled_from(['CARMA', 'CARp', 'CAR1', 'ZCARMA', 'ZCAR']))
    p = 1 if kind == 'CAR1' else draw(st.sampled_from([2, 3, 4, 5, 6, 7, 8, 9]))
    q = draw(st.integers(1, p - 1)) if kind == 'CARMA' else 0
    rs = np.random.RandomState(draw(gens.seeds()))
    n = len(t)
    y = [float(v) for v in rs.normal(size=n)]
    style = draw(st.sampled_from(['lorentz', 'normal', 'normal', 'close']))
    if kind == 'CAR1':
        th = [float(np.exp(rs.normal())), 1.0, 0.0, float(rs.normal(scale=5))]
    else:
        sd = draw(st.sampled_from([0.3, 1.0, 2.0, 5.0]))
        base = rs.normal(scale=4)                # log of the frequency scale

        def coefs(m):
            out = []
            for i in range(m // 2):
                out += [2 * base + sd * rs.normal(), base + sd * rs.normal()]
            if m % 2:
                out.append(base + sd * rs.normal())
            return out
        th = [float(np.exp(rs.normal(scale=2))), 1.0, 0.0]
        if style == 'lorentz':
            x = gens.make_theta(rs, kind, p, q, t, y, resolved=False)
            loga = x[3:3 + p] if x else coefs(p)
        else:
            loga = coefs(p)
            if style == 'close':
                for i in range(p // 2):
                    if rs.uniform() < 0.5:       # discriminant near zero, either sign
                        loga[2 * i] = 2 * loga[2 * i + 1] - math.log(4) + rs.choice([-1, 1]) * 10 ** rs.uniform(-12, -1)
        th += loga
        if kind == 'CARMA':
            b = coefs(q)
            if style == 'close' and q > 1:
                b[0] = 2 * b[1] - math.log(4) + rs.choice([-1, 1]) * 10 ** rs.uniform(-12, -1)
            th += b
        elif kind == 'ZCARMA':
            th.append(rs.normal(scale=3))
    kb = None
    if kind == 'ZCARMA' and draw(st.booleans()):
        lo, hi = oracle.kappa_bounds(t)
        kb = [float(lo * rs.uniform(0.1, 2)), float(hi * rs.uniform(2, 5))]
    ths = [[float(x) for x in th]]               # further vectors for the same object share most values with an earlier one
    for _ in range(draw(st.sampled_from([0, 0, 1, 2, 3]))):
        x = list(ths[rs.randint(len(ths))])
        how = draw(st.sampled_from(['one', 'block', 'pair', 'first', 'again']))
        free = [0] + list(range(3, len(x)))
        if how == 'one':
            x[free[rs.randint(len(free))]] += float(rs.normal() * rs.choice([1.0, 0.1, 1e-6]))
            x[0] = abs(x[0])
        elif how == 'block' and len(x) > 4:      # the moving-average part, or the last factors
            k = 3 + p if len(x) > 3 + p and rs.uniform() < 0.5 else rs.randint(4, len(x))
            x[k:] = [float(v + rs.normal()) for v in x[k:]]
        elif how == 'pair' and p >= 4:           # exchange two factors
            x[3:5], x[5:7] = x[5:7], x[3:5]
        elif how == 'first':
            x[0] *= float(np.exp(rs.normal()))
        ths.append(x)
    return dict(t=[float(x) for x in t], y=y, kind=kind, p=p, q=q, thetas=ths, kb=kb, style=style)


def case(tier):
    return _case()


def run(c):
    with sut('the model'):
        m = native.Model(c['kind'], c['t'], c['y'], [0.1] * len(c['t']), c['p'], c['q'])
        if c['kb']:
            m.setkappa(*c['kb'])
    res = [one(c, m, th) for th in c['thetas']]
    m.close()
    return dict(nontrivial=any(r['nontrivial'] for r in res), tags=res[0]['tags'] + ['%d vectors' % len(res)],
                counts=dict(quantities=sum(r['n'] for r in res)))


def one(c, m, th):
    kind, p, q = c['kind'], c['p'], c['q']
    with sut('the model'):
        roots = m.arroots(th)
        sig = m.sigsqr(th)
        ma = m.ma(th) if kind != 'CAR1' else None
    tags = [kind, 'p=%d' % p, c['style']]
    R, MA = oracle.theta_parts(kind, p, q, th, c['t'], tuple(c['kb']) if c['kb'] else None)
    require(len(roots) == p, '%d autoregressive roots for p=%d', len(roots), p)
    if kind == 'CAR1':
        tol, amp = [64 * EPS * (1 + abs(th[3])) * math.exp(th[3])], 1.0
    else:
        tol, amp = oracle.factor_tol(th[3:3 + p])
    if amp > 1e11:
        return dict(nontrivial=False, n=0, tags=tags + ['small root lost'])
    # roots, as a set: those of one factor may come in any order
    left = list(range(p))
    for r, e in zip(R, tol):
        r = complex(r)
        k = min(left, key=lambda i: abs(roots[i] - r))
        require(abs(roots[k] - r) <= e, 'root %r should be %r (tolerance %.1g)', complex(roots[k]), r, e)
        left.remove(k)
    require(np.all(roots.real < 0), 'a root with non-negative real part: %r', list(roots))
    cj = list(roots)
    for r in roots:
        k = [i for i, s in enumerate(cj) if abs(s - np.conj(r)) <= 1e-12 * abs(r)]
        require(k, 'roots %r are not closed under conjugation', list(roots))
        cj.pop(k[0])
    n = 1
    # moving average
    matol = 0.0
    if ma is not None:
        want = [float(x) for x in MA] + [0.0] * (p - len(MA))
        require(len(ma) == p, '%d moving-average coefficients for p=%d', len(ma), p)
        b_amp = 1.0
        if kind == 'CARMA':
            _, b_amp = oracle.factor_tol(th[3 + p:])
            big = 1 + max(abs(x) for x in th[3 + p:])
        else:
            big = 10.0
        matol = 500 * EPS * b_amp * big
        require(b_amp > 1e11 or ma[0] == 1.0 or abs(ma[0] - 1) < 8 * EPS, 'constant moving-average coefficient is %r', ma[0])
        if matol < 1e-3:
            for i in range(p):
                require(abs(ma[i] - want[i]) <= matol * abs(want[i]), 'moving-average coefficient %d is %.15g, exact '
                        '%.15g (tolerance %.1g)', i, ma[i], want[i], matol)
            n += 1
    # driving noise: the stationary variance must be theta[0]^2
    judged = False
    try:
        proc = oracle.Process(1.0, R, MA)
        stol = oracle.noise_tol(proc, tol, matol)
        if stol < 1e-3:
            judged = True
            want = float(mp.mpf(th[0]) ** 2 / proc.unit_k0)
            require(abs(sig - want) <= stol * want, 'driving-noise variance %.15g, exact %.15g (tolerance %.1g)', sig,
                    want, stol)
            n += 1
    except (ZeroDivisionError, OverflowError):
        pass
    # the helper functions
    re, im, out = native.arr(roots.real), native.arr(roots.imag), np.full(p + 1, np.nan)
    with sut('polycoefs'):
        k = native.chk(native.lib().fn_polycoefs(p, native.P(re), native.P(im), native.P(out)))
    require(k == p + 1, 'polycoefs returned %d values for %d roots', k, p)
    pc = [mp.mpf(1)]
    for r in roots:
        r = mp.mpc(r)
        pc = [(pc[i] if i < len(pc) else 0) - (r * pc[i - 1] if i > 0 else 0) for i in range(len(pc) + 1)]
    for i in range(p + 1):
        w = float(mp.re(pc[i]))
        require(abs(out[i] - w) <= 200 * EPS * p * abs(w), 'polynomial coefficient %d is %.15g, exact %.15g', i, out[i], w)
    with sut('logit'):
        x = th[0] / (1 + th[0])
        a, b = native.lib().fn_logit(native.D(x)), native.lib().fn_inv_logit(native.D(th[-1]))
    require(abs(a - float(mp.log(mp.mpf(x) / (1 - mp.mpf(x))))) <= 1e-12 * (1 + abs(a)) / (1 - x), 'logit(%r)=%r', x, a)
    w = float(1 / (1 + mp.exp(-mp.mpf(th[-1]))))
    require(abs(b - w) <= 1e-13 * w, 'inv_logit(%r)=%r, exact %r', th[-1], b, w)
    return dict(nontrivial=judged, n=n, tags=tags + ([] if judged else ['variance not judged']))
