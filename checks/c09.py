"""C09: autocovariance, variance and power spectrum describe one process."""
import math

import mpmath as mp
import numpy as np
from common import require, sut
from hypothesis import strategies as st

import gens
import native
import oracle

TECHNIQUE = 'residues of the spectral density in 40-digit arithmetic and numerical integration of the reported spectrum'
RULE = ('distinct stable roots (p=1..8, rates over several decades and time units), moving-average coefficients, noise '
        'variance, lags and frequencies; the Python and native autocovariances, the power spectrum and the roots built '
        'from Lorentzians are compared with exact values and with one another; non-trivial when the tolerance on the '
        'autocovariance is below 1e-4 of the variance')
ASSUMPTIONS = ['roots are distinct and closed under conjugation']
CHUNK = 150
EPS = oracle.EPS


@st.composite
def _case(draw):
    rs = np.random.RandomState(draw(gens.seeds()))
    p = draw(st.sampled_from([2, 3, 4, 1, 5, 6, 7, 8]))
    q = draw(st.integers(0, p - 1))
    unit = draw(st.sampled_from([1.0, 1.0, 1e-3, 1e3, 1e-6, 1e-12, 1e5]))
    dec = draw(st.sampled_from([1.0, 3.0, 0.3]))
    lo, hi = unit * 10 ** (-dec), unit * 10 ** dec
    nc = p // 2
    nreal = draw(st.integers(0, nc)) if draw(st.booleans()) else 0
    for _ in range(200):
        w = np.exp(rs.uniform(math.log(lo), math.log(hi), nc - nreal + 2 * nreal + p % 2))
        c = np.exp(rs.uniform(math.log(lo), math.log(hi), nc - nreal))
        # centroids first, then centroid 0 for the real roots (the last one has none for odd p)
        cents = list(c) + [0.0] * (2 * nreal + p % 2)
        if p % 2 and draw(st.booleans()):
            cents = cents[:-1]
        roots = []
        for i in range(len(w)):
            x = cents[i] if i < len(cents) else 0.0
            roots += [complex(-2 * math.pi * w[i], 2 * math.pi * x)]
            if x > 0:
                roots += [roots[-1].conjugate()]
        if gens.distinct(roots, 1e-2):
            break
    ma = gens.make_ma(rs, q, lo, 5 * hi, draw(st.sampled_from(['roots', 'coefs'])))
    lags = [0.0] + [float(rs.choice([-1, 1]) * 10 ** rs.uniform(-3, 2) / unit) for _ in range(draw(st.integers(1, 4)))]
    freqs = [0.0] + [float(unit * 10 ** rs.uniform(-dec - 1, dec + 1)) for _ in range(draw(st.integers(1, 4)))]
    return dict(width=[float(x) for x in w], cent=[float(x) for x in cents], ma=ma, sigma=float(10 ** rs.uniform(-3, 3)),
                lags=lags, freqs=freqs, perm=[int(i) for i in rs.permutation(len(roots))], integrate=draw(st.integers(0, 3)) == 0)


def case(tier):
    return _case()


def run(c):
    cm = native.carmcmc()
    w, f0, ma = np.array(c['width']), np.array(c['cent']), list(c['ma'])
    with sut('get_ar_roots'):
        roots = np.asarray(cm.get_ar_roots(w, f0))
    want = []
    for i in range(len(w)):
        x = f0[i] if i < len(f0) else 0.0
        want += [complex(-2 * math.pi * w[i], -2 * math.pi * x)]
        if x > 0:
            want += [want[-1].conjugate()]
    p = len(want)
    require(len(roots) == p, '%d roots for widths %r and centroids %r', len(roots), list(w), list(f0))
    left = list(roots)
    for r in want:
        k = min(range(len(left)), key=lambda i: abs(left[i] - r))
        require(abs(left[k] - r) <= 1e-14 * abs(r), 'no root has width %r and centroid %r', -r.real / 2 / math.pi,
                r.imag / 2 / math.pi)
        left.pop(k)
    roots = np.array(roots, dtype=complex)
    s2 = c['sigma'] ** 2
    proc = oracle.Process(s2, roots, ma)
    tags = ['p=%d' % p, 'q=%d' % (len(ma) - 1)]
    bmax = 0.0
    for r, cc in zip(proc.R, proc.c):
        b = float(sum(abs(x) * abs(r) ** i for i, x in enumerate(ma))) ** 2
        bb = float(abs(oracle.poly(ma, r) * oracle.poly(ma, -r)))
        bmax += float(abs(cc)) * (b / bb if bb > 0 else 1e9)
    # rounding of the roots themselves
    sep = min([1.0] + [abs(roots[i] - roots[j]) / abs(roots[i]) for i in range(p) for j in range(p) if i != j])
    k0 = proc.k0
    atol = 200 * EPS * p * bmax / min(sep, 1.0)
    ok = 0 < k0 and atol < 1e-4 * k0
    lags = np.array(c['lags'])
    ar = []
    pc = [mp.mpf(1)]
    for r in proc.R:
        pc = [(pc[i] if i < len(pc) else 0) - (r * pc[i - 1] if i > 0 else 0) for i in range(len(pc) + 1)]
    ar = np.array([float(mp.re(x)) for x in pc])
    with sut('carma_variance'):
        arr = np.asarray(cm.carma_variance(s2, roots, ma, lags))
        sca = np.array([cm.carma_variance(s2, roots, ma, float(x)) for x in lags])
        mirror = np.asarray(cm.carma_variance(s2, roots, ma, -lags))
        double = np.asarray(cm.carma_variance(4 * s2, roots, ma, lags))
        perm = np.asarray(cm.carma_variance(s2, roots[c['perm']], np.array(ma), lags))
        v0 = cm.carma_variance(s2, roots, ma)
    with sut('power_spectrum'):
        ps = np.asarray(cm.power_spectrum(np.array(c['freqs']), c['sigma'], ar, ma))
        ps1 = np.array([cm.power_spectrum(float(x), c['sigma'], ar, ma) for x in c['freqs']])
    m = None
    if p > 1:
        with sut('native Variance'):
            m = native.Model('CARp', [0.0, 1.0, 2.5], [0.0, 1.0, 0.3], [0.1, 0.1, 0.1], p, 0)
            nat = [m.variance(roots, ma, c['sigma'], float(x)) for x in lags]
            natp = [m.variance(roots[c['perm']], ma, c['sigma'], float(x)) for x in lags]
            m.close()
    n = 0
    require(arr.shape == lags.shape, 'array of lags gives shape %r', arr.shape)
    require(np.ndim(v0) == 0, 'default lag gives an array')
    if ok:
        for i, x in enumerate(lags):
            e = float(proc.acf_mp(x))
            tol = atol + 4 * EPS * sum(abs(float(abs(cc))) * abs(r * x) * math.exp(r.real * abs(x)) for r, cc in
                                       zip(proc.roots, proc.c))
            tol += 1e-12 * abs(e)
            for name, v in (('autocovariance', arr[i]), ('autocovariance (scalar lag)', sca[i]),
                            ('autocovariance (negative lag)', mirror[i]),
                            ('autocovariance (four times the noise)', double[i] / 4),
                            ('autocovariance (roots permuted)', perm[i])) + \
                    ((('native autocovariance', nat[i]), ('native autocovariance (roots permuted)', natp[i])) if p > 1 else ()):
                require(abs(v - e) <= tol, '%s at lag %r is %.15g, exact %.15g (tolerance %.1g)', name, x, v, e, tol)
                n += 1
        require(abs(v0 - k0) <= atol + 1e-12 * k0, 'variance %.15g, exact %.15g', v0, k0)
    for i, f in enumerate(c['freqs']):
        e = float(proc.psd(f))
        s = 2 * math.pi * f
        # cancellation inside the two polynomials
        a1 = sum(abs(x) * s ** (p - k) for k, x in enumerate(ar)) ** 2 / max(
            float(abs(np.prod([mp.mpc(0, s) - r for r in proc.R]))) ** 2, 1e-300)
        b0 = float(abs(oracle.poly(ma, mp.mpc(0, s)))) ** 2
        b1 = sum(abs(x) * s ** k for k, x in enumerate(ma)) ** 2 / b0 if b0 > 0 else math.inf
        tol = 100 * EPS * (p + 1) * (a1 + b1)
        if tol < 1e-3:
            for v in (ps[i], ps1[i]):
                require(abs(v - e) <= tol * e, 'power spectrum at %r is %.15g, exact %.15g', f, v, e)
            n += 1
    if ok and c['integrate'] and all(abs(r.imag) < 20 * abs(r.real) for r in roots):
        # variance = integral of the reported spectrum over all (positive and negative) frequencies
        fr = np.abs(roots) / 2 / math.pi
        g = np.exp(np.linspace(math.log(1e-5 * fr.min()), math.log(1e5 * fr.max()), 6000))
        with sut('power_spectrum'):
            s = np.asarray(cm.power_spectrum(g, c['sigma'], ar, ma))
        h = math.log(g[1] / g[0])
        integral = 2 * (np.sum(s * g) - 0.5 * (s[0] * g[0] + s[-1] * g[-1])) * h + 2 * s[0] * g[0]
        if len(ma) == p:
            integral += 2 * s[-1] * g[-1]      # 1/f^2 tail
        require(abs(integral - k0) <= 3e-3 * k0, 'the reported spectrum integrates to %.6g, the variance is %.6g',
                integral, k0)
        tags.append('integrated')
        n += 1
    return dict(nontrivial=bool(ok), tags=tags + ([] if ok else ['ill-conditioned']), counts=dict(values=n))
