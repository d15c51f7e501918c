"""Generators shared by the checks (Hypothesis strategies that yield JSON values)."""
import math

import numpy as np

import common  # noqa: F401
from hypothesis import strategies as st

NICE_GAPS = [1.0, 0.5, 2.0, 0.25, 0.1, 3.0, 10.0, 0.01, 50.0]
UNITS = [1.0, 1.0, 1.0, 1.0, 1e-3, 86400.0, 24.0, 365.25, 1e5, 1e-6]
ORIGINS = [0.0, 0.0, 0.0, 1.0, -3.0, 100.0, 53000.0, -2000.0]
SCALES = [1.0, 1.0, 1.0, 0.01, 50.0, 1e4, 1e-5]


def seeds():
    return st.integers(0, 2 ** 31 - 1)


def make_times(rs, n, pattern):
    if pattern == 'regular':
        g = np.ones(n - 1)
    elif pattern == 'jitter':
        g = rs.uniform(0.7, 1.3, n - 1)
    elif pattern == 'poisson':
        g = rs.exponential(1.0, n - 1) + 0.02
    elif pattern == 'wide':
        g = np.exp(rs.uniform(math.log(0.01), math.log(30.0), n - 1))
    elif pattern == 'clusters':
        g = np.where(rs.uniform(size=n - 1) < 0.2, rs.uniform(20, 200, n - 1), rs.uniform(0.5, 1.5, n - 1))
    elif pattern == 'close':
        g = np.where(rs.uniform(size=n - 1) < 0.3, 10 ** rs.uniform(-5, -2, n - 1), rs.uniform(0.5, 1.5, n - 1))
    else:
        raise ValueError(pattern)
    return np.concatenate([[0.0], np.cumsum(g)])


PATTERNS = ['poisson', 'regular', 'jitter', 'wide', 'clusters', 'close']


@st.composite
def times(draw, nmin=2, nmax=40, units=True, patterns=PATTERNS, big=0, long=0):
    """Strictly increasing times; n in nmax..big in a fifth of the cases, a tenth of these in big..long."""
    style = draw(st.sampled_from(['small', 'random', 'random', 'random'] + (['big'] if big else [])))
    if style == 'small':
        n = draw(st.integers(nmin, max(nmin, min(nmax, 8))))
        g = draw(st.lists(st.sampled_from(NICE_GAPS), min_size=n - 1, max_size=n - 1))
        t = np.concatenate([[0.0], np.cumsum(g)])
    else:
        if style == 'random':
            n = draw(st.integers(nmin, nmax))
        elif long and draw(st.integers(0, 9)) == 9:
            n = draw(st.integers(big, long))
        else:
            n = draw(st.integers(max(nmin, nmax), big))
        t = make_times(np.random.RandomState(draw(seeds())), n, draw(st.sampled_from(patterns)))
    if units:
        u = draw(st.sampled_from(UNITS))
        o = draw(st.sampled_from(ORIGINS))
        t = (t + o) * u
    t = np.unique(t)
    assert len(t) >= nmin
    return t


def distinct(roots, tol):
    r = np.asarray(roots)
    for i in range(len(r)):
        for j in range(i):
            if abs(r[i] - r[j]) < tol * abs(r[i] + r[j]):
                return False
    return True


def make_roots(rs, p, lo, hi, real_frac=0.3, sep=1e-2):
    """p stable roots closed under conjugation; rates/2pi within [lo, hi]."""
    for _ in range(200):
        out = []
        k = p
        while k >= 2:
            w = 2 * math.pi * np.exp(rs.uniform(math.log(lo), math.log(hi)))
            if rs.uniform() < real_frac:
                w2 = 2 * math.pi * np.exp(rs.uniform(math.log(lo), math.log(hi)))
                out += [complex(-w, 0), complex(-w2, 0)]
            else:
                c = 2 * math.pi * np.exp(rs.uniform(math.log(lo), math.log(hi)))
                out += [complex(-w, c), complex(-w, -c)]
            k -= 2
        if k:
            out.append(complex(-2 * math.pi * np.exp(rs.uniform(math.log(lo), math.log(hi))), 0))
        if distinct(out, sep):
            return out
    raise ValueError('no distinct roots')


def make_ma(rs, q, lo, hi, style):
    """q+1 coefficients, constant term 1."""
    if q == 0:
        return [1.0]
    if style == 'coefs':
        s = 2 * math.pi * math.exp(rs.uniform(math.log(lo), math.log(hi)))
        return [1.0] + [float(rs.normal() / s ** k) for k in range(1, q + 1)]
    roots = make_roots(rs, q, lo, hi, sep=0.0)
    c = np.real(np.poly(roots))[::-1]
    return [float(x) for x in c / c[0]]


@st.composite
def process(draw, t, pmin=1, pmax=7, qmax=None, wide=1.0, sep=1e-2, p=None, q=None):
    """dict(sigsqr, roots=[[re,im]..], ma) scaled so that the stationary sd is a drawn scale."""
    import oracle
    t = np.sort(np.unique(t))
    T = t[-1] - t[0]
    dt = np.min(np.diff(t))
    lo, hi = 1.0 / T / wide, max(1.0 / dt * wide, 1.5 / T)
    if draw(st.integers(0, 3)) == 0:
        pass
    else:
        # rates resolved by the sampling: the usual situation
        md = float(np.median(np.diff(t)))
        hi = max(min(hi, 1.0 / md), 1.5 * lo)
    if p is None:
        p = draw(st.sampled_from([k for k in (2, 3, 4, 5, 1, 6, 7, 8) if pmin <= k <= pmax]))
    if q is None:
        q = draw(st.integers(0, p - 1 if qmax is None else min(p - 1, qmax)))
    rs = np.random.RandomState(draw(seeds()))
    try:
        roots = make_roots(rs, p, lo, hi, real_frac=draw(st.sampled_from([0.0, 0.3, 1.0])), sep=sep)
    except ValueError:
        roots = make_roots(rs, p, 0.01 * lo, 100 * hi, sep=min(sep, 1e-3))
    ma = make_ma(rs, q, lo, hi * 5, draw(st.sampled_from(['roots', 'roots', 'coefs'])))
    sd = draw(st.sampled_from(SCALES))
    k = oracle.Process(1.0, roots, ma).k0
    sigsqr = sd * sd / k
    if not (math.isfinite(sigsqr) and sigsqr > 0):
        sigsqr = 1.0
    return dict(sigsqr=float(sigsqr), roots=[[r.real, r.imag] for r in roots], ma=ma)


def croots(proc):
    return np.array([complex(a, b) for a, b in proc['roots']])


@st.composite
def errors(draw, n, sd, zero=True):
    """Measurement errors relative to the process standard deviation sd."""
    style = draw(st.sampled_from(['const', 'const', 'hetero', 'hetero', 'mixed'] + (['zero'] if zero else [])))
    rs = np.random.RandomState(draw(seeds()))
    if style == 'zero':
        return [0.0] * n
    lvl = draw(st.sampled_from([0.1, 0.3, 1.0, 0.01, 1e-3, 3.0, 30.0]))
    if style == 'const':
        e = np.full(n, lvl * sd)
    else:
        e = lvl * sd * np.exp(rs.uniform(-2, 2, n))
        if style == 'mixed' and zero:
            e = np.where(rs.uniform(size=n) < 0.3, 0.0, e)
    return [float(x) for x in e]


@st.composite
def values(draw, n, sd):
    style = draw(st.sampled_from(['normal', 'normal', 'smooth', 'nice', 'outlier']))
    rs = np.random.RandomState(draw(seeds()))
    if style == 'normal':
        y = rs.normal(size=n)
    elif style == 'smooth':
        y = np.cumsum(rs.normal(size=n)) / math.sqrt(n)
    elif style == 'outlier':
        y = rs.standard_t(1.5, size=n)
        y = np.clip(y, -50, 50)
    else:
        y = rs.randint(-3, 4, size=n).astype(float)
    return [float(x) for x in y * sd]


def stationary_sd(proc):
    import oracle
    return math.sqrt(max(oracle.Process(proc['sigsqr'], croots(proc), proc['ma']).k0, 0.0))


@st.composite
def series_and_process(draw, nmin=2, nmax=40, big=0, pmin=1, pmax=7, zero=True, wide=1.0, sep=1e-2, units=True,
                       qmax=None, long=0):
    t = draw(times(nmin, nmax, units=units, big=big, long=long))
    pr = draw(process(t, pmin=pmin, pmax=pmax, wide=wide, sep=sep, qmax=qmax))
    sd = stationary_sd(pr) or 1.0
    e = draw(errors(len(t), sd, zero))
    y = draw(values(len(t), sd))
    return dict(t=[float(x) for x in t], y=y, e=e, proc=pr)


# ------------------------------------------------------------------ model parameter vectors
def log_factors(roots):
    """Log coefficients of the factors; roots come as [pair, pair, ..., last real]."""
    out = []
    for i in range(len(roots) // 2):
        a, b = roots[2 * i], roots[2 * i + 1]
        out += [float(np.log((a * b).real)), float(np.log(-(a + b).real))]
    if len(roots) % 2:
        out.append(float(np.log(-roots[-1].real)))
    return out


def model_roots(rs, p, lo, hi, sep=1e-2, real_frac=0.2, clo=0.05):
    """Roots inside the prior support: widths in (lo, hi), centroids below hi and non-increasing."""
    llo, lhi = math.log(lo) + 0.02, math.log(hi) - 0.02
    if lhi <= llo:
        llo, lhi = math.log(lo) + 0.25 * math.log(hi / lo), math.log(lo) + 0.75 * math.log(hi / lo)
    for _ in range(300):
        cents = sorted((math.exp(rs.uniform(math.log(clo * lo), lhi)) for _ in range(p // 2)), reverse=True)
        nreal = int(rs.binomial(p // 2, real_frac)) if p > 1 else 0
        out = []
        for i, c in enumerate(cents):
            w = math.exp(rs.uniform(llo, lhi))
            if i >= len(cents) - nreal:
                w2 = math.exp(rs.uniform(llo, lhi))
                out += [complex(-2 * math.pi * max(w, w2), 0), complex(-2 * math.pi * min(w, w2), 0)]
            else:
                out += [complex(-2 * math.pi * w, -2 * math.pi * c), complex(-2 * math.pi * w, 2 * math.pi * c)]
        if p % 2:
            out.append(complex(-2 * math.pi * math.exp(rs.uniform(llo, lhi)), 0))
        if distinct(out, sep):
            return out
    return None


def make_theta(rs, kind, p, q, t, y, sep=1e-2, resolved=True):
    """A parameter vector inside the prior support."""
    t, y = np.asarray(t), np.asarray(y)
    T, dt = t[-1] - t[0], float(np.min(np.diff(t)))
    lo, hi = 1.0 / T, 1.0 / dt
    if resolved:
        hi = max(min(hi, 1.0 / float(np.median(np.diff(t)))), lo * 1.3)
    sd = max(float(np.std(y)), 1e-12 * max(1.0, float(np.max(np.abs(y)))))
    th = [sd * math.exp(rs.uniform(-2, 1)), rs.uniform(0.52, 1.98), float(np.mean(y)) + sd * rs.normal()]
    if kind == 'CAR1':
        a, b = math.log(lo), math.log(hi)
        return [float(x) for x in th + [rs.uniform(a + 0.02 * (b - a), b - 0.02 * (b - a))]]
    roots = None
    for clo in (0.05, 1e-3):
        roots = model_roots(rs, p, lo, hi, sep=sep, clo=clo)
        if roots is None:
            roots = model_roots(rs, p, lo, 1.0 / dt, sep=sep, clo=clo)
        if roots is not None:
            break
    if roots is None:
        return None
    th += log_factors(roots)
    if kind == 'CARMA':
        if rs.uniform() < 0.5:
            mr = []
            while len(mr) < q - 1:
                w, c = (2 * math.pi * math.exp(rs.uniform(math.log(lo), math.log(5 * hi))) for _ in range(2))
                mr += [complex(-w, c), complex(-w, -c)] if rs.uniform() < 0.7 else [complex(-w, 0), complex(-c, 0)]
            if q % 2:
                mr.append(complex(-2 * math.pi * math.exp(rs.uniform(math.log(lo), math.log(5 * hi))), 0))
            th += log_factors(mr)
        else:
            th += [float(x) for x in rs.normal(size=q)]
    elif kind == 'ZCARMA':
        th.append(float(rs.normal(scale=2.0)))
    return [float(x) for x in th]


@st.composite
def data(draw, nmin=3, nmax=30, big=0, zero=False, units=True, long=0):
    """A series to fit: strictly increasing times, non-constant values, errors."""
    t = draw(times(nmin, nmax, big=big, units=units, long=long))
    n = len(t)
    sd = draw(st.sampled_from(SCALES))
    y = np.array(draw(values(n, 1.0)))
    if np.std(y) < 1e-3:
        y = y + np.linspace(-1, 1, n)
    off = draw(st.sampled_from([0.0, 0.0, 1.0, -20.0, 5.0]))
    y = sd * (y + off)
    e = draw(errors(n, sd, zero))
    return dict(t=[float(x) for x in t], y=[float(x) for x in y], e=e)


@st.composite
def model_order(draw, pmax=7, kinds=('CARMA', 'CARp', 'CAR1', 'ZCARMA', 'ZCAR')):
    kind = draw(st.sampled_from(list(kinds)))
    if kind == 'CAR1':
        return kind, 1, 0
    p = draw(st.sampled_from([k for k in (2, 3, 4, 5, 6, 7, 8, 9, 10, 12) if k <= pmax]))
    q = draw(st.integers(1, p - 1)) if kind == 'CARMA' else 0
    return kind, p, q
