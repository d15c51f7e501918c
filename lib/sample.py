"""Posterior sample objects of the Python package over generated draws.

A real native model object supplies everything except the stored draws, which a
subclass replaces; CarmaSample and Car1Sample are then built the way
CarmaModel.run_mcmc builds them.
"""
import contextlib
import io
import math

import numpy as np
from hypothesis import strategies as st

import gens
import native
import oracle


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as f:
        yield f


def thetas(rs, kind, p, q, t, y, n, style, sep=1e-2):
    """n parameter vectors in the prior support, in chain order (with repeats); None when there is none."""
    out = []
    base = gens.make_theta(rs, kind, p, q, t, y, sep=sep)
    if base is None:
        return None
    for i in range(n):
        if out and rs.uniform() < 0.3:
            out.append(list(out[-1]))        # a rejected move
            continue
        if style == 'free':
            th = gens.make_theta(rs, kind, p, q, t, y, sep=sep)
            out.append(th or list(base))
        else:
            w = 10 ** rs.uniform(-3, -1.5)
            sd = float(np.std(y))
            th = list(base)
            th[0] *= math.exp(w * rs.normal())
            th[1] = min(1.99, max(0.51, th[1] * math.exp(w * rs.normal())))
            th[2] += sd * w * rs.normal()
            for k in range(3, len(th)):
                th[k] += w * rs.normal() * 0.1
            out.append([float(x) for x in th])
    return out


def native_object(kind, t, y, e, p, q, draws, logpost):
    import carmcmc._carmcmc as L
    a = (True, 'theta', native.vecD(t), native.vecD(y), native.vecD(e))
    if kind == 'CAR1':
        base, args = L.CAR1, a
    elif kind == 'CARp':
        base, args = L.CARp, a + (p,)
    else:
        base, args = L.CARMA, a + (p, q)

    class Chain(base):
        def getSamples(self):
            v = L.vecvecD()
            for d in draws:
                v.append(native.vecD(d))
            return v

        def GetLogLikes(self):
            return native.vecD(logpost)
    return Chain(*args)


def build(kind, t, y, e, p, q, draws, logpost, mle=None):
    cm = native.carmcmc()
    import carmcmc.carma_pack as cp
    t, y, e = np.array(t), np.array(y), np.array(e)
    ch = native_object(kind, t, y, e, p, q, draws, logpost)
    with quiet():
        if kind == 'CAR1':
            return cp.Car1Sample(t, y, e, ch)
        if mle is not None:
            return cp.CarmaSample(t, y, e, ch, q=q, MLE=mle)
        return cp.CarmaSample(t, y, e, ch, q=q)


def logposts(kind, t, y, e, p, q, draws):
    m = native.Model(kind, t, y, e, p, q)
    out = [m.logdens(d) for d in draws]
    m.close()
    return out


@st.composite
def posterior(draw, pmax=6, nmin=3, nmax=20, smin=1, smax=12, style=None, sep=1e-2, units=True, zero=False, big=0,
              long=0, many=0, tile=()):
    """One case in 16 with tile repeats its draws, in random order or in runs, to a chain of one of these lengths."""
    c = draw(gens.data(nmin, nmax, units=units, zero=zero, big=big, long=long))
    kind, p, q = draw(gens.model_order(pmax, kinds=('CARMA', 'CARp', 'CARMA', 'CAR1')))
    c.update(kind=kind, p=p, q=q, style=style or draw(st.sampled_from(['chain', 'free'])),
             n=draw(st.integers(smin, smax) if not many or draw(st.integers(0, 15)) else st.integers(smax, many)), tseed=draw(gens.seeds()), sep=sep)
    if tile and draw(st.integers(0, 15)) == 0:
        c['tile'] = draw(st.sampled_from(list(tile)))
    return c


def draws_of(c):
    out = distinct_draws(c)
    if out and c.get('tile'):
        k = np.random.RandomState(c['tseed'] + 1).randint(0, len(out), c['tile'])
        out = [list(out[i]) for i in (np.sort(k) if c['tseed'] % 2 else k)]
    return out


def distinct_draws(c):
    if c['style'] != 'scale':
        rs = np.random.RandomState(c['tseed'])
        return thetas(rs, c['kind'], c['p'], c['q'], c['t'], c['y'], c['n'], c['style'], c['sep'])
    rs = np.random.RandomState(c['tseed'])
    base = gens.make_theta(rs, c['kind'], c['p'], c['q'], c['t'], c['y'], sep=c['sep'])
    if base is None:
        return None
    sd, out = float(np.std(c['y'])), []
    for i in range(c['n']):
        th = list(base)
        u = 0.3 * rs.normal()
        th[0] *= math.exp(0.3 * rs.normal())
        th[2] += sd * rs.normal()
        if c['kind'] == 'CAR1':
            th[3] += u
        else:
            for k in range(c['p']):
                th[3 + k] += u * (2 if k % 2 == 0 and k < 2 * (c['p'] // 2) else 1)
            for k in range(c['q']):
                th[3 + c['p'] + k] += 0.2 * rs.normal()
        out.append([float(v) for v in th])
    return out


def candidates(c, draws, lps):
    """[(process, mu)] that the request may select."""
    kind, p, q, t = c['kind'], c['p'], c['q'], c['t']

    seen = {}

    def one(th):
        if tuple(th) not in seen:
            seen[tuple(th)] = oracle.theta_process(kind, p, q, th, t), th[2]
        return seen[tuple(th)]
    if c['fit'] == 'map':
        return [one(th) for th, lp in zip(draws, lps) if lp == max(lps)][:1]
    if c['fit'] == 'random':
        return [one(th) for th in dict.fromkeys(map(tuple, draws))]
    f = np.median if c['fit'] == 'median' else np.mean
    prs = [one(th) for th in draws]
    mu = float(f([m for _, m in prs]))
    s2 = [float(pr.sigsqr) for pr, _ in prs]
    sig = float(np.median(np.sqrt(s2))) ** 2 if c['fit'] == 'median' else float(np.mean(s2))
    if kind == 'CAR1':
        roots = [-math.exp(float(f([th[3] for th in draws])))]
        ma = [1.0]
    else:
        R = np.array([pr.roots for pr, _ in prs])
        roots = f(R.real, axis=0) + 1j * np.sign(R[0].imag) * f(np.abs(R.imag), axis=0)
        ma = f(np.array([[float(x) for x in pr.ma] for pr, _ in prs]), axis=0)
    return [(oracle.Process(sig, roots, ma), mu)]


class Result(dict):
    """Like scipy.optimize.OptimizeResult."""
    __getattr__ = dict.__getitem__


class Patch(object):
    """Replaces the optimiser that the package calls."""

    def __init__(self, fake):
        import carmcmc.carma_pack as cp
        import scipy.optimize as so
        self.todo = [(so, 'minimize')] + ([(cp, 'minimize')] if hasattr(cp, 'minimize') else [])
        self.fake = fake

    def __enter__(self):
        self.old = [getattr(m, n) for m, n in self.todo]
        for m, n in self.todo:
            setattr(m, n, self.fake)

    def __exit__(self, *a):
        for (m, n), f in zip(self.todo, self.old):
            setattr(m, n, f)
