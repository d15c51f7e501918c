"""C05: a filter's answers depend only on its data and current parameters, not on earlier calls."""
import numpy as np
from common import require, sut
from hypothesis import strategies as st

import gens
import native
import oracle

TECHNIQUE = 'model-based call sequences: every answer against that of a freshly built filter with the same state'
RULE = ('a generated series and a sequence of 1..14 operations (filter, predict, simulate, set noise variance, roots, '
        'moving average, series, errors, all data including the times, or use of another filter object) on one filter '
        'object; after every operation the answer is compared with that of a freshly built filter under the same seed '
        '(and with the exact one when other filters were used in between); non-trivial when at least one compared call '
        'follows another call')
ASSUMPTIONS = ['p<=4; tolerance 1e-6, or the conditioning bound of lib/oracle.py when small measurement errors make it '
               'larger']
CHUNK = 120


@st.composite
def _proc(draw, t, p=None):
    return draw(gens.process(t, pmin=1 if p == 1 else 2, pmax=1 if p == 1 else 7, sep=0.05))


@st.composite
def _case(draw):
    t = draw(gens.times(2, 12, big=70, long=300))
    car1 = draw(st.integers(0, 3)) == 0
    pr = draw(_proc(t, 1 if car1 else None))
    sd = gens.stationary_sd(pr)
    t0 = t
    via = draw(st.sampled_from(['shim', 'shim', 'py']))

    def data():
        return draw(gens.values(len(t), sd))

    low = draw(st.sampled_from([0.03, 0.03, 0.0, 1e-4]))

    def err():
        return [max(abs(x), low * sd) for x in draw(gens.errors(len(t), sd))]

    def qs(k):
        T = t[-1] - t[0]
        return [float(t[0] + T * draw(st.sampled_from([0.5, -0.1, 0.3, 1.1, 0.77, 0.0, 1.0, 0.123, 2.0])))
                for _ in range(k)]
    ops = []
    y, e = data(), err()
    for _ in range(draw(st.integers(1, 14))):
        kinds = ['filter', 'predict', 'simulate', 'predict', 'simulate', 'filter']
        if via == 'shim':
            kinds += ['sigsqr', 'proc', 'y', 'e', 'data']
        kinds += ['other']
        k = draw(st.sampled_from(kinds))
        if k == 'filter':
            ops.append([k])
        elif k == 'predict':
            ops.append([k, qs(1)[0]])
        elif k == 'simulate':
            ops.append([k, qs(draw(st.sampled_from([1, 2, 3, 4, 9]))), draw(gens.seeds())])
        elif k == 'sigsqr':
            ops.append([k, draw(st.sampled_from([0.5, 2.0, 1.5]))])
        elif k == 'proc':
            q = draw(_proc(t, 1 if car1 else None))
            # same scale, so that tolerances stay meaningful
            f = sd ** 2 / max(gens.stationary_sd(q) ** 2, 1e-300)
            q['sigsqr'] *= f
            ops.append([k, q])
        elif k == 'y':
            ops.append([k, data()])
        elif k == 'e':
            ops.append([k, err()])
        elif k == 'data':
            # other times on the same scale: jittered and, possibly, fewer of them
            w = draw(st.lists(st.sampled_from([0.0, 0.1, 0.25, 0.4]), min_size=len(t0), max_size=len(t0)))
            t = [float(a + x * (b - a)) for a, b, x in zip(t0, list(t0[1:]) + [2 * t0[-1] - t0[-2]], w)]
            t = t[draw(st.integers(0, max(0, len(t0) - 3))):] if draw(st.booleans()) else t
            ops.append([k, t, data(), err()])
        elif k == 'other':
            q = draw(_proc(t, 1 if car1 else None))
            ops.append([k, q, data(), err(), qs(1)[0], draw(gens.seeds()), draw(st.integers(1, 7))])
    return dict(t=[float(x) for x in t0], y=y, e=e, proc=pr, ops=ops, via=via)


def case(tier):
    return _case()


def fresh(via, car1, t, y, e, pr):
    cls = native.PyFilter if via == 'py' else native.Filter
    return cls(t, y, e, pr['sigsqr'], gens.croots(pr), pr['ma'], car1=car1)


def tolerance(pr, t, e, qs):
    """None when rounding may be amplified too much for a comparison."""
    try:
        proc = oracle.Process(pr['sigsqr'], gens.croots(pr), pr['ma'])
        if not proc.amp() < 1e4:
            return None
        x = dict(zip(t, e))
        for q in qs:                      # answers are treated as noise-free measurements by the recursion
            x[q] = 0.0
        tt = np.array(sorted(x))
        v = oracle.onestep(proc, tt, np.zeros(len(tt)), np.array([x[k] for k in tt]))[1]
        tol = oracle.rel_tol(proc, tt, float(v.min()), e=e)
    except (ValueError, ZeroDivisionError):
        return None
    return max(tol, 1e-6) if tol < 1e-4 else None


def run(c):
    pr = dict(c['proc'])
    car1 = len(pr['roots']) == 1
    t, y, e = c['t'], c['y'], c['e']
    with sut('constructing the filter'):
        f = fresh(c['via'], car1, t, y, e, pr)
    calls = 0
    others = []
    compared = 0
    tags = [c['via'], 'car1' if car1 else 'carma']

    def same(a, b, what, scale):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        require(a.shape == b.shape, '%s: %d values, a fresh filter gives %d', what, a.size, b.size)
        require(bool(np.all(np.isfinite(a) == np.isfinite(b))), '%s: %r, a fresh filter gives %r', what, a.tolist(),
                b.tolist())
        ok = np.isfinite(a)
        require(bool(np.all(np.abs(a[ok] - b[ok]) <= tol * (scale + np.abs(b[ok])))),
                '%s after %d earlier calls: %r, a fresh filter gives %r', what, calls, a.tolist(), b.tolist())

    for op in c['ops']:
        k = op[0]
        with sut(k):
            if k == 'sigsqr':
                pr = dict(pr, sigsqr=pr['sigsqr'] * op[1])
                f.set_sigsqr(pr['sigsqr'])
            elif k == 'proc':
                pr = dict(op[1])
                f.set_sigsqr(pr['sigsqr'])
                f.set_roots(gens.croots(pr))
                if not car1:
                    f.set_ma(list(pr['ma']) + [0.0] * (len(pr['roots']) - len(pr['ma'])))
            elif k == 'y':
                y = op[1]
                f.set_y(y)
            elif k == 'e':
                e = op[1]
                f.set_e(e)
            elif k == 'data':
                if not hasattr(native.lib(), 'kf_set_t'):
                    break
                t, y, e = op[1:]
                f.set_t(t)
                f.set_y(y)
                f.set_e(e)
            elif k == 'other':            # another filter on the same times is built, used and kept
                h = fresh(c['via'], car1, t, op[2], op[3], op[1])
                others.append(h)
                native.seed(op[5])
                if op[6] & 1:
                    h.filter()
                if op[6] & 2:
                    h.predict(op[4])
                if op[6] & 4:
                    h.simulate([op[4]])
                calls += 1
            else:
                g = fresh(c['via'], car1, t, y, e, pr)
                sd = gens.stationary_sd(pr)
                tol = tolerance(pr, t, e, [] if k == 'filter' else [op[1]] if k == 'predict' else op[1])
                ok = tol is not None
                if k == 'filter':
                    a, b = f.filter(), g.filter()
                    if ok:
                        same(a[0], b[0], 'filtered means', sd)
                        same(a[1], b[1], 'filtered variances', 0.0)
                        if others:
                            b = oracle.onestep(oracle.Process(pr['sigsqr'], gens.croots(pr), pr['ma']), np.array(t),
                                               np.array(y), np.array(e))
                            same(a[0], b[0], 'filtered means (exact value instead of a fresh filter)', sd)
                            same(a[1], b[1], 'filtered variances (exact value instead of a fresh filter)', 0.0)
                elif k == 'predict':
                    a, b = f.predict(op[1]), g.predict(op[1])
                    if ok:
                        same(a[:1], b[:1], 'predicted mean', sd)
                        same(a[1:], b[1:], 'predicted variance', 1e-3 * sd * sd)
                        if others:
                            M, S = oracle.conditional(oracle.Process(pr['sigsqr'], gens.croots(pr), pr['ma']),
                                                      np.array(t), np.array(y), np.array(e), np.array([op[1]]))
                            same(a[:1], M, 'predicted mean (exact value instead of a fresh filter)', sd)
                            same(a[1:], S[0], 'predicted variance (exact value instead of a fresh filter)', 1e-3 * sd * sd)
                else:
                    native.seed(op[2])
                    a = f.simulate(op[1])
                    native.seed(op[2])
                    b = g.simulate(op[1])
                    if ok:
                        same(a, b, 'simulated values', sd)
                g.close()
                if ok:
                    compared += calls > 0
                calls += 1
            tags.append(k)
        if c['via'] == 'shim':
            with sut('reading the data back'):
                d = f.data()
            for a, b, w in zip(d, (t, y, e), ('times', 'measurements', 'errors')):
                require(np.array_equal(a, np.asarray(b)), 'the stored %s changed after %s', w, k)
    f.close()
    for h in others:
        h.close()
    return dict(nontrivial=compared > 0, tags=tags, counts=dict(compared_calls=compared))
