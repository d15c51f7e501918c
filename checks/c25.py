"""C25: no memory error or undefined behaviour on admissible inputs."""
import json
import math
import os
import subprocess
import sys

if __name__ == '__main__':
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))

import numpy as np
from common import Violation, require, sut
from hypothesis import strategies as st

import gens
import native
from native import D, P, arr

TECHNIQUE = ('AddressSanitizer and UndefinedBehaviorSanitizer builds driven by generated call sequences; each sequence is repeated in '
             'a process whose fresh memory has another content, and must give the same results')
RULE = ('sequences of 2-14 operations on a pool of objects: filters (built six ways, set, filtered, predicted, simulated at up to 30 '
        'times, copied into other orders), models of five classes (log density, prior, bounds, mapping, starting values, with '
        'ordinary and extreme parameter vectors), samplers (1-5 chains, thinning, initial values of right and wrong length), '
        'proposals, Metropolis, adaptive and exchange steps, generator state, Python-extension objects that outlive each other; '
        'series of 2-60 points, unsorted and repeated times included for filters; non-trivial when at least three operations ran')
ASSUMPTIONS = ['at least two distinct times for filters, three increasing times for models; values not all equal for samplers',
               'parameter vectors are finite and have the length of the model']
CHUNK = 60
SANITIZE = True
HANG = 100

OPS = ['filter_new', 'filter_new', 'filter_run', 'filter_predict', 'filter_simulate', 'filter_set', 'filter_free',
       'model_new', 'model_new', 'model_dens', 'model_dens', 'model_map', 'model_start', 'model_setstart', 'model_kalman', 'model_free',
       'run', 'ram', 'exchange', 'stretch', 'metrop', 'rng', 'chol', 'py_filter', 'py_model', 'py_run', 'sampler', 'unique']


@st.composite
def _case(draw):
    return dict(seed=draw(gens.seeds()),
                ops=draw(st.lists(st.tuples(st.sampled_from(OPS), gens.seeds()), min_size=2, max_size=14)))


def case(tier):
    return _case()


def series(rs, nmin=2, nmax=60, extreme=False, tidy=False):
    n = nmin + int(min(rs.exponential(6), nmax - nmin)) if rs.uniform() < 0.7 else nmin
    pat = gens.PATTERNS[rs.randint(len(gens.PATTERNS))]
    t = gens.make_times(rs, n, pat)
    y = rs.normal(size=n)
    if np.std(y) < 1e-3:
        y = y + np.arange(n)
    e = np.abs(rs.normal(size=n)) * rs.choice([0.1, 1.0, 10.0])
    e[rs.uniform(size=n) < 0.2] = 0.0
    if extreme:
        t = (t + rs.choice([0, -100, 1e6])) * 10.0 ** rs.randint(-12, 13)
        s = 10.0 ** rs.randint(-30, 31)
        y, e = y * s, e * s
        t = np.unique(t)
        if len(t) < n:
            t = t[0] + (np.arange(n) + 0.5) * max(abs(t[0]), 1.0)
    if not tidy and rs.uniform() < 0.3:
        # unsorted and repeated times: the constructors put them in order
        k = rs.permutation(n)
        if n > nmin + 1:
            k = np.append(k, k[0])
        t, y, e = t[k], y[k], e[k]
    if rs.uniform() < 0.2:
        e = e * 0.0 + 0.1
    return t, y, e


def process(rs, t, p=None):
    t = np.unique(t)
    T, dt = t[-1] - t[0], float(np.min(np.diff(t)))
    p = p or int(rs.randint(1, 8))
    roots = gens.make_roots(rs, p, 0.3 / T, max(3.0 / dt, 1.0 / T), real_frac=rs.choice([0.0, 0.3, 1.0]), sep=0.0)
    q = int(rs.randint(0, p))
    ma = gens.make_ma(rs, q, 0.3 / T, 3.0 / dt, 'coefs')
    if rs.uniform() < 0.1 and p > 1:
        roots[1] = roots[0]          # a double root: results are undefined numbers, not undefined behaviour
    return 10.0 ** rs.randint(-6, 7), roots, ma


def theta(rs, kind, p, q, t, y):
    st_ = rs.randint(4)
    tt = np.unique(t)
    x = gens.make_theta(rs, kind, p, q, tt, y) if st_ < 2 else None
    if x is None:
        x = [float(v) for v in rs.normal(size=native.ntheta(kind, p, q)) * (1.0 if st_ < 3 else 300.0)]
    return [float(v) for v in x]


def execute(c):
    """Run the operations; returns the list of results (floats and lists)."""
    lib = native.lib()
    native.seed(c['seed'])
    filters, models, pyobj = [], [], []
    out = []
    with sut('a native call'):
        for op, s in c['ops']:
            rs = np.random.RandomState(s)
            if op == 'filter_new':
                t, y, e = series(rs, extreme=rs.uniform() < 0.3)
                s2, roots, ma = process(rs, t)
                car1 = len(roots) == 1
                filters.append(native.Filter(t, y, e, s2, [roots[0].real] if car1 else roots, [1.0] if car1 else ma, car1=car1,
                                             how=int(rs.randint(4))))
            elif op.startswith('filter_') and filters:
                f = filters[rs.randint(len(filters))]
                t, y, e = f.data()
                T = t[-1] - t[0]
                if op == 'filter_run':
                    out.append([list(map(float, v)) for v in f.filter()])
                elif op == 'filter_predict':
                    f.filter()
                    for x in list(t[0] + T * rs.uniform(-0.5, 1.5, 3)) + [t[0], t[-1], t[len(t) // 2], t[-1] + 100 * T]:
                        out.append(f.predict(float(x)))
                elif op == 'filter_simulate':
                    f.filter()
                    x = t[0] + T * rs.uniform(-0.5, 1.5, rs.choice([0, 1, 3, 30]))
                    if rs.uniform() < 0.3 and len(x):
                        x[0] = t[rs.randint(len(t))]
                    if rs.uniform() < 0.2 and len(x) > 1:
                        x[1] = x[0]
                    out.append([float(v) for v in f.simulate(x)])
                elif op == 'filter_set':
                    w = rs.randint(4)
                    if w == 0:
                        f.set_sigsqr(float(rs.uniform(0.1, 10)))
                    elif w == 1:
                        f.set_y(rs.normal(size=len(t)))
                    elif w == 2:
                        f.set_e(np.abs(rs.normal(size=len(t))))
                    elif not f.car1:
                        s2, roots, ma = process(rs, t, p=int(rs.randint(2, 8)))
                        f.set_roots(roots)
                        f.set_ma(list(ma) + [0.0] * (len(roots) - len(ma)))
                else:
                    f.close()
                    filters.remove(f)
            elif op == 'model_new':
                ext = rs.uniform() < 0.2
                t, y, e = series(rs, 3, 40, extreme=ext, tidy=True)
                kind = ['CAR1', 'CARp', 'CARMA', 'ZCAR', 'ZCARMA'][rs.randint(5)]
                p = 1 if kind == 'CAR1' else int(rs.randint(2, 8))
                q = int(rs.randint(1, p)) if kind == 'CARMA' else 0
                m = native.Model(kind, t, y, e, p, q, temp=float(rs.choice([1.0, 10.0])))
                models.append((m, t, y, ext))
            elif op.startswith('model_') and models:
                k = rs.randint(len(models))
                m, t, y, ext = models[k]
                if op == 'model_dens':
                    if rs.uniform() < 0.2:
                        m.setmle(bool(rs.randint(2)))
                    if rs.uniform() < 0.2:
                        m.setprior(float(np.std(y) * rs.uniform(5, 20)))
                    x = theta(rs, m.kind, m.p, m.q, t, y)
                    out += [m.logdens(x), m.getlogdens(x), m.logprior(x), float(m.inbounds(x))]
                    if math.isfinite(m.logdens(x)):
                        m.save(x)
                elif op == 'model_map':
                    x = theta(rs, m.kind, m.p, m.q, t, y)
                    r = m.arroots(x)
                    out += [list(map(float, np.real(r))), list(map(float, np.imag(r))), m.sigsqr(x)]
                    if m.kind != 'CAR1':
                        ma = m.ma(x)
                        out += [list(map(float, ma)), m.variance(r, ma, 1.3, float(rs.choice([0.0, 1.0])))]
                elif op == 'model_start' and not ext:
                    x, lp = m.start()
                    out += [list(map(float, x)), lp]
                elif op == 'model_setstart' and not ext:
                    k = native.ntheta(m.kind, m.p, m.q)
                    x = theta(rs, m.kind, m.p, m.q, t, y) if rs.uniform() < 0.6 else list(rs.normal(size=rs.choice([1, k - 1, k + 1])))
                    x, lp = m.setstart(x)
                    out += [list(map(float, x)), lp]
                elif op == 'model_kalman':
                    x = gens.make_theta(rs, m.kind, m.p, m.q, np.unique(t), y)
                    if x is not None and math.isfinite(m.save(x)):
                        a, b = m.kalman(len(np.unique(t)))
                        out.append([list(map(float, a)), list(map(float, b))])
                elif op == 'model_free':
                    m.close()
                    models.pop(k)
            elif op in ('run', 'py_run'):
                t, y, e = series(rs, 3, 30, tidy=True)
                p = int(rs.randint(1, 6))
                q = int(rs.randint(0, p)) if p > 1 else 0
                z = p > 1 and rs.uniform() < 0.2
                kind = 'CAR1' if p == 1 else 'ZCAR' if z else 'CARp' if q == 0 else 'CARMA'
                q = 0 if z else q
                init = ()
                if rs.uniform() < 0.5:
                    x = gens.make_theta(rs, kind, p, q, np.unique(t), y)
                    init = (x or ()) if rs.uniform() < 0.7 else (1.0, 2.0)
                ns, nb, nw, th = int(rs.choice([1, 3, 20])), int(rs.choice([0, 1, 10, 60])), int(rs.choice([1, 2, 5])), int(rs.choice(
                    [1, 3]))
                if op == 'run':
                    m = native.run_sampler(t, y, e, p, q, nsamp=ns, burn=nb, nwalk=nw, thin=th, init=init, zcarma=z)
                    a, b = m.samples()
                    out += [list(map(float, a.ravel())), list(map(float, b))]
                    x = theta(rs, kind, p, q, t, y)
                    out.append(m.logdens(x))
                    models.append((m, t, y, False))
                elif not z:
                    import carmcmc._carmcmc as L
                    v = [native.vecD(w) for w in (t, y, e)]
                    iv = native.vecD(init)
                    if p == 1:
                        r = L.run_mcmc_car1(ns, nb, v[0], v[1], v[2], th, iv)
                    else:
                        r = L.run_mcmc_carma(ns, nb, v[0], v[1], v[2], p, q, nw, False, th, iv)
                    del v, iv
                    out.append([list(x) for x in r.getSamples()])
                    out.append(list(r.GetLogLikes()))
                    pyobj.append(r)
            elif op == 'py_filter':
                t, y, e = series(rs)
                s2, roots, ma = process(rs, t)
                f = native.PyFilter(t, y, e, s2, [roots[0].real] if len(roots) == 1 else roots, ma, car1=len(roots) == 1)
                out.append([list(map(float, v)) for v in f.filter()])
                pr = f.k.Predict(float(t.max() + 1))
                sim = f.k.Simulate(native.vecD(t[:1] + 0.5))
                pyobj.append(pr)
                del f
                out += [pr.first, pr.second, list(sim)]
            elif op == 'py_model':
                import carmcmc._carmcmc as L
                t, y, e = series(rs, 3, 30, tidy=True)
                p = int(rs.randint(1, 6))
                q = int(rs.randint(1, p)) if p > 1 else 0
                a = (True, 'm', native.vecD(t), native.vecD(y), native.vecD(e))
                kind = 'CAR1' if p == 1 else 'CARMA' if rs.uniform() < 0.5 else 'CARp'
                m = L.CAR1(*a) if p == 1 else L.CARMA(*a, p, q) if kind == 'CARMA' else L.CARp(*a, p)
                del a
                x = native.vecD(theta(rs, kind, p, q if kind == 'CARMA' else 0, t, y))
                out += [m.getLogDensity(x), m.getLogPrior(x)]
                if p > 1:
                    m.SetMLE(True)
                    out.append(m.getLogDensity(x))
                pyobj.append(m)
            elif op in ('ram', 'exchange', 'stretch', 'metrop', 'sampler'):
                out.append(steps(lib, rs, op))
            elif op == 'rng':
                r = [int(rs.randint(1, 1000)), 7]
                lib.rng_set_seed(r[0])
                d = int(rs.randint(1, 8))
                B = rs.normal(size=(d, d)) + 3 * np.eye(d)
                o = np.full(4 * d, np.nan)
                native.chk(lib.rng_mvn(d, P(arr(B @ B.T)), 4, P(o)))
                out.append([float(v) for v in o])
            elif op == 'chol':
                d = int(rs.randint(1, 14))
                R = np.triu(rs.normal(size=(d, d)))
                R[np.arange(d), np.arange(d)] = np.abs(np.diag(R)) + 0.5
                u = rs.normal(size=d)
                v = 0.7 * (R.T @ (u / np.linalg.norm(u)))
                L = arr(R.copy())
                native.chk(lib.fn_chol_update(d, P(L), P(arr(v)), int(rs.randint(2))))
                out.append([float(x) for x in L.ravel()])
            elif op == 'unique' and pyobj:
                pyobj.pop(rs.randint(len(pyobj)))
        for m, _, _, _ in models:
            m.close()
        for f in filters:
            f.close()
    return out


def steps(lib, rs, op):
    """Steps and proposals on a small Gaussian target."""
    import ctypes
    d = int(rs.randint(1, 7))
    k = int(rs.randint(2, 6))
    lib.target_set(d, 1, P(arr([0.0])), P(arr(np.zeros(d))), P(arr(np.eye(d))), P(arr(np.full(d, -5.0))), P(arr(np.full(d, 5.0))))
    F = ctypes.cast(lib.target_address(), native.LOGF)
    ens = native.ptr(lib.ens_new())
    T = [1.0] + list(np.exp(rs.uniform(0, 3, k - 1)))
    for i in range(k):
        lib.ens_add(ens, native.ptr(lib.vpar_new(1, b'x', D(T[i]), i, F, d, P(arr(rs.normal(size=d))), native.EVENT())))
    par = [native.ptr(lib.ens_get(ens, i)) for i in range(k)]
    out = []
    C = arr(np.eye(d) * 0.3)
    if op == 'sampler':
        s = native.ptr(lib.sampler_new(int(rs.choice([1, 5, 20])), int(rs.choice([0, 5])), int(rs.choice([1, 2]))))
        pr = native.ptr(lib.prop_scalar(1, P(arr([8.0, 1.0]))))
        for i in range(k - 1, -1, -1):
            lib.sampler_add(s, native.ptr(lib.step_ram(par[i], pr, d, P(C), D(0.25), 20, 1)))
            if i:
                lib.sampler_add(s, native.ptr(lib.step_exchange(ens, i, int(rs.choice([-1, 3])))))
        native.chk(lib.sampler_run(s, 0, P(arr([0.0]))))
        if rs.uniform() < 0.3:
            native.chk(lib.sampler_run(s, d, P(arr(np.zeros(d)))))
        for i in range(k):
            v = np.full(d, np.nan)
            native.chk(lib.vpar_value(par[i], P(v)))
            out += [float(x) for x in v]
        if rs.uniform() < 0.5:
            lib.sampler_free(s)
            lib.ens_free(ens)
        else:
            lib.ens_free(ens)
            lib.sampler_free(s)
        return out
    for i in range(k):
        native.chk(lib.vpar_save(par[i], d, P(arr(rs.normal(size=d)))))
    v = np.full(d, np.nan)
    if op == 'ram':
        pr = native.ptr(lib.prop_scalar(int(rs.randint(2)), P(arr([8.0, 1.0]))))
        s = native.ptr(lib.step_ram(par[0], pr, d, P(C), D(0.25), int(rs.choice([0, 5, 50])), 1))
        native.chk(lib.step_do(s, 40))
        cov = np.full((d, d), np.nan)
        native.chk(lib.step_ram_covar(s, P(cov)))
        out += [float(x) for x in cov.ravel()] + [lib.step_ram_ratio(s), lib.step_ram_rate(s)]
        lib.step_free_ram(s)
    elif op == 'exchange':
        i = int(rs.randint(1, k))
        s = native.ptr(lib.step_exchange(ens, i, int(rs.choice([-1, 2]))))
        native.chk(lib.step_do(s, 10))
        out.append(lib.step_exchange_ratio(s))
        lib.step_free_exchange(s)
    else:
        pr = native.ptr(lib.prop_stretch(ens, int(rs.randint(k)), D(2.0), int(rs.randint(2))) if op == 'stretch' else
                        lib.prop_multi(d, P(C)))
        s = native.ptr(lib.step_metrop_v_pkg(par[0], pr, int(rs.choice([-1, 3]))))
        native.chk(lib.step_do(s, 20))
        out.append(lib.step_metrop_v_ratio(s))
        lib.step_free_metrop_v(s)
    native.chk(lib.vpar_value(par[0], P(v)))
    out += [float(x) for x in v] + [lib.vpar_logdens(par[0])]
    lib.ens_free(ens)
    return out


def flat(x, out):
    if isinstance(x, (list, tuple)):
        for v in x:
            flat(v, out)
    else:
        out.append(float(x))
    return out


_helper = [None]


def helper():
    """A second process whose fresh memory is filled with zeros instead of 0xbe."""
    h = _helper[0]
    if h is None or h.poll() is not None:
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = env.get('ASAN_OPTIONS', '') + ':malloc_fill_byte=0:max_malloc_fill_size=16777216'
        h = subprocess.Popen([sys.executable, '-W', 'ignore', os.path.abspath(__file__), native.PKG], env=env, stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        _helper[0] = h
    return h


def serve(pkg):
    out = os.fdopen(os.dup(1), 'w')
    nul = os.open(os.devnull, os.O_WRONLY)
    os.dup2(nul, 1)
    native.init(pkg)
    for line in sys.stdin:
        try:
            r = dict(out=flat(execute(json.loads(line)), []))
        except Violation as ex:
            r = dict(violation=str(ex))
        out.write(json.dumps(r) + '\n')
        out.flush()


def run(c):
    h = helper()
    try:
        h.stdin.write((json.dumps(c) + '\n').encode())
        h.stdin.flush()
    except OSError:
        pass
    a = np.array(flat(execute(c), []))
    line = h.stdout.readline()
    if not line:
        h.wait()
        _helper[0] = None
        raise Violation('the process whose fresh memory is zero died with status %s' % h.returncode)
    r = json.loads(line)
    if 'violation' in r:
        raise Violation('with fresh memory zero: ' + r['violation'])
    b = np.array(r['out'])
    require(len(a) == len(b), 'the number of results depends on the content of fresh memory')
    with np.errstate(all='ignore'):
        bad = np.flatnonzero(~((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-6 * np.abs(b))))
    for i in bad[:1]:
        raise Violation('result %d of %d depends on the content of fresh memory: %r and %r' % (i, len(a), a[i], b[i]))
    return dict(nontrivial=len(c['ops']) >= 3, tags=sorted({o for o, _ in c['ops']}), counts=dict(operations=len(c['ops']),
                                                                                              results=len(a)))


if __name__ == '__main__':
    serve(sys.argv[1])
