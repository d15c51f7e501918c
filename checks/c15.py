"""C15: proposal distributions match their declared densities."""
import math

import numpy as np
from common import PMIN, binom_bad, ks_bad, require, sut
from hypothesis import strategies as st

import gens
import native
from native import D, P, arr

TECHNIQUE = 'closed-form laws of the draws, exact ratios of transition densities, and invariance of known targets'
RULE = ('each proposal with generated tuning parameters and starting values: distribution of 12000-40000 draws, log-density '
        'differences against exact transition ratios, and Metropolis chains started from the target itself whose end '
        'points must again follow the target (1500 replicates; normal, log-normal and Gaussian targets); stretch moves on '
        'generated ensembles (some with coordinates in common) with every draw located on the line through another '
        'member; always non-trivial except one-dimensional stretch ratios')
ASSUMPTIONS = ['log-normal proposals start from positive values', 'ensembles have two or more members with distinct values']
CHUNK = 12


@st.composite
def _case(draw):
    kind = draw(st.sampled_from(['normal', 'student', 'lognormal', 'multi', 'stretch', 'stretch', 'chain', 'chain', 'echain', 'echain']))
    rs = np.random.RandomState(draw(gens.seeds()))
    c = dict(kind=kind, seed=draw(gens.seeds()))
    e = lambda dec: float(10 ** rs.uniform(-dec, dec))
    if kind in ('normal', 'student', 'lognormal'):
        c['x'] = float(rs.normal() * e(3)) if kind != 'lognormal' else e(4)
        c['par'] = dict(normal=[e(3)], student=[float(rs.choice([8.0, 1.0, 3.0, 2.5, 40.0])), e(3)],
                        lognormal=[float(10 ** rs.uniform(-2, 0.5))])[kind]
    elif kind == 'multi':
        c['d'], c['dec'] = draw(st.sampled_from([2, 3, 1, 5, 9])), draw(st.sampled_from([0, 1, 3]))
        c['two'] = draw(st.booleans())
    elif kind == 'stretch':
        c.update(d=draw(st.sampled_from([3, 2, 1, 5, 9, 16])), k=draw(st.sampled_from([3, 2, 4, 8, 20])),
                 a=draw(st.sampled_from([2.0, 1.5, 4.0, 1.1, 10.0])),
                 later=int(draw(st.booleans())), scale=draw(st.sampled_from([1.0, 1.0, 1e-6, 1e6, 1e-12, 1e-9])),
                 shared=draw(st.sampled_from(['none', 'none', 'first', 'some', 'zero'])))
    elif kind == 'chain':
        c.update(prop=draw(st.sampled_from(['lognormal', 'normal', 'student', 'multi'])), steps=draw(st.sampled_from([4, 1, 10])),
                 sd=draw(st.sampled_from([0.5, 1.0, 2.0])), temp=draw(st.sampled_from([1.0, 1.0, 3.0])), d=draw(st.sampled_from([2, 1, 3])),
                 scale=draw(st.sampled_from([1.0, 1e-4, 1e4])))
    else:
        c.update(d=draw(st.sampled_from([3, 2, 1, 4, 8])), k=draw(st.sampled_from([3, 2, 5])), a=draw(st.sampled_from([2.0, 1.5, 4.0])),
                 sweeps=draw(st.sampled_from([2, 1, 4])), scale=draw(st.sampled_from([1.0, 1.0, 1e-4, 1e4, 1e-11])))
    return c


def case(tier):
    return _case()


def run(c):
    native.seed(c['seed'])
    k = c['kind']
    with sut('proposal'):
        return scalar(c) if k in ('normal', 'student', 'lognormal') else globals()[k](c)


KIND = dict(normal=0, student=1, lognormal=2)


def new_scalar(k, par):
    return native.ptr(native.lib().prop_scalar(KIND[k], P(arr(par))))


def scalar(c):
    import scipy.stats as ss
    lib = native.lib()
    k, x, par, n = c['kind'], c['x'], c['par'], 40000
    h = new_scalar(k, par)
    out = np.full(n, np.nan)
    native.chk(lib.prop_scalar_draw(h, D(x), n, P(out)))
    if k == 'normal':
        F = ss.norm(x, par[0]).cdf
        q = lambda to, frm: ss.norm.logpdf(to, frm, par[0])
    elif k == 'student':
        F = ss.t(par[0], x, par[1]).cdf
        q = lambda to, frm: ss.t.logpdf(to, par[0], frm, par[1])
    else:
        F = lambda v: ss.norm.cdf(np.log(v / x) / par[0])
        q = lambda to, frm: ss.norm.logpdf(math.log(to / frm), 0, par[0]) - math.log(to)
    bad, d = ks_bad(out, F)
    require(not bad, '%s%r proposals around %r have KS distance %.4g from their law', k, tuple(par), x, d)
    for y in out[:50]:
        got = lib.prop_scalar_logdens(h, D(x), D(y)) - lib.prop_scalar_logdens(h, D(y), D(x))
        want = q(x, y) - q(y, x)
        require(abs(got - want) <= 1e-9 * (1 + abs(want)), '%s: log-density difference of %r -> %r is %r, exact %r', k, x, y, got, want)
    return dict(nontrivial=True, tags=[k], counts=dict(draws=n))


def multi(c):
    import scipy.stats as ss
    rs = np.random.RandomState(c['seed'])
    d, n = c['d'], 20000
    B = rs.normal(size=(d, d)) + np.eye(d)
    s = 10.0 ** rs.uniform(-c['dec'], c['dec'], d)
    V = (B @ B.T + 0.1 * np.eye(d)) * np.outer(s, s)
    x = rs.normal(size=d) * s
    h = native.ptr(native.lib().prop_multi(d, P(arr(V))))
    out, f, b = np.full((n, d), np.nan), np.full(n, np.nan), np.full(n, np.nan)
    if c['two']:                              # the proposals of another object with the same variances come in between
        h2 = native.ptr(native.lib().prop_multi(d, P(arr(np.diag(np.diag(V)) if d > 1 else 9 * V))))
        o = np.empty((1, d)), np.empty(1), np.empty(1)
    for i in range(0, n, n // 8):
        if c['two']:
            native.chk(native.lib().prop_vec_draw(h2, d, P(arr(x)), 1, P(o[0]), P(o[1]), P(o[2])))
        m = slice(i, i + n // 8)
        native.chk(native.lib().prop_vec_draw(h, d, P(arr(x)), n // 8, P(out[m]), P(f[m]), P(b[m])))
    require(np.all(np.abs(f - b) < 1e-9), 'symmetric proposal with forward and backward log densities %r and %r', f[0], b[0])
    sd = np.sqrt(np.diag(V))
    for j in range(d + 3):
        a = (np.eye(d)[j] if j < d else rs.normal(size=d)) / sd
        bad, dd = ks_bad((out - x) @ a / math.sqrt(a @ V @ a), ss.norm.cdf)
        require(not bad, 'a linear combination of the proposals has KS distance %.4g from its law', dd)
    z = np.linalg.solve(np.linalg.cholesky(V / np.outer(sd, sd)), ((out - x) / sd).T)
    bad, dd = ks_bad(np.sum(z * z, axis=0), ss.chi2(d).cdf)
    require(not bad, 'the squared length of the standardized proposal has KS distance %.4g from chi-square', dd)
    return dict(nontrivial=True, tags=['multi', 'd=%d' % d], counts=dict(draws=n))


def ensemble(pts, logf):
    lib = native.lib()
    d = pts.shape[1]
    ens = native.ptr(lib.ens_new())
    for i in range(len(pts)):
        lib.ens_add(ens, native.ptr(lib.vpar_new(0, b'x', D(1.0), i, logf, d, P(arr(pts[i])), native.EVENT())))
    par = [native.ptr(lib.ens_get(ens, i)) for i in range(len(pts))]
    for i in range(len(pts)):
        native.chk(lib.vpar_save(par[i], d, P(arr(pts[i]))))
    return ens, par


def stretch(c):
    lib = native.lib()
    rs = np.random.RandomState(c['seed'])
    d, k, a, n = c['d'], c['k'], c['a'], 12000
    pts = (rs.normal(size=(k, d)) + rs.normal(size=d)) * c['scale']
    if d > 1 and c['shared'] != 'none':
        # coordinates that some or all members have in common
        at = [0] if c['shared'] == 'first' else rs.choice(d, size=rs.randint(1, d), replace=False)
        who = np.ones(k, bool) if rs.randint(2) else rs.uniform(size=k) < 0.7
        for m in at:
            pts[who, m] = 0.0 if c['shared'] == 'zero' else pts[0, m]
    LOG = native.LOGF(lambda i, m, x: 0.0)
    ens, par = ensemble(pts, LOG)
    i = int(rs.randint(k))
    h = native.ptr(lib.prop_stretch(ens, i, D(a), c['later']))
    out, f, b = np.full((n, d), np.nan), np.full(n, np.nan), np.full(n, np.nan)
    native.chk(lib.prop_vec_draw(h, d, P(arr(pts[i])), n, P(out), P(f), P(b)))
    size = 1 + np.max(np.abs(pts)) / c['scale']
    on = np.zeros((n, k), bool)
    zz = np.full((n, k), np.nan)
    for j in range(k):
        if j == i:
            continue
        u = pts[i] - pts[j]
        zz[:, j] = (out - pts[j]) @ (u / c['scale']) / float(u @ u / c['scale'])
        r = np.linalg.norm(out - pts[j] - zz[:, j, None] * u, axis=1) / c['scale']
        on[:, j] = (r <= 1e-12 * size * a) & (zz[:, j] >= (1 - 1e-9) / a) & (zz[:, j] <= a * (1 + 1e-9))
    miss = np.nonzero(~on.any(axis=1))[0]
    require(len(miss) == 0, 'proposal %r is not on a line through member %d and another member, with a factor in (1/a, a), a=%r',
            list(out[miss[0]]) if len(miss) else None, i, a)
    if d > 1:
        # the factor belongs to one of the members whose line the draw is on
        got = b - f
        gap = np.where(on, np.abs((d - 1) * np.log(np.where(on, zz, 1.0)) - got[:, None]), np.inf)
        w = int(np.argmax(gap.min(axis=1)))
        j = int(np.argmin(gap[w]))
        require(gap[w, j] <= 1e-7, 'stretch move by z=%.8g in %d dimensions: log ratio of the transition densities '
                '%.8g, exact %.8g', zz[w, j], d, got[w], (d - 1) * math.log(zz[w, j]))
        if (on.sum(axis=1) == 1).all():
            # no two members on one line
            j = np.argmax(on, axis=1)
            z = zz[np.arange(n), j]
            for m in range(k):
                if m != i:
                    cnt = int(np.sum(j == m))
                    require(not binom_bad(cnt, n, 1.0 / (k - 1), PMIN / 10), 'member %d is chosen %d times of %d, %d others', m, cnt, n,
                            k - 1)
            s = math.sqrt(a)
            bad, dd = ks_bad(z, lambda z: (np.sqrt(z) - 1 / s) / (s - 1 / s))
            require(not bad, 'the stretch factor has KS distance %.4g from its law 1/sqrt(z) on (1/a, a), a=%r', dd, a)
    else:
        require(np.max(np.abs(b - f)) <= 1e-9, 'one-dimensional stretch move with log ratio %r', float(np.max(np.abs(b - f))))
    lib.ens_free(ens)
    return dict(nontrivial=d > 1, tags=['stretch', 'd=%d' % d, 'k=%d' % k], counts=dict(draws=n))


def chain(c):
    """Start at the target, make some steps, end at the target."""
    import scipy.stats as ss
    lib = native.lib()
    rs = np.random.RandomState(c['seed'])
    n, T, pr, sc = 1500, c['temp'], c['prop'], c['scale']
    if pr == 'multi':
        d = c['d']
        B = rs.normal(size=(d, d)) + np.eye(d)
        V = B @ B.T + 0.2 * np.eye(d)
        inv = np.linalg.inv(V)
        LOG = native.LOGF(lambda i, m, x: -0.5 * T * float(np.array(x[:m]) @ inv @ np.array(x[:m])) / sc ** 2)
        Lc = np.linalg.cholesky(V)
        par = native.ptr(lib.vpar_new(0, b'x', D(T), 0, LOG, d, P(arr(np.zeros(d))), native.EVENT()))
        h = native.ptr(lib.prop_multi(d, P(arr(c['sd'] ** 2 * sc ** 2 * np.diag(np.diag(V))))))
        s = native.ptr(lib.step_metrop_v_pkg(par, h, -1))
        end = np.full((n, d), np.nan)
        for i in range(n):
            native.chk(lib.vpar_save(par, d, P(arr(sc * (Lc @ rs.normal(size=d))))))
            native.chk(lib.step_do(s, c['steps']))
            native.chk(lib.vpar_value(par, P(end[i])))
        lib.step_free_metrop_v(s)
        lib.vpar_free(par)
        z = np.linalg.solve(Lc, (end / sc).T)
        tests = [(z[j], ss.norm.cdf) for j in range(d)] + [(np.sum(z * z, axis=0), ss.chi2(d).cdf)]
    else:
        if pr == 'lognormal':
            g = 3.0         # gamma(3) target on the positive axis

            def lf(i, m, x):
                return T * ((g - 1) * math.log(x[0]) - x[0] / sc) if x[0] > 0 else -math.inf
            start = rs.gamma(g, size=n) * sc
            h = new_scalar('lognormal', [c['sd']])
            F = lambda v: ss.gamma(g).cdf(v / sc)
        else:
            def lf(i, m, x):
                return -0.5 * T * (x[0] / sc) ** 2
            start = rs.normal(size=n) * sc
            h = new_scalar(pr, [sc * c['sd']] if pr == 'normal' else [5.0, sc * c['sd']])
            F = lambda v: ss.norm.cdf(v / sc)
        LOG = native.LOGF(lf)
        par = native.ptr(lib.spar_new(D(T), 0, LOG, D(1.0)))
        s = native.ptr(lib.step_metrop_s_pkg(par, h, -1))
        end = np.full(n, np.nan)
        for i in range(n):
            native.chk(lib.spar_save(par, D(start[i])))
            native.chk(lib.step_do(s, c['steps']))
            end[i] = lib.spar_value(par)
        lib.step_free_metrop_s(s)
        lib.spar_free(par)
        tests = [(end, F)]
    for x, F in tests:
        bad, dd = ks_bad(x, F)
        require(not bad, 'after %d Metropolis steps with the %s proposal the target law is left (KS distance %.4g)', c['steps'], pr, dd)
    return dict(nontrivial=True, tags=['chain', pr], counts=dict(draws=n * c['steps']))


def echain(c):
    import scipy.stats as ss
    lib = native.lib()
    rs = np.random.RandomState(c['seed'])
    d, k, sc, n = c['d'], c['k'], c['scale'], 500
    LOG = native.LOGF(lambda i, m, x: -0.5 * sum(x[j] * x[j] for j in range(m)) / sc ** 2)
    ens, par = ensemble(rs.normal(size=(k, d)) * sc, LOG)
    props = [native.ptr(lib.prop_stretch(ens, i, D(c['a']), 0)) for i in range(k)]
    steps = [native.ptr(lib.step_metrop_v_pkg(par[i], props[i], -1)) for i in range(k)]
    end = np.full((n, k, d), np.nan)
    for r in range(n):
        for i in range(k):
            native.chk(lib.vpar_save(par[i], d, P(arr(rs.normal(size=d) * sc))))
        for _ in range(c['sweeps']):
            for i in range(k):
                native.chk(lib.step_do(steps[i], 1))
        for i in range(k):
            native.chk(lib.vpar_value(par[i], P(end[r, i])))
    for s in steps:
        lib.step_free_metrop_v(s)
    lib.ens_free(ens)
    z = end / sc
    r2 = np.sum(z * z, axis=(1, 2))
    bad, dd = ks_bad(r2, ss.chi2(k * d).cdf)
    require(not bad, 'after %d sweeps of stretch moves over %d members in %d dimensions the target law is left (KS distance %.4g)',
            c['sweeps'], k, d, dd)
    for i in range(k):
        bad, dd = ks_bad(np.sum(z[:, i] ** 2, axis=1), ss.chi2(d).cdf, PMIN / 10)
        require(not bad, 'after %d sweeps member %d of %d has left the target law (KS distance %.4g)', c['sweeps'], i, k, dd)
        bad, dd = ks_bad(z[:, i, 0], ss.norm.cdf, PMIN / 10)
        require(not bad, 'after %d sweeps the first coordinate of member %d has left the target law (KS distance %.4g)', c['sweeps'], i, dd)
    return dict(nontrivial=True, tags=['echain', 'd=%d' % d, 'k=%d' % k], counts=dict(draws=n * k * c['sweeps']))
