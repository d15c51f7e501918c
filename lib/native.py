"""ctypes access to the shims, as small Python classes.

Every call that reaches the code under test goes through here or through the
Python package itself.  A native exception becomes NativeError.
"""
import ctypes as C
import re
import os
import sys

import numpy as np

_lib = None
PKG = None


class NativeError(Exception):
    pass


dp = C.POINTER(C.c_double)
ip = C.POINTER(C.c_int)
LOGF = C.CFUNCTYPE(C.c_double, C.c_int, C.c_int, dp)
DRAW = C.CFUNCTYPE(None, C.c_int, C.c_int, dp, dp)
QDENS = C.CFUNCTYPE(C.c_double, C.c_int, C.c_int, dp, dp)
EVENT = C.CFUNCTYPE(None, C.c_int, C.c_int)

_PTR = '''kf_new model_new model_run vpar_new spar_new ens_new ens_get vprop_new sprop_new prop_scalar prop_multi
prop_stretch step_metrop_v step_metrop_v_pkg step_metrop_s step_metrop_s_pkg step_ram step_exchange step_event step_gibbs
sampler_new target_address'''.split()
_DBL = '''kf_get_sigsqr model_temperature fn_logit fn_inv_logit vpar_logdens vpar_temp spar_value spar_logdens
prop_scalar_logdens step_metrop_v_ratio step_metrop_s_ratio step_ram_ratio step_ram_rate step_exchange_ratio'''.split()


def init(pkg):
    """Load the freshly built package from pkg."""
    global _lib, PKG
    PKG = pkg
    sys.path.insert(0, pkg)
    _lib = C.CDLL(os.path.join(pkg, 'carmcmc', '_carmcmc.so'))
    for names, typ in ((_PTR, C.c_void_p), (_DBL, C.c_double)):
        for f in names:
            if hasattr(_lib, f):
                getattr(_lib, f).restype = typ
    _lib.verif_last_error.restype = C.c_char_p
    _lib.cout_end.restype = C.c_char_p


def lib():
    return _lib


def err():
    return _lib.verif_last_error().decode(errors='replace')


def chk(rc):
    if rc < 0:
        raise NativeError('native call failed (%d): %s' % (rc, err()))
    return rc


def ptr(h):
    if not h:
        raise NativeError('construction failed: ' + err())
    return C.c_void_p(h)


def arr(x):
    return np.ascontiguousarray(x, dtype=np.float64)


def P(a):
    return a.ctypes.data_as(dp)


D = C.c_double


def seed(s):
    """Seed every generator the package uses."""
    _lib.verif_seed(C.c_ulong(int(s) & 0xffffffff))
    np.random.seed(int(s) & 0xffffffff)


def carmcmc():
    import carmcmc as m
    return m


def vecD(a):
    import carmcmc._carmcmc as L
    v = L.vecD()
    v.extend([float(x) for x in a])
    return v


def vecC(a):
    import carmcmc._carmcmc as L
    v = L.vecC()
    v.extend([complex(x) for x in a])
    return v


class Filter(object):
    """KalmanFilter1 (roots is one real number <0 and car1=True) or KalmanFilterp, through the shim."""

    def __init__(self, t, y, e, sigsqr, roots, ma=(1.0,), car1=False, how=0):
        t, y, e = arr(t), arr(y), arr(e)
        roots = np.atleast_1d(np.asarray(roots, dtype=complex))
        self.car1 = car1
        re, im = (arr(-roots.real), arr(roots.imag)) if car1 else (arr(roots.real), arr(roots.imag))
        ma = arr(ma)
        self.h = ptr(_lib.kf_new(int(car1), int(how), len(t), P(t), P(y), P(e), D(sigsqr), len(roots), P(re), P(im),
                                 len(ma), P(ma)))

    def close(self):
        if self.h:
            _lib.kf_free(self.h)
            self.h = None

    __del__ = close

    def n(self):
        return _lib.kf_n(self.h)

    def filter(self):
        m, v = np.full(self.n(), np.nan), np.full(self.n(), np.nan)
        chk(_lib.kf_filter(self.h, P(m), P(v)))
        return m, v

    def predict(self, t):
        o = np.full(2, np.nan)
        chk(_lib.kf_predict(self.h, D(t), P(o)))
        return float(o[0]), float(o[1])

    def simulate(self, t):
        t = arr(t)
        o = np.full(len(t), np.nan)
        chk(_lib.kf_simulate(self.h, len(t), P(t), P(o)))
        return o

    def data(self):
        n = self.n()
        t, y, e = np.empty(n), np.empty(n), np.empty(n)
        chk(_lib.kf_get(self.h, P(t), P(y), P(e)))
        return t, y, e

    def set_sigsqr(self, s):
        chk(_lib.kf_set_sigsqr(self.h, D(s)))

    def set_roots(self, roots):
        roots = np.atleast_1d(np.asarray(roots, dtype=complex))
        re, im = (arr(-roots.real), arr(roots.imag)) if self.car1 else (arr(roots.real), arr(roots.imag))
        chk(_lib.kf_set_omega(self.h, len(roots), P(re), P(im)))

    def set_ma(self, ma):
        ma = arr(ma)
        chk(_lib.kf_set_ma(self.h, len(ma), P(ma)))

    def set_y(self, y):
        y = arr(y)
        chk(_lib.kf_set_y(self.h, len(y), P(y)))

    def set_e(self, e):
        e = arr(e)
        chk(_lib.kf_set_e(self.h, len(e), P(e)))

    def set_t(self, t):
        t = arr(t)
        chk(_lib.kf_set_t(self.h, len(t), P(t)))


class PyFilter(object):
    """The same interface over the classes exported to Python."""

    def __init__(self, t, y, e, sigsqr, roots, ma=(1.0,), car1=False):
        import carmcmc._carmcmc as L
        roots = np.atleast_1d(np.asarray(roots, dtype=complex))
        if car1:
            self.k = L.KalmanFilter1(vecD(t), vecD(y), vecD(e), float(sigsqr), float(-roots[0].real))
        else:
            self.k = L.KalmanFilterp(vecD(t), vecD(y), vecD(e), float(sigsqr), vecC(roots), vecD(ma))

    def filter(self):
        self.k.Filter()
        return np.array(self.k.GetMean()), np.array(self.k.GetVar())

    def predict(self, t):
        r = self.k.Predict(float(t))
        return r.first, r.second

    def simulate(self, t):
        return np.array(self.k.Simulate(vecD(t)))

    def close(self):
        pass


KINDS = {'CAR1': 0, 'CARp': 1, 'CARMA': 2, 'ZCAR': 3, 'ZCARMA': 4}


def ntheta(kind, p, q):
    return {'CAR1': 4, 'CARp': 3 + p, 'CARMA': 3 + p + q, 'ZCAR': 3 + p, 'ZCARMA': 4 + p}[kind]


class Model(object):
    def __init__(self, kind, t, y, e, p=1, q=0, temp=1.0, h=None):
        self.kind, self.p, self.q = kind, p, q
        if h is not None:
            self.h = h
            return
        t, y, e = arr(t), arr(y), arr(e)
        self.h = ptr(_lib.model_new(KINDS[kind], len(t), P(t), P(y), P(e), p, q, D(temp)))
        self.nobs = len(t)

    def close(self):
        if self.h:
            _lib.model_free(self.h)
            self.h = None

    __del__ = close

    def _d(self, f, th):
        th = arr(th)
        o = C.c_double(float('nan'))
        chk(f(self.h, len(th), P(th), C.byref(o)))
        return o.value

    def logdens(self, th):
        return self._d(_lib.model_logdens, th)

    def getlogdens(self, th):
        return self._d(_lib.model_getlogdens, th)

    def logprior(self, th):
        return self._d(_lib.model_logprior, th)

    def sigsqr(self, th):
        return self._d(_lib.model_sigsqr, th)

    def save(self, th):
        return self._d(_lib.model_save, th)

    def inbounds(self, th):
        th = arr(th)
        return bool(chk(_lib.model_inbounds(self.h, len(th), P(th))))

    def setprior(self, s):
        chk(_lib.model_setprior(self.h, D(s)))

    def setmle(self, f):
        chk(_lib.model_setmle(self.h, int(f)))

    def setkappa(self, lo, hi):
        chk(_lib.model_setkappa(self.h, D(lo), D(hi)))

    def start(self):
        o = np.full(64, np.nan)
        lp = C.c_double(float('nan'))
        n = chk(_lib.model_start(self.h, P(o), C.byref(lp)))
        return o[:n].copy(), lp.value

    def setstart(self, init):
        init = arr(init)
        o = np.full(64, np.nan)
        lp = C.c_double(float('nan'))
        n = chk(_lib.model_setstart(self.h, len(init), P(init), P(o), C.byref(lp)))
        return o[:n].copy(), lp.value

    def arroots(self, th):
        th = arr(th)
        re, im = np.full(64, np.nan), np.full(64, np.nan)
        n = chk(_lib.model_arroots(self.h, len(th), P(th), P(re), P(im)))
        return (-re[:n] if self.kind == 'CAR1' else re[:n]) + 1j * im[:n]

    def ma(self, th):
        th = arr(th)
        o = np.full(64, np.nan)
        n = chk(_lib.model_ma(self.h, len(th), P(th), P(o)))
        return o[:n].copy()

    def variance(self, roots, ma, sigma, dt=0.0):
        roots = np.asarray(roots, dtype=complex)
        re, im, ma = arr(roots.real), arr(roots.imag), arr(ma)
        o = C.c_double(float('nan'))
        chk(_lib.model_variance(self.h, len(re), P(re), P(im), len(ma), P(ma), D(sigma), D(dt), C.byref(o)))
        return o.value

    def kalman(self, n):
        m, v = np.full(n, np.nan), np.full(n, np.nan)
        k = chk(_lib.model_kalman(self.h, P(m), P(v)))
        if k != n:
            raise NativeError('filter of the wrong length')
        return m, v

    def temperature(self):
        return _lib.model_temperature(self.h)

    def samples(self):
        n = _lib.model_nsamples(self.h)
        if n == 0:
            return np.zeros((0, 0)), np.zeros(0)
        d = _lib.model_sample_dim(self.h, 0)
        out, lp = np.full((n, d), np.nan), np.full(n, np.nan)
        chk(_lib.model_samples(self.h, d, P(out), P(lp)))
        return out, lp


def run_sampler(t, y, e, p, q=0, nsamp=10, burn=10, nwalk=1, thin=1, init=(), zcarma=False):
    t, y, e, init = arr(t), arr(y), arr(e), arr(init)
    h = ptr(_lib.model_run(int(zcarma), nsamp, burn, len(t), P(t), P(y), P(e), p, q, nwalk, thin, len(init), P(init)))
    kind = 'CAR1' if p == 1 else 'ZCAR' if zcarma else 'CARp' if q == 0 else 'CARMA'
    m = Model(kind, None, None, None, p, q, h=h)
    m.nobs = len(t)
    return m


def normals(n):
    """The next n standard normal deviates of the generator."""
    out = np.full(n, np.nan)
    chk(lib().rng_draw(1, P(arr([0.0, 1.0])), n, P(out)))
    return out


def printed(fn):
    """Call fn and return the numbers it printed."""
    lib().cout_begin()
    try:
        fn()
    finally:
        text = lib().cout_end().decode(errors='replace')
    return [float(x) for x in re.findall(r'(?<![\w.])[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?(?![\w.])', text)]
