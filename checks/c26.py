"""C26: sample containers return faithful, independent copies and summaries."""
import os
import re
import sys
import types

import numpy as np
from common import require, sut
from hypothesis import strategies as st

import gens
import native
import oracle
import sample

TECHNIQUE = 'a model dictionary of the stored draws kept beside the container through sequences of retrievals, changes and summaries'
RULE = ('containers filled from generated text files (scalar and vector parameters, several files, repeated names) and posterior '
        'sample objects (all parameters), then 3-15 operations: retrieve, overwrite the retrieved array, add an axis, read another '
        'file, print a summary; after each operation every parameter is compared with the model; non-trivial when an array was '
        'overwritten or a summary compared')
ASSUMPTIONS = ['at least two draws per parameter', 'the acor package (absent here) is replaced by a stand-in that returns a known '
               'autocorrelation time for the trace it is given', 'summaries are asked for real parameters']
CHUNK = 60

_seen = []


def tau_of(x):
    """A stand-in autocorrelation time: depends on every value and on their order."""
    x = np.asarray(x, dtype=float)
    d = x - x.mean()
    v = float(np.dot(d, d))
    if v == 0 or len(x) < 3:
        return 1.5
    # antithetic traces have times below one
    return 0.3 + 2.0 * abs(float(np.dot(d[1:], d[:-1])) / v) + abs(float(np.dot(d, np.arange(len(x)))) / (len(x) * np.sqrt(v)))


def _acor(x, *args):
    _seen.append(1)
    x = np.asarray(x)
    if x.ndim != 1 or np.iscomplexobj(x):
        raise TypeError('a one-dimensional real array is needed')
    return tau_of(x), float(x.mean()), float(x.std())


_fake = types.ModuleType('acor')
_fake.acor = _acor
_fake.function = lambda x, *a: np.ones(len(x))
sys.modules['acor'] = _fake


@st.composite
def _param(draw):
    return dict(name=draw(st.sampled_from(['alpha', 'beta', 'log_omega', 'x y', 'theta[0]', 'M'])),
                n=draw(st.sampled_from([2, 3, 5, 20, 60, 60, 700])), d=draw(st.sampled_from([1, 1, 2, 3, 6])), seed=draw(gens.seeds()),
                style=draw(st.sampled_from(['normal', 'heavy', 'walk', 'integers', 'ties', 'tiny'])),
                fmt=draw(st.sampled_from(['%.17g', '%.17g', '%.6f', '%r'])), eol=draw(st.sampled_from(['\n', '\n', '\r\n', ' \n'])))


@st.composite
def _case(draw):
    mode = draw(st.sampled_from(['file', 'file', 'sample', 'carpack']))
    if mode == 'file':
        c = dict(files=draw(st.lists(_param(), min_size=1, max_size=4)), ctor=draw(st.booleans()))
    else:
        c = draw(sample.posterior(5, 3, 8, 2, 30, many=600, style=draw(st.sampled_from(['free', 'chain']))))
    c.update(mode=mode, ops=draw(st.lists(st.tuples(st.sampled_from(['get', 'overwrite', 'overwrite', 'summary', 'newaxis', 'file',
                                                                    'effective']),
                                                     st.integers(0, 20)), min_size=3, max_size=15)), seed2=draw(gens.seeds()))
    return c


def case(tier):
    return _case()


def values(f):
    rs = np.random.RandomState(f['seed'])
    x = rs.normal(size=(f['n'], f['d']))
    if f['style'] == 'heavy':
        x = rs.standard_cauchy(size=x.shape) * 10 ** rs.uniform(-3, 3)
    elif f['style'] == 'walk':
        x = np.cumsum(x, axis=0) + 100
    elif f['style'] == 'integers':
        x = rs.randint(-5, 6, size=x.shape).astype(float)
    elif f['style'] == 'ties':
        x = x[np.sort(rs.randint(0, max(1, f['n'] // 3), size=f['n']))]
    elif f['style'] == 'tiny':
        x = x * 1e-9
    return x


def write(f, path):
    """Write a file; returns the values it holds."""
    x = values(f)
    fm = (lambda v: repr(float(v))) if f['fmt'] == '%r' else (lambda v: f['fmt'] % v)
    with open(path, 'w', newline='') as o:
        o.write(f['name'] + f['eol'])
        for row in x:
            o.write(' '.join(fm(v) for v in row) + '\n')
    held = np.array([[float(fm(v)) for v in row] for row in x])
    return held[:, 0] if f['d'] == 1 else held


NUM = re.compile(r'[-+]?(?:nan|inf|\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+)')


def numbers(line):
    return [float(v) for v in NUM.findall(line.split(':', 1)[1])]


def near(a, b, scale):
    return abs(a - b) <= 2e-6 * abs(b) + 1e-8 * scale or a == b


def quantile(x, pc):
    """Linear interpolation between order statistics."""
    x = np.sort(np.asarray(x, dtype=oracle.LD))
    h = (len(x) - 1) * pc / 100
    i = min(int(np.floor(h)), len(x) - 2) if len(x) > 1 else 0
    return float(x[i] + (h - i) * (x[min(i + 1, len(x) - 1)] - x[i]))


def check_summary(text, x, name):
    cols = x.reshape(x.shape[0], -1)
    n = cols.shape[0]
    lines = text.split('\n')
    heads = [i for i, l in enumerate(lines) if l.startswith('Posterior summary')]
    require(len(heads) == cols.shape[1], 'summary of %s has %d parts for %d elements', name, len(heads), cols.shape[1])
    heads.append(len(lines))
    for k in range(cols.shape[1]):
        v = cols[:, k].astype(float)
        part = lines[heads[k]:heads[k + 1]]
        sc = float(np.max(np.abs(v)))

        def val(prefix, count):
            got = [numbers(l) for l in part if l.startswith(prefix)]
            require(len(got) == 1 and len(got[0]) == count, 'summary of %s element %d: %r is not reported as %d numbers', name, k,
                    prefix, count)
            return got[0]
        want = quantile(v, 50)
        g = val('Median', 1)[0]
        require(near(g, want, sc), 'summary of %s element %d: median %r, should be %r', name, k, g, want)
        ld = np.asarray(v, dtype=oracle.LD)
        want = float(np.sqrt(np.mean((ld - ld.mean()) ** 2)))
        w1 = want * np.sqrt(n / (n - 1.0)) if n > 1 else want
        g = val('Standard deviation', 1)[0]
        require(near(g, want, sc) or near(g, w1, sc), 'summary of %s element %d: standard deviation %r, should be %r', name, k, g,
                want)
        for pc, lo, hi in ((68, 16.0, 84.0), (95, 2.5, 97.5), (99, 0.5, 99.5)):
            g = val('%d%%' % pc, 2)
            w = (quantile(v, lo), quantile(v, hi))
            m = max(abs(w[0]), abs(w[1]))
            require(near(g[0], w[0], m) and near(g[1], w[1], m), 'summary of %s element %d: %d%% interval %r, should be %r', name, k,
                    pc, g, w)
        if _seen:
            want = n / tau_of(v)
            g = val('Effective number', 1)[0]
            require(near(g, want, 0), 'summary of %s element %d: effective number %r, should be %r', name, k, g, want)


def same(a, b):
    return a.shape == b.shape and a.dtype.kind == b.dtype.kind and np.array_equal(a, b)


def run(c):
    del _seen[:]
    native.carmcmc()
    from carmcmc.samplers import MCMCSample
    d = os.environ.get('VERIF_RUNDIR', '/tmp')
    path = lambda k: os.path.join(d, 'c26-%d-%d.dat' % (os.getpid(), k))
    model = {}
    queue = []
    made = []
    rs = np.random.RandomState(c['seed2'])

    def load(s, f, k):
        made.append(path(k))
        x = write(f, path(k))
        with sut('reading a file'):
            if s is None:
                s = MCMCSample(filename=path(k))
            else:
                s.generate_from_file([path(k)])
        model.setdefault(f['name'], x)
        return s
    try:
        if c['mode'] == 'file':
            if c['ctor']:
                s = load(None, c['files'][0], 0)
            else:
                s = MCMCSample()
                load(s, c['files'][0], 0)
            queue = list(enumerate(c['files']))[1:]
        else:
            kind, p, q = c['kind'], c['p'], c['q']
            draws = sample.draws_of(c)
            if draws is None:
                return dict(nontrivial=False, tags=['no parameters'])
            lps = [float(v) for v in rs.normal(size=len(draws))]
            with sut('building the sample object'):
                s = sample.build(kind, c['t'], c['y'], c['e'], p, q, draws, lps)
            if c['mode'] == 'carpack':
                # a file of draws as carpack writes it: one row per draw, the log posterior last
                tr = np.array(sample.draws_of(dict(c, tseed=c['tseed'] + 1)) or draws)
                lp = rs.normal(size=len(tr))
                made.append(path(0))
                np.savetxt(path(0), np.column_stack([tr, lp]), header='draws', fmt='%.17g')
                with sut('reading a file of draws'):
                    s.generate_from_file([path(0)])
                    g = {k: np.asarray(s.get_samples(k)) for k in ('var', 'measerr_scale', 'mu', 'logpost')}
                for k, w in (('var', tr[:, 0] ** 2), ('measerr_scale', tr[:, 1]), ('mu', tr[:, 2]), ('logpost', lp)):
                    require(g[k].size == w.size and np.allclose(g[k].ravel(), w, rtol=1e-13, atol=0), 'file of draws: %s is not the '
                            'column of the file', k)
                if kind == 'CAR1':
                    w = np.asarray(s.get_samples('log_omega')).ravel()
                    require(np.allclose(w, tr[:, 3], rtol=1e-13, atol=1e-13), 'file of draws: log_omega is not the column of the file')
                else:
                    w = np.asarray(s.get_samples('quad_coefs'))
                    require(w.shape == (len(tr), p) and np.allclose(w, np.exp(tr[:, 3:3 + p]), rtol=1e-12, atol=0),
                            'file of draws: quad_coefs are not those of the file')
            with sut('get_samples'):
                model = {k: np.array(s.get_samples(k), copy=True) for k in list(s.parameters)}
        changed = nsum = 0
        for op, i in c['ops']:
            names = sorted(model)
            name = names[i % len(names)]
            x = model[name]
            if op == 'get':
                with sut('get_samples'):
                    g = s.get_samples(name)
                require(same(g, x), 'get_samples(%r) is not the stored sample', name)
            elif op == 'overwrite':
                with sut('get_samples'):
                    g = s.get_samples(name)
                if g.size:
                    g.flat[rs.randint(g.size)] += 1
                    g *= -2
                    changed += 1
            elif op == 'newaxis':
                with sut('newaxis'):
                    s.newaxis()
                for k in model:
                    if model[k].ndim == 1:
                        model[k] = model[k][:, None]
            elif op == 'file':
                if queue:
                    k, f = queue.pop(0)
                    load(s, f, k)
            elif np.iscomplexobj(x):
                continue
            elif op == 'effective':
                with sut('effective_samples'), sample.quiet():
                    g = np.atleast_1d(s.effective_samples(name))
                w = np.array([len(x) / tau_of(v) for v in x.reshape(len(x), -1).T])
                require(not _seen or g.shape == w.shape and np.allclose(g, w, rtol=1e-9), 'effective number of samples of %s is %r, '
                        'should be %r', name, g, w)
            else:
                with sut('posterior_summaries'), np.printoptions(precision=17), sample.quiet() as out:
                    s.posterior_summaries(name)
                check_summary(out.getvalue(), x, name)
                nsum += 1
            for k in model:
                with sut('get_samples'):
                    g = s.get_samples(k)
                require(same(g, model[k]), 'after %s of %s the stored sample of %s has changed', op, name, k)
    finally:
        for f in made:
            if os.path.exists(f):
                os.remove(f)
    return dict(nontrivial=bool(changed or nsum), tags=[c['mode']], counts=dict(overwritten=changed, summaries=nsum))
