"""C31: the interactive prompt accepts only valid options, returns them as entered and seeds the generator."""
import ctypes as C
import os
import shutil
import tempfile

import numpy as np
from common import require, sut
from hypothesis import strategies as st

import gens
import native

TECHNIQUE = ('the answers of a generated dialogue, processed by the rules of the prompt texts, against the returned options, the '
             'files and the stream of the generator')
RULE = ('a scratch directory with generated files and a dialogue of answers to each question: 0-3 inadmissible ones (missing or '
        'unwritable files, sizes below their minimum) before the admissible one, and a seed (a number, 0 for a time stamp, 1 for '
        'the saved state with and without such a file); non-trivial when some answer had to be repeated or a state was recovered')
ASSUMPTIONS = ['numeric answers are integers; file names have no blanks', 'the dialogue runs in a scratch directory']
CHUNK = 60

NAMES = ['a.dat', 'series-1.txt', 'x', 'long_name_of_a_file.dat', 'sub/b.dat', 'UPPER.DAT']


@st.composite
def _case(draw):
    def bad(vals):
        return draw(st.lists(st.sampled_from(vals), max_size=3))
    have = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
    data = draw(st.sampled_from(have))
    out = draw(st.sampled_from(['out.txt', 'chain', 'sub/o.txt', 'o.dat']))
    big = st.one_of(st.integers(1, 20), st.integers(1, 2 ** 31 - 1))
    return dict(have=have, data=bad(['missing', 'no/such', 'sub/zzz', 'nodir/a.dat']) + [data],
                out=bad(['nodir/x', 'nodir/sub/o', 'sub', 'sub/']) + [out],
                size=bad([0, -1, -7]) + [draw(big)], thin=bad([0, -1, -100]) + [draw(big)],
                burn=bad([-1, -2, -1000]) + [draw(st.one_of(st.just(0), big))],
                seed=draw(st.one_of(st.sampled_from([0, 1, 1]), st.integers(2, 2 ** 32 - 1))), state=draw(st.booleans()),
                sep=draw(st.sampled_from(['\n', ' ', '\n\n', '\t'])), sseed=draw(gens.seeds()), draws=draw(st.integers(1, 12)))


def case(tier):
    return _case()


def stream(n):
    out = np.empty(n)
    native.chk(native.lib().rng_draw(1, native.P(native.arr([0.0, 1.0])), n, native.P(out)))
    return out


def run(c):
    L = native.lib()
    top = tempfile.mkdtemp(dir=os.environ.get('VERIF_RUNDIR'))
    cwd = os.getcwd()
    try:
        d = os.path.join(top, 'work')
        os.makedirs(os.path.join(d, 'sub'))
        for f in c['have']:
            with open(os.path.join(d, f), 'w') as h:
                h.write('1 2 3\n')
        if c['state']:
            native.seed(c['sseed'])
            stream(c['draws'])
            native.chk(L.rng_save(os.path.join(d, 'seed.txt').encode()))
        want = None
        if c['seed'] == 1 and c['state']:
            want = stream(8)
        elif c['seed'] > 1:
            L.rng_set_seed(C.c_ulong(c['seed']))
            want = stream(8)
        native.seed(987654321)
        txt = c['sep'].join(str(x) for k in ('data', 'out', 'size', 'thin', 'burn') for x in c[k]) + c['sep'] + str(c['seed']) + '\n'
        num = (C.c_int * 5)()
        buf = C.create_string_buffer(4096)
        os.chdir(top)
        with sut('the prompt'):
            native.chk(L.fn_prompt(d.encode(), txt.encode(), num, buf, 4096))
        got = [num[0], num[1], num[2]]
        exp = [c[k][-1] for k in ('size', 'thin', 'burn')]
        require(got == exp, 'answers %r gave sample size, thinning and burn-in %r', exp, got)
        require(num[3] == 1, '%d chains', num[3])
        a, b = buf.value.decode().split('\n')
        for w, x, y in (('data', a, c['data'][-1]), ('output', b, c['out'][-1])):
            require(os.path.realpath(x) == os.path.realpath(os.path.join(d, y)), '%s file %r for the answer %r in %r', w, x, y, d)
        for f in c['have']:
            if os.path.realpath(os.path.join(d, f)) != os.path.realpath(b):
                with open(os.path.join(d, f)) as h:
                    require(h.read() == '1 2 3\n', 'the prompt changed the file %s', f)
        if want is not None:
            x = stream(8)
            require(np.array_equal(x, want), 'seed %d%s: the generator gives %r, expected %r', c['seed'],
                    ' (saved state)' if c['seed'] == 1 else '', x[:3].tolist(), want[:3].tolist())
        for f in c['have']:
            require(L.fn_readable(os.path.join(d, f).encode()) == 1, 'an existing file is not readable')
        require(L.fn_readable(os.path.join(d, 'zz').encode()) == 0, 'a missing file is readable')
        require(L.fn_writable(os.path.join(d, 'w1').encode()) == 1, 'a new file is not writable')
        require(L.fn_writable(os.path.join(d, 'nodir', 'w1').encode()) == 0, 'a file in a missing directory is writable')
    finally:
        os.chdir(cwd)
        shutil.rmtree(top, ignore_errors=True)
    rep = sum(len(c[k]) - 1 for k in ('data', 'out', 'size', 'thin', 'burn'))
    return dict(nontrivial=rep > 0 or (c['seed'] == 1 and c['state']), tags=['seed=%s' % min(c['seed'], 2), 'repeats=%d' % min(rep, 5)],
                counts=dict(repeated_answers=rep))
