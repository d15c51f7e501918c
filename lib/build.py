"""Build the package of /repo's working tree, with the shims, into a run directory of /verif/build.

Everything is compiled from /repo/src and /verif/shim into /verif/build/run-*/pkg:
  carmcmc/_carmcmc.so   the Python extension, which also exports the extern "C" shims
  carmcmc/*.py          copies of the package's Python files
Object files go through ccache (cache in /verif/build/ccache), so that a repeated
build of unchanged sources is fast; nothing is written in /repo.
"""
import concurrent.futures
import glob
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
VENV_PY = '/opt/vp/venv/bin/python'
LIBS = ['-lboost_python312', '-lboost_filesystem', '-lboost_system', '-lboost_timer', '-larmadillo']


class BuildError(Exception):
    pass


def numpy_include():
    import numpy
    return numpy.get_include()


def python_include():
    import sysconfig
    return sysconfig.get_paths()['include']


def build(rundir, sanitize=False):
    """Compile everything into rundir/pkg; returns the pkg path."""
    src = os.path.join(REPO, 'src')
    units = sorted(glob.glob(os.path.join(src, '*.cpp'))) + sorted(glob.glob(os.path.join(VERIF, 'shim', '*.cpp')))
    if len(units) < 5:
        raise BuildError('no sources found in %s' % src)
    obj = os.path.join(rundir, 'obj')
    pkg = os.path.join(rundir, 'pkg')
    os.makedirs(obj, exist_ok=True)
    os.makedirs(os.path.join(pkg, 'carmcmc'), exist_ok=True)
    env = dict(os.environ, CCACHE_DIR=os.path.join(VERIF, 'build', 'ccache'), CCACHE_NOHASHDIR='1',
               CCACHE_MAXSIZE='600M')
    cxx = ['ccache', 'g++'] if shutil.which('ccache') else ['g++']
    flags = ['-DNDEBUG', '-w', '-fpermissive', '-fPIC', '-I' + os.path.join(src, 'include'), '-I' + src,
             '-I' + os.path.join(VERIF, 'shim'), '-I' + numpy_include(), '-I' + python_include()]
    if sanitize:
        flags = ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=vptr',
                 '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS'] + flags
    else:
        flags = ['-O2'] + flags

    def one(u):
        o = os.path.join(obj, os.path.basename(u)[:-4] + '.o')
        r = subprocess.run(cxx + flags + ['-c', u, '-o', o], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return u, o, r.returncode, r.stdout.decode(errors='replace')

    # slowest unit first
    units.sort(key=lambda u: (os.path.basename(u) != 'boost_python_wrapper.cpp', u))
    with concurrent.futures.ThreadPoolExecutor(max(4, os.cpu_count() or 4)) as ex:
        res = list(ex.map(one, units))
    # a shim that no longer compiles is left out: only the checks that need it fail
    skip = [x for x in res if x[2] and os.path.dirname(x[0]) == os.path.join(VERIF, 'shim') and 'shim_base' not in x[0]]
    for u, o, rc, out in skip:
        sys.stderr.write('left out %s:\n%s\n' % (u, out[-1500:]))
    res = [x for x in res if x not in skip]
    for u, o, rc, out in res:
        if rc:
            raise BuildError('compiling %s failed:\n%s' % (u, out[-3000:]))
    so = os.path.join(pkg, 'carmcmc', '_carmcmc.so')
    link = ['g++', '-shared'] + (['-fsanitize=address,undefined'] if sanitize else []) + \
        [o for _, o, _, _ in res] + LIBS + ['-o', so]
    r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError('linking failed:\n' + r.stdout.decode(errors='replace')[-3000:])
    for f in glob.glob(os.path.join(src, 'carmcmc', '*.py')):
        shutil.copy(f, os.path.join(pkg, 'carmcmc'))
    shutil.rmtree(obj)
    return pkg


def new_rundir(tag):
    base = os.path.join(VERIF, 'build')
    os.makedirs(base, exist_ok=True)
    # remove run directories left behind by runs that were killed
    for d in glob.glob(os.path.join(base, 'run-*')):
        try:
            if time.time() - os.path.getmtime(d) > 6 * 3600:
                shutil.rmtree(d, ignore_errors=True)
        except OSError:
            pass
    return tempfile.mkdtemp(prefix='run-%s-' % tag, dir=base)


if __name__ == '__main__':
    d = new_rundir('manual')
    t = time.time()
    print(build(d, sanitize='san' in sys.argv), time.time() - t)
