"""Runs the checks.  See ../check for the command line and DESIGN.md for the method."""
import collections
import glob
import hashlib
import importlib.util
import json
import os
import shutil
import signal
import subprocess
import sys
import time
import traceback

LIB = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(LIB)
sys.path.insert(0, LIB)
import common  # noqa: E402  (puts hypothesis and mpmath on the path)
PY = sys.executable
ASAN = None

DEFAULT_BUDGET = {'quick': 30.0, 'thorough': 300.0}
HISTORY = 4000                           # cases of a worker remembered for failures that need what ran before them
SHRINK = {'quick': 25.0, 'thorough': 60.0}


def load(pid):
    path = os.path.join(VERIF, 'checks', pid.lower() + '.py')
    spec = importlib.util.spec_from_file_location('check_' + pid, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def derive(*parts):
    return int.from_bytes(hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()[:6], 'big')


def dumps(case):
    return json.dumps(case, separators=(',', ':'), sort_keys=True)


def child_env(sanitize, rundir):
    env = dict(os.environ)
    env.update(OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1',
               MPLCONFIGDIR=os.path.join(VERIF, 'build', 'mpl'), PYTHONHASHSEED='0', VERIF_RUNDIR=rundir)
    env.pop('PYTHONPATH', None)
    if sanitize:
        lib = subprocess.run(['g++', '-print-file-name=libasan.so'], stdout=subprocess.PIPE).stdout.decode().strip()
        ub = subprocess.run(['g++', '-print-file-name=libubsan.so'], stdout=subprocess.PIPE).stdout.decode().strip()
        std = subprocess.run(['g++', '-print-file-name=libstdc++.so'], stdout=subprocess.PIPE).stdout.decode().strip()
        env['LD_PRELOAD'] = ':'.join([lib, ub, std])
        env['ASAN_OPTIONS'] = 'quarantine_size_mb=64:max_malloc_fill_size=16777216:exitcode=77:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0'
        env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=78'
    return env


# ------------------------------------------------------------------ worker side
class StopRun(BaseException):
    pass


class Stats(object):
    def __init__(self, out):
        self.out = out
        self.evals = 0
        self.nontrivial = 0
        self.tags = collections.Counter()
        self.hashes = set()
        self.samples = []
        self.counts = collections.Counter()
        self.last = time.time()

    def add(self, text, info):
        self.evals += 1
        for t in info.get('tags', ()):
            self.tags[t] += 1
        for k, v in info.get('counts', {}).items():
            self.counts[k] += v
        if info.get('nontrivial', True):
            self.nontrivial += 1
            h = hashlib.sha1(text.encode()).hexdigest()[:16]
            if h not in self.hashes:
                self.hashes.add(h)
                if len(self.samples) < 40 and len(text) < 3000:
                    self.samples.append(text)
        if time.time() - self.last > 3:
            self.flush()

    def flush(self):
        self.last = time.time()
        tmp = self.out + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(dict(evals=self.evals, nontrivial=self.nontrivial, tags=self.tags, hashes=sorted(self.hashes),
                           counts=self.counts, samples=self.samples), f)
        os.replace(tmp, self.out)


def quiet(out, w):
    """Native code prints; send it away from our streams."""
    err = open(os.path.join(out, 'w%s.err' % w), 'ab', 0)
    nul = os.open(os.devnull, os.O_WRONLY)
    sys.stdout.flush()
    os.dup2(nul, 1)
    os.dup2(err.fileno(), 2)


def forked(run, case, limit):
    """Run one case in a forked child, so that a crash or hang is an ordinary failure."""
    from common import Violation
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(int(limit))
        code = 3
        try:
            info = run(case)
            os.write(w, json.dumps(info).encode()[:60000])
            code = 0
        except Violation as ex:
            os.write(w, str(ex).encode()[:2000])
            code = 1
        except BaseException:
            os.write(w, traceback.format_exc().encode()[-2000:])
        os._exit(code)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        raise Violation('does not finish within %d s' % limit if s == signal.SIGALRM else 'process died with signal %d' % s)
    code = os.WEXITSTATUS(st)
    if code == 0:
        return json.loads(data.decode())
    if code == 1:
        raise Violation(data.decode(errors='replace'))
    if code == 3:
        raise RuntimeError(data.decode(errors='replace'))
    raise Violation('process exited with status %d' % code)


def worker(argv):
    pid, tier, seed, w, nw, out, budget, pkg, fork, chunk0 = argv
    seed, w, nw, budget, fork, chunk0 = int(seed), int(w), int(nw), float(budget), int(fork), int(chunk0)
    quiet(out, w)
    from common import Violation
    import native
    native.init(pkg)
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    mod = load(pid)
    getattr(mod, 'start', lambda: None)()
    hang = getattr(mod, 'HANG', 100)
    t0 = time.time()
    deadline = t0 + budget
    stats = Stats(os.path.join(out, ('again%d.json' if fork else 'w%d.json') % w))
    cur = os.path.join(out, 'w%d.cur' % w)
    failp = os.path.join(out, 'w%d.fail' % w)
    best = {}
    state = {'tfail': None}
    history = collections.deque(maxlen=HISTORY)
    passed = set()                       # every chunk starts with the simplest case: run it once

    def execute(case):
        text = dumps(case)
        now = time.time()
        h = hash(text)
        if h in passed:
            return
        if state['tfail'] is None and now > deadline:
            raise StopRun()
        if state['tfail'] is not None and now > state['tfail'] + SHRINK[tier]:
            raise StopRun()
        with open(cur, 'w') as f:
            f.write('%d\n%s' % (state['chunk'], text))
        try:
            info = forked(mod.run, case, hang) if fork else mod.run(json.loads(text))
        except Violation as ex:
            if state['tfail'] is None:
                state['tfail'] = time.time()
                stats.flush()
                with open(failp + '.first', 'w') as f:
                    json.dump(dict(case=case, message=str(ex), worker=w, chunk=state['chunk'], history=list(history)), f)
            if not best or len(text) <= len(best['text']):
                best.update(text=text, message=str(ex))
                with open(failp + '.tmp', 'w') as f:
                    json.dump(dict(case=case, message=str(ex)), f)
                os.replace(failp + '.tmp', failp)
            raise
        passed.add(h)
        history.append(text)
        if state['tfail'] is None:
            stats.add(text, info or {})

    code = 0
    state['chunk'] = chunk0
    try:
        if not fork or chunk0 < 0:
            state['chunk'] = -1
            ex = mod.examples(tier) if hasattr(mod, 'examples') else []
            for i, c in enumerate(ex):
                if i % nw == w:
                    execute(json.loads(dumps(c)))
        c = max(chunk0, 0)
        size = getattr(mod, 'CHUNK', 60)
        strat = mod.case(tier)
        while time.time() < deadline:
            state['chunk'] = c

            @hypothesis.seed(derive(seed, pid, tier, w, c))
            @settings(max_examples=size, database=None, deadline=None, derandomize=False, print_blob=False,
                      report_multiple_bugs=False, phases=(Phase.generate, Phase.shrink),
                      suppress_health_check=list(HealthCheck), verbosity=hypothesis.Verbosity.quiet)
            @given(strat)
            def t(case):
                execute(case)
            t()
            c += 1
            if fork:
                break
    except StopRun:
        code = 1 if best else 0
    except Violation:
        code = 1
    except BaseException:
        if best:
            code = 1
        else:
            traceback.print_exc()
            code = 3
    stats.flush()
    sys.stderr.flush()
    os._exit(code)


def replay_one(argv):
    pid, path, out, pkg, tag = argv
    quiet(out, 'r' + tag)
    from common import Violation
    import native
    native.init(pkg)
    mod = load(pid)
    getattr(mod, 'start', lambda: None)()
    with open(path) as f:
        d = json.load(f)
    case = d['case']
    code = 0
    for text in d.get('history', []):
        try:
            mod.run(json.loads(text))
        except Exception:
            pass
    try:
        mod.run(json.loads(dumps(case)))
    except Violation as ex:
        with open(os.path.join(out, 'replay%s.msg' % tag), 'w') as f:
            f.write(str(ex))
        code = 1
    except BaseException:
        traceback.print_exc()
        code = 3
    sys.stderr.flush()
    os._exit(code)


def known_one(argv):
    """Evaluate the recorded known findings; write a line for each that still fails."""
    pid, out, pkg = argv
    quiet(out, 'known')
    import native
    native.init(pkg)
    mod = load(pid)
    code = 0
    try:
        lines = mod.known()
        with open(os.path.join(out, 'known.txt'), 'w') as f:
            for x in lines:
                f.write(x + '\n')
    except BaseException:
        traceback.print_exc()
        code = 3
    sys.stderr.flush()
    os._exit(code)


# ------------------------------------------------------------------ parent side
def tail(path, n=1500):
    try:
        with open(path, 'rb') as f:
            return f.read()[-n:].decode(errors='replace')
    except OSError:
        return ''


def confirm(pid, mod, path, out, pkg, env, times=3, extra=0):
    """Replay in fresh processes; returns (reproduced every time, message)."""
    end = time.time() + getattr(mod, 'HANG', 100) + 30 + extra
    ps = []
    for i in range(times):
        ps.append(subprocess.Popen([PY, '-W', 'ignore', os.path.join(LIB, 'engine.py'), '--replay', pid, path, out, pkg,
                                    str(i)], env=env, start_new_session=True))
    bad = 0
    msg = ''
    err = False
    for i, p in enumerate(ps):
        try:
            rc = p.wait(timeout=max(1.0, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = 'hang'
        if rc == 1:
            bad += 1
            msg = tail(os.path.join(out, 'replay%d.msg' % i))
        elif rc == 3:
            err = True
            msg = tail(os.path.join(out, 'wr%d.err' % i))
        elif rc != 0:
            bad += 1
            msg = 'does not finish' if rc == 'hang' else 'process ended with status %s: %s' % (
                rc, tail(os.path.join(out, 'wr%d.err' % i)))
    return bad == times and not err, msg


def search(pid, mod, tier, seed, out, pkg, env, budget, nw):
    """Run the workers; returns (failure or None, errors)."""
    def spawn(w, fork, chunk, bud):
        return subprocess.Popen([PY, '-W', 'ignore', os.path.join(LIB, 'engine.py'), '--worker', pid, tier, str(seed),
                                 str(w), str(nw), out, str(bud), pkg, str(int(fork)), str(chunk)], env=env,
                                start_new_session=True)
    hang = getattr(mod, 'HANG', 100)
    procs = {w: spawn(w, 0, 0, budget) for w in range(nw)}
    errors, fails, crashes = [], [], []
    stop_at = None
    while procs:
        time.sleep(0.05)
        for w, p in list(procs.items()):
            rc = p.poll()
            if rc is None:
                try:
                    age = time.time() - os.path.getmtime(os.path.join(out, 'w%d.cur' % w))
                except OSError:
                    age = 0
                if age > hang:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    del procs[w]
                    crashes.append((w, 'a case did not finish within %d s' % hang))
                elif stop_at is not None and time.time() > stop_at:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    del procs[w]
                continue
            del procs[w]
            if rc == 0:
                continue
            if rc == 1:
                fails.append(w)
            elif rc == 3:
                errors.append(tail(os.path.join(out, 'w%d.err' % w), 4000))
            elif stop_at is None or not glob.glob(os.path.join(out, 'w%d.fail' % w)):
                crashes.append((w, 'process ended with status %s: %s' % (rc, tail(os.path.join(out, 'w%d.err' % w)))))
            if stop_at is None and (fails or crashes or errors):
                stop_at = time.time() + 2
    def again(w, chunk):
        """The same chunk once more, one forked child per case, so that no case sees what the others left behind."""
        f = os.path.join(out, 'w%d.fail' % w)
        for x in (f, f + '.first'):
            if os.path.exists(x):
                os.unlink(x)
        p = spawn(w, 1, chunk, 60)
        try:
            p.wait(timeout=60 + SHRINK[tier] + 30)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        if os.path.exists(f):
            return json.load(open(f))

    cands, firsts = [], []
    for f in glob.glob(os.path.join(out, 'w*.fail')):
        with open(f) as fh:
            cands.append(json.load(fh))
    cands.sort(key=lambda c: len(dumps(c['case'])))
    for f in glob.glob(os.path.join(out, 'w*.fail.first')):
        with open(f) as fh:
            firsts.append(json.load(fh))
    if not cands:
        for w, why in crashes:
            cur = open(os.path.join(out, 'w%d.cur' % w)).read().split('\n', 1)
            chunk, case = int(cur[0]), json.loads(cur[1])
            orig = dict(case=case, message=why)
            if chunk >= 0 and 'did not finish' not in why:
                c = again(w, chunk)           # the crash shrinks like any failure
                if c:
                    c['message'] += ' / ' + why
                    cands.append(c)
            cands.append(orig)
            break
    return cands, firsts, again, errors


def judge(pid, mod, out, pkg, env, cands, firsts, again):
    """The smallest failing case that fails again in fresh processes: (path, message) or None, and the ones that did not."""
    rejected = []

    def record(c, history=()):
        d = dict(property=pid, case=c['case'], message=c['message'])
        if history:
            d['history'] = list(history)
        path = os.path.join(VERIF, 'build', 'replay', '%s-%s.json' % (pid, hashlib.sha1(dumps(d).encode()).hexdigest()[:12]))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            json.dump(d, f)
        return path

    def fails(c, history=(), times=3):
        path = record(c, history)
        ok, msg = confirm(pid, mod, path, out, pkg, env, times, 200 if history else 0)
        if ok:
            return path, msg or c['message']
        if not history:
            rejected.append((c['message'], msg))
        os.unlink(path)

    for c in cands[:3]:
        r = fails(c)
        if r:
            return r, rejected
    # smaller cases may have failed for what earlier cases left in the process
    for c in firsts[:3]:
        r = fails(c)
        if r:
            d = again(c['worker'], c['chunk']) if c['chunk'] >= 0 else None
            return (d and fails(d)) or r, rejected
    # a failure that needs the cases before it: look for a short list of them
    for c in firsts[:2]:
        end = time.time() + 120
        for m in (5, 60, 600, HISTORY):
            h = c['history'][-m:]
            if fails(c, h, 1):
                break
            if m >= len(c['history']):
                h = None
                break
        if not h:
            continue
        step = max(1, len(h) // 2)
        while time.time() < end:
            k = 0
            while k < len(h) and time.time() < end:
                g = h[:k] + h[k + step:]
                if g and fails(c, g, 1):
                    h = g
                else:
                    k += step
            if step == 1:
                break
            step = max(1, step // 2)
        r = fails(c, h)
        if r:
            return (r[0], r[1] + '\n(after %d other case%s in the same process)' % (len(h), 's' if len(h) > 1 else '')), rejected
    return None, rejected


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '0') or '0')
    import build
    mod = load(pid)
    rundir = build.new_rundir(pid)
    os.makedirs(os.path.join(VERIF, 'build', 'mpl'), exist_ok=True)
    san = getattr(mod, 'SANITIZE', False)
    try:
        try:
            pkg = build.build(rundir, sanitize=san)
        except build.BuildError as ex:
            print('ERROR: %s' % ex)
            return 2
        t_build = time.time() - t0
        out = os.path.join(rundir, 'out')
        os.makedirs(out)
        env = child_env(san, rundir)
        budget = dict(DEFAULT_BUDGET, **getattr(mod, 'BUDGET', {}))[tier]
        budget = float(os.environ.get('VERIF_BUDGET', budget))
        nw = min(getattr(mod, 'WORKERS', 8), max(2, os.cpu_count() or 2))
        if hasattr(mod, 'prepare'):
            mod.prepare(env)
        cands, firsts, again, errors = search(pid, mod, tier, seed, out, pkg, env, budget, nw)
        viol, rejected = judge(pid, mod, out, pkg, env, cands, firsts, again)
        ev = evidence(pid, mod, tier, seed, out, time.time() - t0, 1 if viol else 0, t_build, nw)
        print('%s %s seed=%d: %d cases, %d distinct non-trivial, build %.1f s, total %.1f s'
              % (pid, tier, seed, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], t_build,
                 time.time() - t0))
        if viol:
            print('  ' + viol[1].replace('\n', '\n  ')[:1500])
            print('VIOLATION property=%s replay=%s' % (pid, viol[0]))
            return 1
        if errors:
            print('ERROR of the check:\n' + errors[0])
            return 2
        if rejected:
            print('ERROR: a failure did not reproduce: %s | %s' % rejected[0])
            return 2
        if ev['coverage']['evaluations'] == 0:
            print('ERROR: no case was evaluated')
            return 2
        if hasattr(mod, 'known'):
            r = subprocess.run([PY, '-W', 'ignore', os.path.join(LIB, 'engine.py'), '--known', pid, out, pkg], env=env,
                               timeout=200)
            if r.returncode not in (0, 1):
                print('ERROR of the check: ' + tail(os.path.join(out, 'wknown.err')))
                return 2
            try:
                for line in open(os.path.join(out, 'known.txt')):
                    print('KNOWN-FINDING: property=%s %s' % (pid, line.rstrip()))
            except OSError:
                pass
        return 0
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(rundir, ignore_errors=True)


def evidence(pid, mod, tier, seed, out, wall, nviol, t_build, nw):
    evals = 0
    hashes = set()
    tags = collections.Counter()
    counts = collections.Counter()
    samples = []
    for f in sorted(glob.glob(os.path.join(out, 'w*.json'))):
        d = json.load(open(f))
        evals += d['evals']
        hashes.update(d['hashes'])
        tags.update(d['tags'])
        counts.update(d['counts'])
        samples.append(d['samples'])
    pick = []
    for s in samples:
        pick.extend(s[-2:])
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'exploration'),
              coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=mod.RULE,
                            samples=[json.loads(s) for s in pick[:6]],
                            distribution=dict(sorted(tags.items())), checks_made=dict(sorted(counts.items())),
                            workers=nw),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(wall, 2), violations=nviol,
              build_s=round(t_build, 2))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    return ev


def replay(pid, path):
    import build
    mod = load(pid)
    rundir = build.new_rundir(pid)
    san = getattr(mod, 'SANITIZE', False)
    try:
        pkg = build.build(rundir, sanitize=san)
        out = os.path.join(rundir, 'out')
        os.makedirs(out)
        ok, msg = confirm(pid, mod, os.path.abspath(path), out, pkg, child_env(san, rundir), times=1)
        if ok:
            print(msg)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        print('the case passes' if not msg else 'ERROR: ' + msg)
        return 0 if not msg else 2
    finally:
        shutil.rmtree(rundir, ignore_errors=True)


def setup():
    import build
    rundir = build.new_rundir('setup')
    try:
        pkg = build.build(rundir)
        import common  # noqa
        import hypothesis
        import mpmath
        r = subprocess.run([PY, '-W', 'ignore', '-c', 'import sys; sys.path.insert(0, %r); import carmcmc' % pkg],
                           env=child_env(False, rundir))
        print('setup: build ok, hypothesis %s, mpmath %s, import %s' % (hypothesis.__version__, mpmath.__version__,
                                                                       'ok' if r.returncode == 0 else 'FAILED'))
        return r.returncode
    finally:
        shutil.rmtree(rundir, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[:1] == ['--worker']:
        worker(a[1:])
    elif a[:1] == ['--replay']:
        replay_one(a[1:])
    elif a[:1] == ['--known']:
        known_one(a[1:])
    elif a == ['setup']:
        sys.exit(setup())
    elif len(a) == 3 and a[1] == 'replay':
        sys.exit(replay(a[0].upper(), a[2]))
    elif len(a) == 2 and a[1] in ('quick', 'thorough'):
        sys.exit(check(a[0].upper(), a[1]))
    else:
        print(open(os.path.join(VERIF, 'check')).read())
        sys.exit(2)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
