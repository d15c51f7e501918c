"""Calls in a process where nothing was called before: a helper forked at the start forks a child for every call."""
import os
import pickle
import struct

_ends = {}


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('<Q', len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    def take(n):
        out = b''
        while len(out) < n:
            x = os.read(fd, n - len(out))
            if not x:
                return None
            out += x
        return out
    h = take(8)
    if h is None:
        return None
    b = take(struct.unpack('<Q', h)[0])
    return None if b is None else pickle.loads(b)


def start(fn):
    """Fork the helper that will run fn; call before the first case."""
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    if os.fork() == 0:
        os.close(w1)
        os.close(r2)
        while True:
            args = _recv(r1)
            if args is None:
                os._exit(0)
            pid = os.fork()
            if pid == 0:
                try:
                    res = ('ok', fn(*args))
                except BaseException as ex:
                    res = ('raised', '%s: %s' % (type(ex).__name__, ex))
                _send(w2, res)
                os._exit(0)
            _, st = os.waitpid(pid, 0)
            if st != 0:
                _send(w2, ('died', 'status %d' % st))
    os.close(r1)
    os.close(w2)
    _ends['fn'] = (w1, r2)


def call(*args):
    """fn(*args) in a fresh process: ('ok', value), ('raised', text) or ('died', text)."""
    w, r = _ends['fn']
    _send(w, args)
    res = _recv(r)
    if res is None:
        raise RuntimeError('the helper process ended')
    return res
