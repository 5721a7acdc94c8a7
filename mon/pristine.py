"""Runs a function in a process in which the code under test is imported but
has not been used yet, so that nothing an earlier case left in module or class
level state can reach it.

call(f, *args) must be reached in a worker before the worker itself uses the
code under test: the server is forked on the first call.
"""
import os
import pickle
import struct
import traceback

_S = {}


def _read(fd, n):
    out = b''
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            return None
        out += b
    return out


def _get(fd):
    h = _read(fd, 8)
    if h is None:
        return None
    return _read(fd, struct.unpack('>Q', h)[0])


def _put(fd, data):
    data = struct.pack('>Q', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _serve(inp, out):
    while True:
        req = _get(inp)
        if req is None:
            os._exit(0)
        a, b = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(a)
            try:
                f, args = pickle.loads(req)
                ans = ('ok', f(*args))
            except BaseException:
                ans = ('error', traceback.format_exc())
            try:
                _put(b, pickle.dumps(ans))
            finally:
                os._exit(0)
        os.close(b)
        ans = _get(a)
        os.close(a)
        os.waitpid(pid, 0)
        if ans is None:
            ans = pickle.dumps(('error', 'the process died'))
        _put(out, ans)


def start():
    s = _S.get(os.getpid())
    if s is None:
        a, b = os.pipe()
        c, d = os.pipe()
        if os.fork() == 0:
            os.close(b)
            os.close(c)
            import signal
            signal.alarm(0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            try:
                _serve(a, d)
            finally:
                os._exit(1)
        os.close(a)
        os.close(d)
        s = _S[os.getpid()] = (b, c)
    return s


class Failed(Exception):
    """The function raised; the text is the traceback of its process."""


def call(f, *args):
    w, r = start()
    try:
        _put(w, pickle.dumps((f, args)))
        ans = _get(r)
    except BaseException:
        # an answer may still be under way: never read it as that of another
        _S.pop(os.getpid(), None)
        os.close(w)
        os.close(r)
        raise
    if ans is None:
        raise RuntimeError('the server of pristine processes died')
    kind, val = pickle.loads(ans)
    if kind == 'error':
        raise Failed(val)
    return val
