"""Runs the command line tools on request, one forked child per run.

Started with the requests on file descriptor 3 and the answers on 4, so that
the standard streams of a child are only ever the ones of its run.
"""
import json
import os
import sys
import traceback


def set_clock(kind):
    """A clock that stands still, or one that is set back now and then."""
    import time
    real, state = time.time, [0]
    t0 = real()

    def now():
        state[0] += 1
        if kind == 'frozen':
            return t0
        return real() - 3600 * (state[0] % 7)
    time.time = time.monotonic = time.perf_counter = now


def child(req):
    os.chdir(req.get('cwd') or '/')
    if req.get('limit') is not None:
        import resource
        resource.setrlimit(resource.RLIMIT_FSIZE, (req['limit'],) * 2)
    for path, fd, flags in ((req['stdin'], 0, os.O_RDONLY),
                            (req['stdout'], 1, os.O_WRONLY | os.O_CREAT
                             | os.O_TRUNC),
                            (req['stderr'], 2, os.O_WRONLY | os.O_CREAT
                             | os.O_TRUNC)):
        if path == 'CLOSED PIPE':
            a, f = os.pipe()
            os.close(a)
        else:
            f = os.open(path, flags, 0o600)
        os.dup2(f, fd)
        os.close(f)
    code = 0
    try:
        from os_urlpattern import cmdline
        sys.argv = req['argv']
        if req.get('clock'):
            set_clock(req['clock'])
        getattr(cmdline, req['tool'])()
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 0 if e.code is None \
            else 1
    except BaseException:
        traceback.print_exc()
        code = 1
    try:
        sys.stdout.flush()
        sys.stderr.flush()
    except BaseException:
        code = code or 120
    os._exit(code)


def main():
    import os_urlpattern.cmdline  # noqa: F401
    src = os.environ.get('VP_SRC', '/repo/src')
    assert os.path.abspath(os_urlpattern.__file__).startswith(src + '/')
    inp = os.fdopen(3, 'r')
    out = os.fdopen(4, 'w')
    for line in iter(inp.readline, ''):
        req = json.loads(line)
        pid = os.fork()
        if pid == 0:
            try:
                child(req)
            finally:
                os._exit(125)
        _, status = os.waitpid(pid, 0)
        out.write('%d\n' % (os.WEXITSTATUS(status)
                            if os.WIFEXITED(status) else 128))
        out.flush()


if __name__ == '__main__':
    main()
