"""The command line tools as the monitors see them: files in, bytes out."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_Z = {}


def _zygote():
    z = _Z.get(os.getpid())
    if z is None:
        a, b = os.pipe()
        c, d = os.pipe()

        def fds():
            os.dup2(a, 100)
            os.dup2(d, 101)
            os.dup2(100, 3)
            os.dup2(101, 4)
            os.closerange(5, 200)
        p = subprocess.Popen([sys.executable, '-m', 'mon.zygote'], cwd=ROOT,
                             stdin=subprocess.DEVNULL,
                             stdout=subprocess.DEVNULL,
                             stderr=subprocess.DEVNULL, close_fds=False,
                             preexec_fn=fds)
        os.close(a)
        os.close(d)
        z = _Z[os.getpid()] = (p, os.fdopen(b, 'w'), os.fdopen(c, 'r'))
    return z


class Dir(object):
    """A scratch directory with the files of one case."""

    def __enter__(self):
        self.path = tempfile.mkdtemp(dir=os.environ.get('VP_SCRATCH'))
        self.n = 0
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)

    def file(self, data):
        self.n += 1
        p = os.path.join(self.path, 'f%d' % self.n)
        with open(p, 'wb') as f:
            f.write(data)
        return p

    def run(self, tool, args, stdin=b'', real=False, stdout=None, limit=None,
            side=None, clock=None):
        """Returns (exit code, stdout, stderr). With stdout the output goes
        there; limit is a file size limit; side keeps the files of the streams
        out of this directory."""
        if real:
            p = subprocess.run(
                [sys.executable, '-c',
                 'from os_urlpattern.cmdline import %s; %s()' % (tool, tool)]
                + args, input=stdin, stdout=subprocess.PIPE,
                stderr=subprocess.PIPE, cwd=self.path, timeout=110)
            return p.returncode, p.stdout, p.stderr
        i = (side or self).file(stdin)
        o, e = stdout or i + '.out', i + '.err'
        _, w, r = _zygote()
        w.write(json.dumps({'tool': tool, 'argv': ['pattern-' + tool] + args,
                            'stdin': i, 'stdout': o, 'stderr': e,
                            'cwd': self.path, 'limit': limit,
                            'clock': clock}) + '\n')
        w.flush()
        line = r.readline()
        if not line:
            raise RuntimeError('the zygote died')
        out = b''
        if stdout is None:
            with open(o, 'rb') as f:
                out = f.read()
        with open(e, 'rb') as f:
            err = f.read()
        return int(line), out, err
