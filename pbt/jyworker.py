"""Talks to the persistent Jython worker that runs the code under test."""
import ctypes
import json
import os
import select
import signal
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


_libc = ctypes.CDLL(None)


def _die_with_parent():
    _libc.prctl(1, signal.SIGKILL)      # PR_SET_PDEATHSIG


class HarnessError(Exception):
    pass


class LibraryError(Exception):
    pass


class Timeout(Exception):
    pass


class Nonterminating(Exception):
    pass


class Worker:
    timeout = 60.0
    budget = 3000000      # traced lines; an ordinary case takes well under 1% of this

    def __init__(self):
        self.p = None
        self.calls = 0

    def start(self):
        self.err = tempfile.TemporaryFile()
        env = dict(os.environ)
        env.setdefault('JY_JAVA_OPTS', '-Xmx1500m -XX:+UseSerialGC -XX:TieredStopAtLevel=%s -Xshare:auto' % os.environ.get('JY_TIER', '1'))
        repo = os.environ.get('PYOGP_REPO', '/repo')
        cp = '/usr/share/java/jython.jar:/usr/share/java/xercesImpl.jar'
        env.update(LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1')
        for k in ('JYTHONPATH', 'PYTHONPATH', 'CLASSPATH', 'JYTHON_HOME'):
            env.pop(k, None)
        cmd = ['/usr/bin/java'] + env['JY_JAVA_OPTS'].split() + [
            '-Xss4m', '-cp', cp, '-Dpython.home=/usr/share/jython', '-Dpython.cachedir.skip=true',
            '-Dpython.path=%s:%s:/opt/vp/pyogp/site' % (os.path.join(HERE, 'shim'), repo),
            'org.python.util.jython', '-B', os.path.join(HERE, 'jy', 'worker.py')]
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env,
                                  cwd=tempfile.gettempdir(), preexec_fn=_die_with_parent)
        self.buf = b''
        hello = self._read(120.0)
        if os.path.realpath(hello['repo']) != os.path.realpath(repo):
            raise HarnessError('worker imports %s, not %s' % (hello['repo'], repo))

    def _read(self, timeout):
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            r, _, _ = select.select([fd], [], [], timeout)
            if not r:
                raise Timeout()
            d = os.read(fd, 1 << 16)
            if not d:
                self.err.seek(0)
                tail = self.err.read()[-3000:].decode('latin-1')
                self.p.wait()
                self.p = None
                raise HarnessError('worker died: ' + tail)
            self.buf += d
        line, self.buf = self.buf.split(b'\n', 1)
        return json.loads(line)

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None

    def _call(self, op, arg, budget=None):
        if self.p is None:
            self.start()
        self.calls += 1
        req = {'op': op, 'arg': arg}
        if budget:
            req['budget'] = budget
        self.p.stdin.write(json.dumps(req).encode() + b'\n')
        self.p.stdin.flush()
        rep = self._read(self.timeout if not budget else self.timeout * 10)
        if rep.get('lib_error'):
            raise LibraryError(rep['harness_error'])
        if 'harness_error' in rep:
            raise HarnessError(rep['harness_error'])
        return rep['res']

    def call(self, op, **arg):
        try:
            return self._call(op, arg)
        except Timeout:
            # decide by counting executed lines in a fresh worker, not by the clock
            self.stop()
            res = self._call(op, arg, budget=self.budget)
            if isinstance(res, dict) and 'nonterminating' in res:
                self.stop()
                raise Nonterminating('no result after %d executed lines' % self.budget)
            return res
