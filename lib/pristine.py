"""evaluations in a process in which nothing was evaluated since the beginning of the case

Results kept at the level of the modules or classes of the product would spoil freshly built objects as well; those built in the
children of a process forked before the history know nothing about it."""
import os
import pickle
import signal
import struct
import sys


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<Q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _read(fd, n):
    out = b""
    while len(out) < n:
        c = os.read(fd, n - len(out))
        if not c:
            raise EOFError
        out += c
    return out


def _recv(fd):
    return pickle.loads(_read(fd, struct.unpack("<Q", _read(fd, 8))[0]))


class Pristine:
    """with Pristine() as p: p(function, arguments) evaluates it in a child of the process as it was then"""

    def __enter__(self):
        sys.stdout.flush()
        sys.stderr.flush()
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid:
            os.close(r1), os.close(w2)
            self.w, self.r = w1, r2
            return self
        try:
            for s in (signal.SIGALRM, signal.SIGINT, signal.SIGTERM):
                signal.signal(s, signal.SIG_DFL)
            os.close(w1), os.close(r2)
            while True:
                head = _read(r1, 8)
                body = _read(r1, struct.unpack("<Q", head)[0])
                pid = os.fork()
                if pid:
                    os.waitpid(pid, 0)
                    continue
                try:
                    fn, a = pickle.loads(body)
                    out = (True, fn(*a))
                except BaseException as x:  # reported by the parent
                    out = (False, f"{type(x).__name__}: {x}")
                _send(w2, out)
                os._exit(0)
        except BaseException:
            pass
        finally:
            os._exit(0)

    def __call__(self, fn, *a):
        _send(self.w, (fn, a))
        ok, v = _recv(self.r)
        if not ok:
            raise RuntimeError("in the pristine process: " + v)
        return v

    def __exit__(self, *a):
        for fd in (self.w, self.r):
            os.close(fd)
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass
