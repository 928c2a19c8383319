"""Child processes behind the kernel: subprocess.Popen whose children are simulated programs.

Pipes have a finite capacity; a reader that goes away kills the writer, as SIGPIPE does.
Output redirected to a real file descriptor is written there with os.write.
"""
import errno
import io
import os
import subprocess

from . import kernel

_real_popen = subprocess.Popen
PROGRAMS = {}
SPAWN_HOOK = [None]


class Killed(BaseException):
    def __init__(self, sig):
        self.sig = sig


class Pipe:
    CAP = 65536

    def __init__(self):
        self.buf = bytearray()
        self.rclosed = False
        self.wclosed = False
        self.rwait = []
        self.wwait = []

    def _wake(self, ws):
        for t in ws:
            kernel.SIM.wake(t)
        ws.clear()

    def close_r(self):
        if not self.rclosed:
            self.rclosed = True
            self._wake(self.wwait)

    def close_w(self):
        if not self.wclosed:
            self.wclosed = True
            self._wake(self.rwait)


class PipeReader(io.RawIOBase):
    def __init__(self, pipe):
        self.pipe = pipe

    def readable(self):
        return True

    def readinto(self, b):
        p, sim = self.pipe, kernel.SIM
        while not p.buf and not p.wclosed:
            p.rwait.append(sim.current)
            sim.block(None, "pipe read")
        n = min(len(b), len(p.buf))
        b[:n] = p.buf[:n]
        del p.buf[:n]
        p._wake(p.wwait)
        return n

    def close(self):
        if not self.closed:
            self.pipe.close_r()
        super().close()


class Nowhere(io.RawIOBase):
    def writable(self):
        return True

    def write(self, b):
        return len(b)


class Proc:
    """The child's side."""

    def __init__(self, argv, cwd, env, out, err, pid):
        self.argv, self.cwd, self.env, self.pid = argv, cwd, env, pid
        self.out, self.err = out, err
        self.killed = None
        self.code = None
        self.waiters = []
        self.thread = None
        self.sim = kernel.SIM
        self.sent = {"out": bytearray(), "err": bytearray()}
        self.rfds = []

    def check(self):
        if self.killed is not None:
            raise Killed(self.killed)

    def kill(self, sig=9):
        if self.code is None and self.killed is None:
            self.killed = sig
            if self.thread is not None:
                self.sim.wake(self.thread)

    def pause(self, d):
        self.check()
        end = self.sim.now + d
        while True:
            left = end - self.sim.now
            if left <= 0:
                self.sim.yield_("child")
            else:
                self.sim.block(left, "child sleeps")
            self.check()
            if self.sim.now >= end:
                return

    def write(self, sink, data):
        if sink is None:
            return
        log = self.sent.get("out" if sink is self.out else "err" if sink is self.err else "", bytearray())
        if isinstance(sink, int):
            while data:
                n = os.write(sink, data)
                log += data[:n]
                data = data[n:]
            return
        while data:
            if sink.rclosed:
                raise Killed(13)
            room = sink.CAP - len(sink.buf)
            if room <= 0:
                sink.wwait.append(self.thread)
                self.sim.block(None, "pipe write")
                if self.killed is not None:
                    self.check()
                continue
            sink.buf += data[:room]
            log += data[:room]
            data = data[room:]
            sink._wake(sink.rwait)

    def torn(self, sink, data, whole=True):
        """Write in pieces that need not end where lines or characters do. whole: a kill takes effect only afterwards."""
        self.check()
        k = self.sim.choose(4)
        if k == 0 or len(data) < 2:
            self.write(sink, data)
            return
        cuts = sorted({1 + self.sim.choose(len(data) - 1) for _ in range(k)})
        a = 0
        for c in cuts + [len(data)]:
            self.write(sink, data[a:c])
            a = c
            d = (0.0, 0.001, 0.02, 0.15)[self.sim.choose(4)]
            self.sim.sleep(d) if whole else self.pause(d)
        self.check()

    def boot(self, main):
        try:
            code = main(self)
        except Killed as e:
            code = -e.sig
        # the descriptors go first, the exit status a moment later
        for s in (self.out, self.err):
            if isinstance(s, Pipe):
                s.close_w()
        for fd in self.rfds:
            os.close(fd)
        self.sim.sleep((0.0, 0.0005, 0.004)[self.sim.choose(3)])
        self.code = code
        for t in self.waiters:
            self.sim.wake(t)
        self.waiters = []


_pid = [1000]


def _arg(a):
    if isinstance(a, bytes):
        a = os.fsdecode(a)
    elif not isinstance(a, str):
        a = os.fspath(a)   # TypeError for anything else, as in the real one
        a = os.fsdecode(a)
    if "\0" in a:
        raise ValueError("embedded null byte")
    return a


class SimPopen:
    def __new__(cls, *a, **kw):
        if kernel.SIM is None:
            return _real_popen(*a, **kw)
        return object.__new__(cls)

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None, close_fds=True,
                 shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None, creationflags=0, restore_signals=True,
                 start_new_session=False, pass_fds=(), *, user=None, group=None, extra_groups=None, encoding=None, errors=None,
                 text=None, umask=-1, pipesize=-1, process_group=None):
        sim = kernel.SIM
        if shell:
            raise RuntimeError("shell=True is not simulated")
        self.args = args
        argv = [_arg(args)] if isinstance(args, (str, bytes, os.PathLike)) else [_arg(a) for a in args]
        e = dict(os.environ if env is None else env)
        e = {_arg(k): _arg(v) for k, v in e.items()}
        if cwd is not None and not os.path.isdir(cwd):
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), os.fspath(cwd))
        if SPAWN_HOOK[0] is not None:
            SPAWN_HOOK[0](argv)
        main = PROGRAMS.get(os.path.basename(argv[0]))
        if main is None:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), argv[0])
        self.returncode = None
        self.stdin = self.stdout = self.stderr = None
        _pid[0] += 1
        self.pid = _pid[0]
        textual = text or universal_newlines or encoding or errors
        rfds = []

        def sink(spec, other=None):
            if spec is None or spec == subprocess.DEVNULL:
                return None, None
            if spec == subprocess.PIPE:
                p = Pipe()
                f = io.BufferedReader(PipeReader(p))
                if textual:
                    f = io.TextIOWrapper(f, encoding=encoding or "utf-8", errors=errors)
                return p, f
            if spec == subprocess.STDOUT:
                return other, None
            fd = os.dup(spec if isinstance(spec, int) else spec.fileno())
            rfds.append(fd)
            return fd, None

        out, self.stdout = sink(stdout)
        err, self.stderr = sink(stderr, out)
        if stdin == subprocess.PIPE:
            self.stdin = io.BufferedWriter(Nowhere())
        self._p = p = Proc(argv, cwd or os.getcwd(), e, out, err, self.pid)
        p.rfds = rfds
        p.thread = sim.start_thread("pulumi-cli", lambda: p.boot(main), daemon=True)
        sim.yield_("spawn")

    def poll(self):
        if self.returncode is None:
            self._p.sim.sleep(0.0002)
            self.returncode = self._p.code
        return self.returncode

    def wait(self, timeout=None):
        p, sim = self._p, kernel.SIM
        end = None if timeout is None else sim.now + timeout
        while p.code is None:
            left = None if end is None else end - sim.now
            if left is not None and left <= 0:
                raise subprocess.TimeoutExpired(self.args, timeout)
            p.waiters.append(sim.current)
            sim.block(left, "child exit")
        self.returncode = p.code
        return p.code

    def communicate(self, input=None, timeout=None):
        sim = kernel.SIM
        got = {}
        ts = []
        for name in ("stdout", "stderr"):
            f = getattr(self, name)
            if f is not None:
                def rd(name=name, f=f):
                    got[name] = f.read()
                    f.close()
                ts.append(sim.start_thread("communicate", rd, daemon=True))
        for t in ts:
            while t.state != kernel.DONE:
                t.joiners.append(sim.current)
                sim.block(None, "communicate")
        self.wait(timeout)
        return got.get("stdout"), got.get("stderr")

    def send_signal(self, sig):
        if self._p.code is None:
            self._p.kill(int(sig))

    def terminate(self):
        self.send_signal(15)

    def kill(self):
        self.send_signal(9)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for f in (self.stdout, self.stderr, self.stdin):
            if f is not None:
                f.close()
        self.wait()

    def __class_getitem__(cls, x):
        return cls


def install():
    subprocess.Popen = SimPopen
