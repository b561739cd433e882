"""Process seam: subprocess.Popen runs simulated programs.

A program is a list of steps chosen by the scenario; it writes to bounded
pipes and blocks when they are full, as a real child does.  Nothing is ever
executed on the machine."""
import errno
import io
import os
import shlex
import subprocess
import types

from . import core, fs, shell

PROGRAM = [None]        # fn(Popen) -> [('out', bytes) | ('err', bytes) | ('sleep', s) | ('exit', code)]
STARTED = []
CATS = {'proc.spawn': ['ENOMEM', 'EAGAIN']}


def reset():
    PROGRAM[0] = None
    STARTED.clear()


class Pipe:
    def __init__(self, sim, cap):
        self.sim, self.cap = sim, cap
        self.buf = bytearray()
        self.eof = False
        self.reader_closed = False


class Reader:
    """The parent's end of a pipe."""

    def __init__(self, proc, pipe, text, encoding, errors):
        self.proc, self.pipe = proc, pipe
        self.text, self.encoding, self.errors = text, encoding or 'utf-8', errors or 'strict'
        self.closed = False
        self.pend = b''

    def _fill(self):
        p = self.pipe
        s = self.proc._enter()
        s.block(lambda: p.buf or p.eof, None, 'pipe read')
        d = bytes(p.buf)
        p.buf.clear()
        self.proc._poke()
        self.pend += d
        return bool(d)

    def _cv(self, b):
        if not self.text:
            return b
        return io.IncrementalNewlineDecoder(None, True).decode(b.decode(self.encoding, self.errors), True)

    def read(self, n=-1):
        if self.closed:
            raise ValueError('read of closed file')
        while (n is None or n < 0 or len(self.pend) < n) and self._fill():
            pass
        if n is None or n < 0:
            d, self.pend = self.pend, b''
        else:
            d, self.pend = self.pend[:n], self.pend[n:]
        return self._cv(d)

    def read1(self, n=-1):
        if not self.pend:
            self._fill()
        n = len(self.pend) if n is None or n < 0 else n
        d, self.pend = self.pend[:n], self.pend[n:]
        return self._cv(d)

    def readline(self, n=-1):
        while b'\n' not in self.pend and self._fill():
            pass
        i = self.pend.find(b'\n') + 1 or len(self.pend)
        d, self.pend = self.pend[:i], self.pend[i:]
        return self._cv(d)

    def readlines(self, hint=None):
        return list(self)

    def __iter__(self):
        while True:
            ln = self.readline()
            if not ln:
                return
            yield ln

    def fileno(self):
        core.CURRENT.unsupported('fileno of a pipe')

    def close(self):
        self.closed = True
        self.pipe.reader_closed = True
        self.proc._poke()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Writer:
    def __init__(self, proc):
        self.proc = proc
        self.closed = False

    def write(self, d):
        return len(d)

    def flush(self):
        pass

    def close(self):
        self.closed = True


class FakePopen:
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                 close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None,
                 creationflags=0, restore_signals=True, start_new_session=False, pass_fds=(), *, user=None,
                 group=None, extra_groups=None, encoding=None, errors=None, text=None, umask=-1, pipesize=-1,
                 process_group=None):
        s = core.CURRENT
        if s is None or not s.active or s.cur is None:
            raise OSError(errno.EPERM, 'no processes outside a simulation')
        self._sim = s
        self._owner = s.cur
        s.point('spawn')
        self.args = args
        self.shell = shell
        self.returncode = None
        self.pid = 5000 + len(STARTED)
        k = s.fault('proc.spawn')
        if k:
            raise OSError(getattr(errno, k), os.strerror(getattr(errno, k)))
        if shell and not isinstance(args, (str, bytes)):
            args = list(args)
            if len(args) > 1:
                args = args[:1]
            args = args[0]
        self.command = os.fsdecode(args) if isinstance(args, (str, bytes, os.PathLike)) else \
            [os.fsdecode(a) for a in args]
        if isinstance(self.command, list) and len(self.command) == 3 and self.command[1] == '-c' and \
                self.command[0].rsplit('/', 1)[-1] in ('sh', 'bash', 'dash'):
            self.command, self.shell = self.command[2], True
        if not self.shell and ' ' in (self.command if isinstance(self.command, str) else self.command[0]):
            # the file name of a program, which there is not
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), str(args))
        STARTED.append(self)
        s.log('spawn', self.pid, str(self.command)[:200])
        self.steps = list(PROGRAM[0](self))
        textm = bool(text or universal_newlines or encoding or errors)
        cap = getattr(s, 'pipe_cap', 65536)
        self._pipes = {}
        self._sinks = {}
        self.stdin = Writer(self) if stdin == subprocess.PIPE else None

        def sink(name, spec):
            if spec == subprocess.PIPE:
                p = Pipe(s, cap)
                self._pipes[name] = p
                self._sinks[name] = p
                return Reader(self, p, textm, encoding, errors)
            if spec is None or spec == subprocess.DEVNULL:
                self._sinks[name] = None
            elif spec == subprocess.STDOUT and name == 'err':
                self._sinks[name] = self._sinks['out']
            else:
                fd = spec if isinstance(spec, int) else spec.fileno()
                self._sinks[name] = lambda b: fs.O.write(fd, b)
            return None
        self.stdout = sink('out', stdout)
        self.stderr = sink('err', stderr)
        self._text = textm
        self._pos = 0
        self._off = 0
        self._done = None
        self._waiting = False
        s.at(0.0005, self._run, 'child')

    def _enter(self):
        s = self._sim
        if core.CURRENT is not s or not s.active or self._owner.dead:
            raise core.SimCrash('dead')
        s.point('proc')
        return s

    # -- the child ---------------------------------------------------------
    def _run(self):
        s = self._sim
        while self._pos < len(self.steps):
            st = self.steps[self._pos]
            if st[0] == 'sleep':
                self._pos += 1
                s.at(st[1], self._run, 'child')
                return
            if st[0] == 'exit':
                self._finish(st[1])
                return
            sk = self._sinks[st[0]]
            data = st[1][self._off:]
            if sk is None or not data:
                self._pos += 1
                self._off = 0
                continue
            if callable(sk):
                sk(data)
                self._pos += 1
                self._off = 0
                continue
            if sk.reader_closed:
                self._finish(-13)
                return
            room = sk.cap - len(sk.buf)
            if room <= 0:
                self._waiting = True
                return
            n = min(room, len(data), 8192)
            sk.buf += data[:n]
            self._off += n
            if self._off >= len(st[1]):
                self._pos += 1
                self._off = 0
            s.at(0.0002, self._run, 'child')
            return
        self._finish(0)

    def _poke(self):
        if self._waiting:
            self._waiting = False
            self._sim.at(0.0001, self._run, 'child')

    def _finish(self, code):
        if self._done is None:
            self._done = code
            self._sim.log('child', self.pid, 'exit', code)
            for p in self._pipes.values():
                p.eof = True

    # -- the parent --------------------------------------------------------
    def poll(self):
        self._enter()
        if self.returncode is None and self._done is not None:
            self.returncode = self._done
        return self.returncode

    def wait(self, timeout=None):
        s = self._enter()
        if not s.block(lambda: self._done is not None, timeout, 'wait for child'):
            raise subprocess.TimeoutExpired(self.args, timeout)
        self.returncode = self._done
        return self.returncode

    def communicate(self, input=None, timeout=None):
        s = self._enter()
        t_end = None if timeout is None else s.now + timeout
        rd = [r for r in (self.stdout, self.stderr) if r is not None]
        while True:
            live = [r for r in rd if not (r.pipe.eof and not r.pipe.buf)]
            if not live:
                break
            left = None if t_end is None else t_end - s.now
            if not s.block(lambda: any(r.pipe.buf or r.pipe.eof for r in live), left, 'communicate'):
                raise subprocess.TimeoutExpired(self.args, timeout)
            for r in live:
                r.pend += bytes(r.pipe.buf)
                r.pipe.buf.clear()
            self._poke()
        out = []
        for r in (self.stdout, self.stderr):
            if r is None:
                out.append(None)
                continue
            d, r.pend = r.pend, b''
            out.append(r._cv(d))
            r.closed = True
        self.wait(None if t_end is None else max(0.0, t_end - s.now))
        return tuple(out)

    def send_signal(self, sig):
        if self._done is None:
            self._finish(-int(sig))

    def kill(self):
        self.send_signal(9)

    def terminate(self):
        self.send_signal(15)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for f in (self.stdout, self.stderr, self.stdin):
            if f is not None and not f.closed:
                f.close()
        self.wait()


class ArgvShell(shell.Shell):
    """Parses a command line as sh would and records the commands in it."""

    def __init__(self, proc, calls):
        super().__init__(proc)
        self.calls = calls

    def simple(self, t, inp, out, err):
        _, words, reds = t
        args = []
        for w in words:
            args += yield from self.expand(w)
        self.calls.append((args, bool(reds)))
        self.status = 0


class _P:
    def __init__(self, sim, vfs):
        self.sim, self.vfs, self.home, self.label = sim, vfs, '/home/u', 'sh'
        self.out = self.err = lambda b: None


def commands(sim, vfs, popen):
    """The commands (argument lists) a Popen would execute."""
    if isinstance(popen.command, list):
        return [(popen.command, False)]
    if not popen.shell:
        return [([popen.command], False)]
    calls = []
    sub = []

    class Sh(ArgvShell):
        def run(self, text, out=None, err=None):
            return super().run(text, out, err)
    sh = Sh(_P(sim, vfs), calls)
    g = sh.run(popen.command)
    try:
        while True:
            next(g)
    except StopIteration as e:
        if e.value == 2 and not calls:
            return [(['<syntax error>'], False)]
    return calls


def install():
    subprocess.Popen = FakePopen
