"""SSH seam: paramiko's client classes are replaced by a simulated connection
to hosts that run sim.shell and an scp server over a Vfs.

A session's channels carry ordered messages with latency; remote programs run
as event-driven generators, so their effects interleave with everything else.
Faults: refused connection or authentication, refused channels or requests,
programs that fail, are killed or are slow, full disks, lost answers, broken
connections (a program already accepted may still run)."""
import errno
import os
import posixpath
import socket as _socket

from . import core, shell

SERVERS = {}
CONNS = []
SCP_REPLY = {'scp.reply': ['err1', 'err2', 'garbage', 'coalesce', 'stderr', 'silent', 'close'], 'scp.end': ['exit', 'late', 'hang', 'signal', 'eofhang']}
CATS = {
    'ssh.connect': ['refused', 'auth', 'timeout', 'proto'],
    'ssh.channel': ['refused', 'drop'],
    'ssh.exec': ['rejected', 'drop', 'noshell'],
    'ssh.cmd': ['slow', 'dropbefore', 'dropafter'],
    'ssh.prog': ['fail', 'killed', 'slow'],
    'ssh.write': ['full'],
    'ssh.open_w': ['denied'],
    'ssh.c2s': ['drop', 'lost', 'cut'],
    'ssh.s2c': ['drop', 'slow', 'cut'],
}
SEQ = [0]


def reset():
    SERVERS.clear()
    CONNS.clear()
    SEQ[0] = 0


def _sim():
    s = core.CURRENT
    if s is None or not s.active:
        raise core.SimCrash('run over')
    return s


class SshServer:
    def __init__(self, sim, host, vfs, home='/home/u', program=None):
        self.sim, self.host, self.vfs, self.home = sim, host, vfs, home
        vfs.makedirs(home)
        self.program = program          # fn(proc, text) -> generator, replaces the shell
        self.nmk = 0
        self.procs = []
        SERVERS[host] = self
        self.account = None     # (user, file of the key) it lets in, None: anybody


class Conn:
    def __init__(self, sim, server, owner):
        self.sim, self.server, self.owner = sim, server, owner
        SEQ[0] += 1
        self.id = SEQ[0]
        self.up = True          # client side believes it is up
        self.cut = False        # nothing travels any more
        self.channels = []
        self.lat = getattr(sim, 'latency', 0.002)
        CONNS.append(self)

    def drop(self, quiet=False):
        """The connection breaks."""
        if self.cut:
            return
        self.cut = True
        sim = self.sim
        sim.log('ssh', f'conn{self.id} broken')

        def client():
            self.up = False
            for c in self.channels:
                c.lost()

        def server():
            for c in self.channels:
                if c.proc is not None:
                    c.proc.hangup()
        if quiet:
            sim.at(self.lat, client, 'ssh-lost')
        else:
            client()
        sim.at(self.lat * 1.5, server, 'ssh-srv-lost')

    def close(self):
        """Client closes in good order."""
        if self.cut:
            self.up = False
            return
        self.cut = True
        self.up = False
        for c in self.channels:
            c.lost()

        def server():
            for c in self.channels:
                if c.proc is not None:
                    c.proc.hangup()
        t = max([self.sim.now + self.lat] + [c.last_c2s for c in self.channels])
        self.sim.at(t - self.sim.now, server, 'ssh-close')


def on_kill(actor):
    for c in CONNS:
        if c.owner is actor and not c.cut:
            if c.sim.ch.chance(0.5):
                c.close()
            else:
                c.drop()


class ScpStop(Exception):
    pass


class Proc:
    """A remote process started by an exec request."""

    def __init__(self, chan, text):
        self.chan = chan
        self.sim = chan.sim
        self.server = chan.conn.server
        self.vfs = self.server.vfs
        self.home = self.server.home
        self.text = text
        self.label = f'c{chan.conn.id}.{chan.id}'
        self.inbuf = bytearray()
        self.ineof = False
        self.hung = False
        self.begun = False
        self.done = False
        self.waiting = None
        self.gen = None
        self.drop_after = False
        self.skip = False
        self.server.procs.append(self)

    def out(self, b):
        if not self.hung:
            self.chan.s2c('out', bytes(b))

    def err(self, b):
        if not self.hung:
            self.chan.s2c('err', bytes(b))

    def begin(self):
        if self.skip:
            return
        self.begun = True
        self.sim.log('ssh', self.label, 'exec', self.text[:500])
        if self.server.program is not None:
            self.gen = self.server.program(self, self.text)
        else:
            self.gen = shell.Shell(self).run(self.text)
        self.step()

    def step(self):
        if self.done:
            return
        self.waiting = None
        try:
            y = next(self.gen)
        except StopIteration as e:
            return self.finish(e.value or 0)
        except shell.Killed:
            return self.finish(None)
        except core.SimUnsupported:
            raise
        if callable(y):
            self.waiting = y
            self.poke()
        else:
            self.sim.at(y, self.step, 'proc')

    def poke(self):
        if self.waiting is not None and self.waiting():
            self.waiting = None
            self.sim.at(0.0001, self.step, 'proc')

    def feed(self, data):
        self.inbuf += data
        self.poke()

    def feed_eof(self):
        self.ineof = True
        self.poke()

    def hangup(self):
        """The session is gone: standard input ends, output goes nowhere."""
        if self.done:
            return
        self.hung = True
        self.ineof = True
        if not self.begun and self.sim.ch.chance(0.4):
            self.skip = True
        self.poke()

    def finish(self, status):
        self.done = True
        self.sim.log('ssh', self.label, 'exit', status)
        if self.drop_after:
            self.chan.conn.drop(quiet=True)
            return
        if not self.hung:
            self.chan.s2c('exit', status)

    # input helpers (generators)
    def read_exact(self, n):
        while len(self.inbuf) < n and not self.ineof:
            yield lambda: len(self.inbuf) > 0 and len(self.inbuf) >= n or self.ineof
        d = bytes(self.inbuf[:n])
        del self.inbuf[:n]
        return d

    def read_some(self, n):
        if not self.inbuf and not self.ineof:
            yield lambda: bool(self.inbuf) or self.ineof
        d = bytes(self.inbuf[:n])
        del self.inbuf[:n]
        return d

    def read_line(self):
        out = b''
        while True:
            d = yield from self.read_exact(1)
            if not d:
                return out
            out += d
            if d == b'\n' or len(out) > 65536:
                return out

    def read_all(self):
        if not self.ineof:
            yield lambda: self.ineof
        d = bytes(self.inbuf)
        self.inbuf.clear()
        return d

    # -- the scp program ---------------------------------------------------
    def scp(self, sh, args, err):
        o = sh.opts(args, 'tfrpdvqB', err)
        if o is None:
            return 1
        got, _, rest = o
        if 't' in got:
            if len(rest) != 1:
                err.write(b'usage: scp -t path\n')
                return 1
            return (yield from self.sink(sh, got, rest[0]))
        if 'f' in got:
            return (yield from self.source(sh, got, rest))
        err.write(b'usage: scp\n')
        return 1

    def reply(self, b):
        """Answer of the scp sink; a planned fault may change it."""
        k = self.sim.fault('scp.reply')
        if k is None:
            return self.out(b)
        if k == 'coalesce':
            self.out(b'\x00\x01scp: late error\n')
        elif k == 'err1':
            self.out(b'\x01scp: denied\n')
        elif k == 'err2':
            self.out(b'\x02scp: fatal\n')
        elif k == 'garbage':
            self.out(b'hello\n')
        elif k == 'stderr':
            self.err(b'scp: something is wrong\n')
        elif k == 'silent':
            self.mute = True
        raise ScpStop(k)

    def sink(self, sh, got, target):
        self.ended = False
        base = sh.path(target)
        try:
            if ('d' in got or target.endswith('/')) and not self.vfs.isdir(base):
                self.reply(b'\x01scp: ' + target.encode('utf-8', 'surrogateescape') + b': No such file or directory\n')
                return 1
            st = yield from self._sink(got, base, True)
            k = self.sim.fault('scp.end') if st == 0 else None
            if st and self.sim.ch.chance(0.2):
                st = 0          # reported, but not in the status
            if k in ('hang', 'eofhang'):
                if k == 'eofhang':          # its output ends, it does not
                    self.chan.s2c('eof', None)
                yield lambda: self.hung
            elif k == 'signal':
                raise shell.Killed()
            elif k:
                if k == 'late':
                    self.out(b'\x01scp: set times: denied\n')
                st = 1
        except ScpStop as e:
            if str(e) == 'silent':
                yield lambda: self.hung
            st = self.sim.ch.weighted([(3, 1), (2, 0)])      # the status need not tell
        return st

    def _sink(self, got, base, top):
        vfs = self.vfs
        sim = self.sim
        self.reply(b'\x00')
        times = None
        errs = 0

        def bad(path, why):
            self.reply(b'\x01scp: ' + path.encode('utf-8', 'surrogateescape') + b': ' + why.encode() + b'\n')
        while True:
            ln = yield from self.read_line()
            if not ln:
                self.ended = True
                return 1 if errs else 0
            if not ln.endswith(b'\n'):
                return 1
            code, body = ln[:1], ln[1:-1]
            if code in (b'\x01', b'\x02'):
                errs += 1
                if code == b'\x02':
                    return 1
                continue
            if code == b'E':
                self.reply(b'\x00')
                return 1 if errs else 0
            if code == b'T':
                try:
                    a = body.split(b' ')
                    times = (int(a[2]), int(a[0]))
                except (ValueError, IndexError):
                    self.reply(b'\x02scp: protocol error: bad time\n')
                    return 1
                self.reply(b'\x00')
                continue
            if code not in (b'C', b'D'):
                self.reply(b'\x02scp: protocol error: ' + ln[:40].rstrip(b'\n') + b'\n')
                return 1
            try:
                m, n, name = body.split(b' ', 2)
                mode, size = int(m, 8), int(n)
                if len(m) != 4 or size < 0:
                    raise ValueError
            except ValueError:
                self.reply(b'\x02scp: protocol error: bad mode or size\n')
                return 1
            nm = name.decode('utf-8', 'surrogateescape')
            if nm in ('', '.', '..') or '/' in nm:
                self.reply(b'\x02scp: error: unexpected filename: ' + name + b'\n')
                return 1
            np = posixpath.join(base, nm) if vfs.isdir(base) else base
            yield 0.0002
            if code == b'D':
                if 'r' not in got:
                    self.reply(b'\x02scp: received directory without -r\n')
                    return 1
                t, times = times, None
                if vfs.exists(np):
                    if not vfs.isdir(np):
                        bad(np, 'Not a directory')
                        errs += 1
                        continue
                else:
                    try:
                        if sim.fault('ssh.open_w'):
                            raise OSError(errno.EACCES, 'Permission denied')
                        vfs.mkdir(np)
                    except OSError as e:
                        bad(np, e.strerror)
                        errs += 1
                        continue
                vfs.modes[np] = mode
                r = yield from self._sink(got, np, False)
                if r:
                    errs += 1
                if self.ended:      # the stream ended inside the directory
                    return 1
                if t is not None:
                    vfs.times[np] = t
                continue
            try:
                if sim.fault('ssh.open_w'):
                    raise OSError(errno.EACCES, 'Permission denied')
                if vfs.isdir(np):
                    raise OSError(errno.EISDIR, 'Is a directory')
                if vfs.full and not vfs.exists(np):
                    raise OSError(errno.ENOSPC, 'No space left on device')
                vfs.create(np)
                vfs.modes[np] = mode
                vfs.times.pop(np, None)
            except OSError as e:
                bad(np, e.strerror)
                errs += 1
                continue
            self.reply(b'\x00')
            left = size
            werr = None
            while left:
                d = yield from self.read_some(min(left, 4096))
                if not d:
                    self.reply(b'\x01scp: dropped connection\n')
                    return 1
                left -= len(d)
                if werr is None:
                    try:
                        if sim.fault('ssh.write'):
                            if len(d) > 1:
                                vfs.append(np, d[:len(d) // 2])
                            vfs.full = True
                            raise OSError(errno.ENOSPC, 'No space left on device')
                        vfs.append(np, d)
                    except OSError as e:
                        werr = e
                        errs += 1
                if len(self.inbuf) == 0 or self.sim.ch.chance(0.02):
                    yield 0.0002
            d = yield from self.read_exact(1)
            if not d:
                return 1
            if d != b'\x00':
                ln = yield from self.read_line()
                if d == b'\x02':
                    return 1
                if d != b'\x01':
                    self.reply(b'\x02scp: protocol error: unexpected data\n')
                    return 1
                errs += 1       # the sender had a read error
                self.reply(b'\x00')
                continue
            if times is not None:
                vfs.times[np] = times
                times = None
            if werr is not None:
                bad(np, werr.strerror)
            else:
                self.reply(b'\x00')

    def source(self, sh, got, paths):
        errs = 0
        d = yield from self.read_exact(1)
        if d != b'\x00':
            return 1
        for p in paths:
            r = yield from self._source(got, sh.path(p), p)
            if r is None:
                return 1
            errs += r
        return 1 if errs and self.sim.ch.chance(0.8) else 0

    def ack(self):
        d = yield from self.read_exact(1)
        if d == b'\x00':
            return True
        if d == b'\x01':
            yield from self.read_line()
        return False

    def _source(self, got, path, shown):
        vfs = self.vfs
        name = posixpath.basename(path) or '/'
        if not vfs.exists(path) or self.sim.fault('ssh.open_w'):
            self.out(b'\x01scp: ' + shown.encode('utf-8', 'surrogateescape') + b': No such file or directory\n')
            return 1
        isdir = vfs.isdir(path)
        if isdir and 'r' not in got:
            self.out(b'\x01scp: ' + shown.encode('utf-8', 'surrogateescape') + b': not a regular file\n')
            return 1
        if 'p' in got:
            t = vfs.times.get(path, (1600000000, 1600000001))
            self.out(b'T%d 0 %d 0\n' % (t[1], t[0]))
            if not (yield from self.ack()):
                return None
        nb = name.encode('utf-8', 'surrogateescape')
        if isdir:
            self.out(b'D%04o 0 %s\n' % (vfs.modes.get(path, 0o755), nb))
            if not (yield from self.ack()):
                return None
            errs = 0
            for n in vfs.listdir(path):
                r = yield from self._source(got, posixpath.join(path, n), n)
                if r is None:
                    return None
                errs += r
            self.out(b'E\n')
            if not (yield from self.ack()):
                return None
            return errs
        data = vfs.nodes[path]
        self.out(b'C%04o %d %s\n' % (vfs.modes.get(path, 0o644), len(data), nb))
        if not (yield from self.ack()):
            return None
        pos = 0
        rerr = False
        while pos < len(data):
            chunk = data[pos:pos + 8192]
            k = self.sim.fault('ssh.read')
            if k:
                rerr = True
            if rerr:
                chunk = b'\x00' * len(chunk)
            self.out(chunk)
            pos += len(chunk)
            yield 0.0002
        if rerr:
            self.out(b'\x01scp: ' + nb + b': Input/output error\n')
        else:
            self.out(b'\x00')
        if not (yield from self.ack()):
            return None
        return 1 if rerr else 0


class _Event:
    """channel.status_event / event, the part of threading.Event in use."""

    def __init__(self, chan, cond):
        self.chan, self.cond = chan, cond

    def is_set(self):
        return bool(self.cond())

    def wait(self, timeout=None):
        s = self.chan._enter()
        return s.block(lambda: self.cond(), timeout, 'event')


class Channel:
    def __init__(self, conn):
        self.conn = conn
        self.sim = conn.sim
        self.id = len(conn.channels)
        conn.channels.append(self)
        self.transport = SimTransport(conn)
        self.buf = bytearray()
        self.ebuf = bytearray()
        self.eof_received = False
        self.closed = False
        self.exit_status = -1
        self.have_status = False
        self.timeout = None
        self.proc = None
        self.used = False
        self.eof_sent = False
        self.last_c2s = 0.0
        self.last_s2c = 0.0
        self.combine = False
        self.status_event = _Event(self, lambda: self.have_status or self.closed)

    # -- plumbing ----------------------------------------------------------
    def _enter(self):
        s = _sim()
        if s is not self.sim:
            raise core.SimCrash('run over')
        if self.conn.owner is not None and self.conn.owner.dead:
            raise core.SimCrash('dead')
        s.point('ssh')
        return s

    def lost(self):
        self.closed = True
        self.eof_received = True

    def s2c(self, kind, val):
        """Message from the server."""
        sim = self.sim
        if self.conn.cut or self.closed:
            return
        k = sim.fault('ssh.s2c') if kind != 'err' else None
        extra = 0.0
        if k == 'drop':
            self.conn.drop(quiet=True)
            return
        if k == 'slow':
            extra = 15.0
        if k == 'cut' and kind == 'out':
            val = val[:len(val) // 2]
        parts = [val]
        if kind in ('out', 'err'):
            if not val:
                if k == 'cut':
                    self.conn.drop(quiet=True)
                return
            frag = getattr(sim, 'frag', 0)
            if frag and len(val) > 1 and sim.ch.chance(frag):
                i = 1 + sim.ch.draw(min(len(val) - 1, 64))
                parts = [val[:i], val[i:]]
        for p in parts:
            t = max(sim.now + self.conn.lat + extra, self.last_s2c + 1e-6)
            self.last_s2c = t

            def f(p=p):
                if self.closed:
                    return
                if kind == 'out':
                    self.buf.extend(p)
                elif kind == 'err':
                    (self.buf if self.combine else self.ebuf).extend(p)
                elif kind == 'exit':
                    if p is not None:       # else it died of a signal
                        self.exit_status = p
                        self.have_status = True
                    self.eof_received = True
                    self.closed = True
                elif kind == 'eof':
                    self.eof_received = True
            sim.at(t - sim.now, f, 'ssh-s2c')
        if k == 'cut':
            self.conn.drop(quiet=True)

    # -- API ---------------------------------------------------------------
    def exec_command(self, command):
        s = self._enter()
        if isinstance(command, bytes):
            command = command.decode('utf-8', 'surrogateescape')
        if self.closed or not self.conn.up or self.used:
            raise _exc('SSHException')('Channel closed.' if not self.closed else 'Channel is not open')
        self.used = True
        k = s.fault('ssh.exec')
        if k == 'rejected':
            s.sleep(2 * self.conn.lat)
            self.closed = True
            raise _exc('SSHException')('Channel closed.')
        if k == 'drop':
            self.conn.drop()
            raise _exc('SSHException')('Channel closed.')
        if k == 'noshell':
            command = 'exit 254'
        self.proc = Proc(self, command)
        delay = self.conn.lat + getattr(s, 'start_delay', 0.0) * s.ch.pick([0, 0, 1, 3])
        c = s.fault('ssh.cmd')
        if c == 'slow':
            delay += 15.0
        if c == 'dropbefore':
            self.proc.skip = True
            self.conn.drop(quiet=True)
        if c == 'dropafter':
            self.proc.drop_after = True
        s.at(delay, self.proc.begin, 'ssh-begin')
        ok = s.block(lambda: self.closed, 2 * self.conn.lat, 'exec request')
        if ok and not self.have_status and not self.conn.up:
            raise _exc('SSHException')('Channel closed.')

    def invoke_shell(self, *a, **kw):
        self.sim.unsupported('invoke_shell')

    def get_pty(self, *a, **kw):
        pass

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, b):
        self.timeout = None if b else 0.0

    def set_combine_stderr(self, v):
        old, self.combine = self.combine, v
        return old

    def get_transport(self):
        return self.transport

    def get_id(self):
        return self.id

    getName = get_name = lambda self: 'chan'

    def recv_ready(self):
        self._enter()
        return len(self.buf) > 0

    def recv_stderr_ready(self):
        self._enter()
        return len(self.ebuf) > 0

    def send_ready(self):
        self._enter()
        return not self.closed

    def _recv(self, buf, n):
        s = self._enter()
        if not s.block(lambda: buf or self.eof_received or self.closed, self.timeout, 'ssh recv'):
            raise _socket.timeout('timed out')
        d = bytes(buf[:n])
        del buf[:n]
        return d

    def recv(self, nbytes):
        return self._recv(self.buf, nbytes)

    def recv_stderr(self, nbytes):
        return self._recv(self.ebuf, nbytes)

    def send(self, data):
        # like a socket, it may take only a part (what the window has room for)
        if len(data) > 1 and self.sim.ch.chance(getattr(self.sim, 'short_io', 0)):
            data = data[:1 + self.sim.ch.draw(len(data) - 1)]
        self.sendall(data)
        return len(data)

    def sendall(self, data):
        s = self._enter()
        if isinstance(data, str):
            data = data.encode('utf-8')
        data = bytes(data)
        if not data:
            return
        if self.closed or self.eof_sent or not self.conn.up:
            raise OSError('Socket is closed')
        k = s.fault('ssh.c2s')
        if k == 'drop':
            self.conn.drop()
            raise OSError('Socket is closed')
        if k == 'lost':
            self.conn.drop(quiet=True)
            return
        if k == 'cut':
            self._deliver(data[:len(data) // 2])
            self.conn.drop(quiet=True)
            return
        self._deliver(data)

    def _deliver(self, data):
        if self.conn.cut or not data:
            return
        t = max(self.sim.now + self.conn.lat, self.last_c2s + 1e-6)
        self.last_c2s = t
        self.sim.at(t - self.sim.now, lambda: self.proc.feed(data) if self.proc else None, 'ssh-c2s')

    def sendall_stderr(self, s):
        self.sim.unsupported('sendall_stderr')

    def shutdown(self, how):
        if how in (1, 2):
            self.shutdown_write()

    def shutdown_read(self):
        pass

    def shutdown_write(self):
        self._enter()
        if self.eof_sent or self.closed:
            return
        self.eof_sent = True
        t = max(self.sim.now + self.conn.lat, self.last_c2s + 1e-6)
        self.last_c2s = t
        if not self.conn.cut:
            self.sim.at(t - self.sim.now, lambda: self.proc.feed_eof() if self.proc else None, 'ssh-eof')

    def recv_exit_status(self):
        s = self._enter()
        s.block(lambda: self.have_status or self.closed, None, 'exit status')
        return self.exit_status

    def exit_status_ready(self):
        self._enter()
        return self.have_status or self.closed

    def close(self):
        s = core.CURRENT
        if self.closed or s is not self.sim or not s.active:
            return
        if self.conn.owner is not None and self.conn.owner.dead:
            return
        self.closed = True
        self.eof_received = True
        if self.conn.cut:
            return
        t = max(self.sim.now + self.conn.lat, self.last_c2s + 1e-6)
        self.last_c2s = t
        self.sim.at(t - self.sim.now, lambda: self.proc.hangup() if self.proc else None, 'ssh-chclose')

    def makefile(self, mode='r', bufsize=-1):
        return File(self, mode, False)

    def makefile_stderr(self, mode='r', bufsize=-1):
        return File(self, mode, True)

    def makefile_stdin(self, mode='w', bufsize=-1):
        f = File(self, mode, False)
        f.stdin = True
        return f

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class File:
    """paramiko ChannelFile: bytes unless opened without 'b' for readline."""

    def __init__(self, chan, mode, stderr):
        self.channel, self.mode, self.stderr = chan, mode, stderr
        self.stdin = False
        self.pend = b''
        self.closed = False

    def _more(self):
        d = self.channel.recv_stderr(8192) if self.stderr else self.channel.recv(8192)
        self.pend += d
        return bool(d)

    def read(self, size=None):
        if size is None or size < 0:
            while self._more():
                pass
            d, self.pend = self.pend, b''
            return d
        while len(self.pend) < size and self._more():
            pass
        d, self.pend = self.pend[:size], self.pend[size:]
        return d

    def readline(self, size=None):
        while b'\n' not in self.pend and self._more():
            pass
        i = self.pend.find(b'\n') + 1 or len(self.pend)
        d, self.pend = self.pend[:i], self.pend[i:]
        return d if 'b' in self.mode else d.decode('utf-8')

    def readlines(self, sizehint=None):
        out = []
        while True:
            ln = self.readline()
            if not ln:
                return out
            out.append(ln)

    def __iter__(self):
        return iter(self.readlines())

    def write(self, data):
        self.channel.sendall(data)

    def writelines(self, seq):
        for x in seq:
            self.write(x)

    def flush(self):
        pass

    def close(self):
        self.closed = True
        if self.stdin:
            self.channel.shutdown_write()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class SimTransport:
    def __init__(self, conn):
        self.conn = conn

    def _enter(self):
        s = _sim()
        if self.conn.owner is not None and self.conn.owner.dead:
            raise core.SimCrash('dead')
        s.point('ssh')
        return s

    def open_session(self, window_size=None, max_packet_size=None, timeout=None):
        s = self._enter()
        if not self.conn.up:
            raise _exc('SSHException')('SSH session not active')
        k = s.fault('ssh.channel')
        if k == 'refused':
            s.sleep(2 * self.conn.lat)
            raise _exc('ChannelException')(1, 'Administratively prohibited')
        if k == 'drop':
            self.conn.drop()
            raise _exc('SSHException')('SSH session not active')
        s.sleep(2 * self.conn.lat)
        if not self.conn.up:
            raise EOFError()
        return Channel(self.conn)

    open_channel = None

    def is_active(self):
        return self.conn.up

    is_alive = is_active

    def is_authenticated(self):
        return self.conn.up

    def set_keepalive(self, n):
        pass

    def use_compression(self, *a):
        pass

    def getpeername(self):
        return (self.conn.server.host, 22)

    def close(self):
        s = core.CURRENT
        if s is self.conn.sim and s.active and not (self.conn.owner is not None and self.conn.owner.dead):
            self.conn.close()


class SimSSHClient:
    def __init__(self):
        self._conn = None

    def load_system_host_keys(self, filename=None):
        pass

    def load_host_keys(self, filename):
        pass

    def set_missing_host_key_policy(self, policy):
        pass

    def get_host_keys(self):
        return {}

    def connect(self, hostname, port=22, username=None, password=None, pkey=None, key_filename=None, timeout=None,
                **kw):
        s = _sim()
        s.point('ssh')
        s.log('ssh connect', hostname, username)
        k = s.fault('ssh.connect')
        srv = SERVERS.get(hostname)
        if k == 'refused':
            raise _exc('NoValidConnectionsError')({('10.0.0.1', 22): ConnectionRefusedError()})
        if k == 'timeout':
            s.sleep(timeout or 60.0)
            raise TimeoutError(errno.ETIMEDOUT, 'Connection timed out')
        if srv is None:
            raise _socket.gaierror(-2, 'Name or service not known')
        if k == 'auth':
            raise _exc('AuthenticationException')('Authentication failed.')
        if k == 'proto':
            raise _exc('SSHException')('Error reading SSH protocol banner')
        keys = [key_filename] if isinstance(key_filename, str) else list(key_filename or ())
        if srv.account is not None and (username != srv.account[0] or pkey is None and srv.account[1] not in keys):
            raise _exc('AuthenticationException')('Authentication failed.')
        self._conn = Conn(s, srv, s.cur)
        s.sleep(4 * self._conn.lat)

    def get_transport(self):
        return SimTransport(self._conn) if self._conn is not None else None

    def exec_command(self, command, bufsize=-1, timeout=None, get_pty=False, environment=None):
        if self._conn is None or not self._conn.up:
            raise _exc('SSHException')('SSH session not active')
        chan = SimTransport(self._conn).open_session(timeout=timeout)
        chan.settimeout(timeout)
        if environment:
            _sim().unsupported('environment')
        chan.exec_command(command)
        return chan.makefile_stdin('wb', bufsize), chan.makefile('r', bufsize), chan.makefile_stderr('r', bufsize)

    def open_sftp(self):
        _sim().unsupported('sftp')

    def invoke_shell(self, *a, **kw):
        _sim().unsupported('invoke_shell')

    def close(self):
        if self._conn is not None:
            SimTransport(self._conn).close()
            self._conn = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def _exc(name):
    import paramiko
    import paramiko.ssh_exception as x
    return getattr(x, name, None) or getattr(paramiko, name)


class _NoTransport:
    def __init__(self, *a, **kw):
        _sim().unsupported('paramiko.Transport')


def install():
    import paramiko
    import paramiko.client
    paramiko.SSHClient = SimSSHClient
    paramiko.client.SSHClient = SimSSHClient
    paramiko.Transport = _NoTransport
