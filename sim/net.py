"""Network seam: TCP connections as seen by the Python standard library.

Client code (smtplib, ftplib, urllib) is real; ``socket.create_connection``
gives it a SimSocket.  Servers are event-driven Python objects.  Every message
has a latency, replies may be fragmented, and planned faults refuse, stall,
cut or reset connections."""
import errno
import io
import os
import socket as _socket
import ssl as _ssl

from . import core


class O:
    pass


HOSTS = {}        # (host, port) or host -> server factory (fn(conn) -> handler)
SOCKS = []
SEQ = [0]

CATS = {
    'net.connect': ['refused', 'dns', 'timeout', 'unreachable'],
    'net.c2s': ['reset', 'lost', 'cut', 'resetlate'],
    'net.s2c': ['reset', 'cut', 'eof', 'slow'],
}


def reset():
    HOSTS.clear()
    SOCKS.clear()
    SEQ[0] = 0


class Conn:
    """Both directions of one simulated TCP connection."""

    def __init__(self, sim, host, port, owner):
        self.sim = sim
        self.host, self.port = host, port
        self.owner = owner
        SEQ[0] += 1
        self.id = SEQ[0]
        self.rbuf = bytearray()      # towards the client
        self.reof = False
        self.rerr = None
        self.werr = None
        self.broken = False          # nothing travels any more
        self.client_closed = False
        self.server_closed = False
        self.last_c2s = 0.0
        self.last_s2c = 0.0
        self.handler = None
        self.lat = getattr(sim, 'latency', 0.002)
        self.label = f'{host}:{port}#{self.id}'
        self.sent = 0

    # client -> server
    def c2s(self, data):
        sim = self.sim
        if self.broken or self.server_closed:
            if self.broken or self.rerr:
                raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        k = sim.fault('net.c2s', self.host)
        if k == 'reset':
            self.kill()
            raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
        if k == 'cut':        # part of the data arrives, then the connection dies
            self._deliver(data[:len(data) // 2])
            self.kill(after=True)
            raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
        if k == 'lost':       # accepted by the kernel, never arrives
            self.kill(quiet=True)
            return
        if k == 'resetlate':  # arrives, but the connection dies before any answer
            self._deliver(data)
            self.kill(quiet=True, after=True)
            return
        self._deliver(data)

    def _deliver(self, data):
        if not data:
            return
        t = max(self.sim.now + self.lat, self.last_c2s + 1e-6)
        self.last_c2s = t
        self.sim.at(t - self.sim.now, lambda: self._arrive(bytes(data)), 'c2s')

    def _arrive(self, data):
        if self.server_closed:
            return
        self.sent += len(data)
        self.handler.on_data(data)

    def fin(self):
        """Client closed its end."""
        if self.client_closed:
            return
        self.client_closed = True
        t = max(self.sim.now + self.lat, self.last_c2s + 1e-6)
        self.last_c2s = t

        def f():
            if not self.server_closed:
                self.handler.on_eof()
        self.sim.at(t - self.sim.now, f, 'fin')

    # server -> client
    def reply(self, data, fault=True):
        sim = self.sim
        if self.broken or self.client_closed or self.server_closed:
            return False
        k = sim.fault('net.s2c', self.host) if fault else None
        extra = 0.0
        if k == 'reset':
            self.kill(quiet=True)
            return False
        if k == 'eof':
            self.close()
            return False
        if k == 'cut':
            data = data[:len(data) // 2]
            self._send(data, 0.0)
            self.kill(quiet=True, after=True)
            return False
        if k == 'slow':
            extra = 40.0
        self._send(data, extra)
        return True

    def _send(self, data, extra):
        sim = self.sim
        frag = getattr(sim, 'frag', 0)
        parts = [data]
        if frag and len(data) > 1 and sim.ch.chance(frag):
            i = 1 + sim.ch.draw(len(data) - 1)
            parts = [data[:i], data[i:]]
        for p in parts:
            t = max(sim.now + self.lat + extra, self.last_s2c + 1e-6)
            self.last_s2c = t

            def f(p=p):
                if not self.rerr:
                    self.rbuf += p
            sim.at(t - sim.now, f, 's2c')

    def close(self):
        """Server closes: FIN after what it has sent."""
        if self.server_closed:
            return
        self.server_closed = True
        t = max(self.sim.now + self.lat, self.last_s2c + 1e-6)
        self.last_s2c = t

        def f():
            self.reof = True
        self.sim.at(t - self.sim.now, f, 'srv-fin')

    def kill(self, quiet=False, after=False):
        """The connection breaks. The client sees a reset; the server, some
        time later, a lost connection."""
        if self.broken:
            return
        self.broken = True
        sim = self.sim
        tc = max(sim.now + self.lat, self.last_s2c + 1e-6)
        ts = max(sim.now + self.lat, self.last_c2s + 1e-6)

        def c():
            self.rerr = ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')

        def s():
            if not self.server_closed:
                self.server_closed = True
                self.handler.on_lost()
        if not quiet:
            self.rerr = ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
        else:
            sim.at(tc - sim.now, c, 'rst')
        sim.at(ts - sim.now, s, 'srv-rst')


class SimSocket:
    family = _socket.AF_INET
    type = _socket.SOCK_STREAM
    proto = 0

    def __init__(self, conn, timeout):
        self.conn = conn
        self._timeout = timeout
        self._io_refs = 0
        self._closed = False
        self._sim = conn.sim
        SOCKS.append(self)

    def _chk(self):
        s = self._sim
        if core.CURRENT is not s or not s.active:
            raise core.SimCrash('run over')
        if self.conn.owner is not None and self.conn.owner.dead:
            raise core.SimCrash('dead')
        s.point('sock')
        if self._closed:
            raise OSError(errno.EBADF, 'Bad file descriptor')

    def settimeout(self, t):
        self._timeout = t

    def gettimeout(self):
        return self._timeout

    def setblocking(self, b):
        self._timeout = None if b else 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def getpeername(self):
        return ('10.0.0.%d' % (1 + sorted(HOSTS, key=str).index(self.conn.host) if self.conn.host in HOSTS else 1),
                self.conn.port)

    def getsockname(self):
        return ('10.0.1.1', 40000 + self.conn.id)

    def fileno(self):
        return 90000 + self.conn.id

    def sendall(self, data, flags=0):
        self._chk()
        data = bytes(data)
        if not data:
            return
        c = self.conn
        if c.rerr is not None:
            raise c.rerr
        c.c2s(data)

    def send(self, data, flags=0):
        data = bytes(data)
        self._chk()
        n = len(data)
        if n > 1 and getattr(self._sim, 'short_send', 0) and self._sim.ch.chance(self._sim.short_send):
            n //= 2
        if self.conn.rerr is not None:
            raise self.conn.rerr
        self.conn.c2s(data[:n])
        return n

    def sendfile(self, f, offset=0, count=None):
        n = 0
        if offset:
            f.seek(offset)
        while True:
            d = f.read(8192 if count is None else min(8192, count - n))
            if not d:
                return n
            self.sendall(d)
            n += len(d)

    def _wait(self):
        c = self.conn
        if self._timeout == 0.0 and not (c.rbuf or c.reof or c.rerr):
            raise BlockingIOError(errno.EAGAIN, 'would block')
        if not self._sim.block(lambda: c.rbuf or c.reof or c.rerr, self._timeout,
                               'recv ' + c.label):
            raise _socket.timeout('timed out')

    def recv(self, n, flags=0):
        self._chk()
        self._wait()
        c = self.conn
        if c.rbuf:
            d = bytes(c.rbuf[:n])
            del c.rbuf[:n]
            return d
        if c.rerr is not None:
            raise c.rerr
        return b''

    def recv_into(self, buf, nbytes=0, flags=0):
        d = self.recv(nbytes or len(buf))
        buf[:len(d)] = d
        return len(d)

    def shutdown(self, how):
        self._chk()
        if how in (_socket.SHUT_WR, _socket.SHUT_RDWR):
            self.conn.fin()

    def _real_close(self):
        if self._closed:
            return
        self._closed = True
        s = self._sim
        if core.CURRENT is s and s.active and not (self.conn.owner is not None and self.conn.owner.dead):
            self.conn.fin()

    def close(self):
        self._want_close = True
        if self._io_refs <= 0:
            self._real_close()

    _want_close = False

    def _decref_socketios(self):
        if self._io_refs > 0:
            self._io_refs -= 1
        if self._want_close and self._io_refs <= 0:
            self._real_close()

    def detach(self):
        self._closed = True
        return -1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        try:
            self._real_close()
        except BaseException:
            pass

    def makefile(self, mode='r', buffering=None, *, encoding=None, errors=None, newline=None):
        writing = 'w' in mode
        reading = 'r' in mode or not writing
        binary = 'b' in mode
        raw = _socket.SocketIO(self, ('r' if reading else '') + ('w' if writing else ''))
        self._io_refs += 1
        if buffering is None or buffering < 0:
            buffering = io.DEFAULT_BUFFER_SIZE
        if buffering == 0:
            return raw
        if reading and writing:
            buf = io.BufferedRWPair(raw, raw, buffering)
        elif reading:
            buf = io.BufferedReader(raw, buffering)
        else:
            buf = io.BufferedWriter(raw, buffering)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline)
        text.mode = mode
        return text


_DEF = object()


def create_connection(address, timeout=_DEF, source_address=None, *, all_errors=False):
    s = core.CURRENT
    if s is None or not s.active:
        raise OSError(errno.ENETUNREACH, 'Network is unreachable')
    host, port = address[0], int(address[1])
    if timeout is _DEF or timeout is _socket._GLOBAL_DEFAULT_TIMEOUT:
        timeout = _socket.getdefaulttimeout()
    s.point('connect')
    s.log('connect', host, port)
    k = s.fault('net.connect', host)
    if k == 'dns':
        raise _socket.gaierror(-2, 'Name or service not known')
    fac = HOSTS.get((host, port)) or HOSTS.get(host)
    if k == 'refused':
        raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
    if k == 'unreachable':
        raise OSError(errno.EHOSTUNREACH, 'No route to host')
    if k == 'timeout':
        s.sleep(timeout if timeout is not None else 127.0)
        raise _socket.timeout('timed out') if timeout is not None else \
            TimeoutError(errno.ETIMEDOUT, 'Connection timed out')
    if fac is None:
        raise _socket.gaierror(-2, 'Name or service not known')
    c = Conn(s, host, port, s.cur)
    s.sleep(c.lat)
    h = fac(c)
    if h is None:
        raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
    c.handler = h
    sock = SimSocket(c, timeout)
    h.on_connect()
    return sock


def on_kill(actor):
    """The client process died: the kernel closes or resets its sockets."""
    for sk in SOCKS:
        c = sk.conn
        if c.owner is actor and not sk._closed and not c.broken:
            sk._closed = True
            if c.sim.ch.chance(0.3):
                c.kill(quiet=True, after=True)
            else:
                c.fin()


class Handler:
    def __init__(self, conn):
        self.conn = conn
        self.sim = conn.sim
        self.buf = b''

    def on_connect(self):
        pass

    def on_eof(self):
        self.on_lost()
        self.conn.close()

    def on_lost(self):
        pass


class LineHandler(Handler):
    """CRLF command protocol."""

    def on_data(self, data):
        self.buf += data
        while b'\n' in self.buf:
            if self.raw_mode():
                break
            ln, self.buf = self.buf.split(b'\n', 1)
            self.on_line(ln.rstrip(b'\r'))
        if self.raw_mode() and self.buf:
            d, self.buf = self.buf, b''
            self.on_raw(d)

    def raw_mode(self):
        return False

    def on_raw(self, data):
        pass


class _NoSocket:
    def __init__(self, *a, **kw):
        s = core.CURRENT
        if s is not None and s.active and s.cur is not None:
            s.unsupported('raw socket.socket()')
        raise OSError(errno.ENETUNREACH, 'Network is unreachable')


def install():
    O.create_connection = _socket.create_connection
    _socket.create_connection = create_connection
    _socket.getfqdn = lambda name='': 'client.example.org'
    _socket.gethostname = lambda: 'client'
    _socket.gethostbyname = lambda h: '10.0.1.1'
    orig = _ssl.SSLContext.wrap_socket

    def wrap(self, sock, *a, **kw):
        if isinstance(sock, SimSocket):
            return sock
        return orig(self, sock, *a, **kw)
    _ssl.SSLContext.wrap_socket = wrap


# -- remote file system -------------------------------------------------------

class Vfs:
    """In-memory POSIX-like file system of a simulated remote host."""

    def __init__(self, sim):
        self.sim = sim
        self.nodes = {'/': None}
        self.modes = {}
        self.times = {}
        self.hooks = []
        self.full = False

    @staticmethod
    def norm(path, cwd='/'):
        if not path.startswith('/'):
            path = cwd.rstrip('/') + '/' + path
        p = os.path.normpath(path)
        while p.startswith('//'):
            p = p[1:]
        return p

    def changed(self, op, path):
        for h in self.hooks:
            h(op, path)

    def isdir(self, p):
        return p in self.nodes and self.nodes[p] is None

    def isfile(self, p):
        return p in self.nodes and self.nodes[p] is not None

    def exists(self, p):
        return p in self.nodes

    def parent_ok(self, p):
        return self.isdir(os.path.dirname(p) or '/')

    def mkdir(self, p):
        if p in self.nodes:
            raise OSError(errno.EEXIST, 'File exists')
        if not self.parent_ok(p):
            raise OSError(errno.ENOENT, 'No such file or directory')
        self.nodes[p] = None
        self.changed('mkdir', p)

    def makedirs(self, p):
        if p in self.nodes:
            return
        self.makedirs(os.path.dirname(p))
        self.nodes[p] = None

    def create(self, p):
        if self.isdir(p):
            raise OSError(errno.EISDIR, 'Is a directory')
        if not self.parent_ok(p):
            raise OSError(errno.ENOENT, 'No such file or directory')
        self.nodes[p] = b''
        self.changed('create', p)

    def append(self, p, data):
        if p not in self.nodes or self.nodes[p] is None:
            return       # unlinked meanwhile
        if self.full:
            raise OSError(errno.ENOSPC, 'No space left on device')
        self.nodes[p] = self.nodes[p] + data
        self.changed('append', p)

    def rename(self, a, b):
        if a not in self.nodes:
            raise OSError(errno.ENOENT, 'No such file or directory')
        if not self.parent_ok(b):
            raise OSError(errno.ENOENT, 'No such file or directory')
        if self.isdir(b):
            if not self.isdir(a):
                raise OSError(errno.EISDIR, 'Is a directory')
            raise OSError(errno.ENOTEMPTY, 'Directory not empty')
        if a == b:
            return
        if self.isdir(a):
            for q in [q for q in self.nodes if q == a or q.startswith(a + '/')]:
                self.nodes[b + q[len(a):]] = self.nodes.pop(q)
        else:
            self.nodes[b] = self.nodes.pop(a)
            for m in (self.modes, self.times):
                m.pop(b, None)
                if a in m:
                    m[b] = m.pop(a)
        self.changed('rename', b)

    def unlink(self, p):
        if p not in self.nodes:
            raise OSError(errno.ENOENT, 'No such file or directory')
        if self.isdir(p):
            raise OSError(errno.EISDIR, 'Is a directory')
        del self.nodes[p]
        self.changed('unlink', p)

    def rmdir(self, p):
        if not self.isdir(p):
            raise OSError(errno.ENOTDIR if p in self.nodes else errno.ENOENT, 'Not a directory')
        if any(q.startswith(p + '/') for q in self.nodes):
            raise OSError(errno.ENOTEMPTY, 'Directory not empty')
        del self.nodes[p]
        self.changed('rmdir', p)

    def listdir(self, p):
        pre = p.rstrip('/') + '/'
        return sorted(q[len(pre):] for q in self.nodes
                      if q.startswith(pre) and q != '/' and '/' not in q[len(pre):])

    def files(self, top='/'):
        pre = top.rstrip('/') + '/'
        return {p[len(pre):]: d for p, d in self.nodes.items() if d is not None and p.startswith(pre)}


# -- FTP server ----------------------------------------------------------------

FTP_CATS = {
    'ftp.cmd': ['4xx', '5xx', '421', 'dropconn', 'dropafter'],
    'ftp.stor': ['full', '426', '451', '552', 'short'],
}


class FtpServer:
    """One FTP host: shared Vfs, any number of sessions."""

    def __init__(self, sim, host, vfs, login=None, home='/'):
        self.sim, self.host, self.vfs = sim, host, vfs
        self.login = login          # None: anonymous ok; else (user, password)
        self.home = home
        self.port = 50000
        self.pending = {}
        HOSTS[(host, 21)] = lambda c: FtpSession(c, self)
        self.cmds = []

    def pasv_port(self, session):
        self.port += 1
        p = self.port
        self.pending[p] = session

        def fac(c):
            s = self.pending.pop(p, None)
            if s is None:
                return None
            d = FtpData(c, s)
            s.data = d
            return d
        HOSTS[(self.host, p)] = fac
        for i in range(1, 10):
            HOSTS[('10.0.0.%d' % i, p)] = fac
        return p


class FtpData(Handler):
    def __init__(self, conn, session):
        super().__init__(conn)
        self.session = session
        self.got = []
        self.eof = False
        self.lost = False

    def on_connect(self):
        self.session.data_ready()

    def on_data(self, data):
        self.got.append(data)
        self.session.data_ready()

    def on_eof(self):
        self.eof = True
        self.session.data_ready()

    def on_lost(self):
        self.lost = True
        self.session.data_ready()


class FtpSession(LineHandler):
    def __init__(self, conn, srv):
        super().__init__(conn)
        self.srv = srv
        self.vfs = srv.vfs
        self.cwd = srv.home
        self.user = None
        self.authed = False
        self.rnfr = None
        self.data = None
        self.xfer = None
        self.over = False

    def on_connect(self):
        self.say('220 ready')

    def say(self, text):
        self.conn.reply((text + '\r\n').encode('utf-8', 'surrogateescape'))

    def on_lost(self):
        self.over = True
        # a transfer in progress simply stops; the partial file stays
        self.xfer = None

    def data_ready(self):
        x = self.xfer
        if x is None or self.data is None:
            return
        kind, path, out = x
        if kind == 'out':
            d = self.data
            d.conn.reply(out, fault=False)
            d.conn.close()
            self.xfer = None
            self.data = None
            self.say('226 done')
            return
        d = self.data
        for chunk in d.got:
            k = self.srv.sim.fault('ftp.stor')
            if k in ('full', '552', '451', '426'):
                if k == 'full':
                    self.vfs.full = True
                half = chunk[:len(chunk) // 2]
                if half and not self.vfs.full:
                    self.vfs.append(path, half)
                self.xfer = None
                d.conn.kill(quiet=True)
                self.data = None
                code = {'full': '552 disk full', '552': '552 quota', '451': '451 local error',
                        '426': '426 connection closed; transfer aborted'}[k]
                self.say(code)
                return
            try:
                self.vfs.append(path, chunk)
            except OSError:
                self.xfer = None
                d.conn.kill(quiet=True)
                self.data = None
                self.say('552 disk full')
                return
        d.got = []
        if d.eof:
            self.srv.sim.log('ftp', 'stored', path, len(self.vfs.nodes.get(path) or b''))
            self.xfer = None
            self.data = None
            d.conn.close()
            self.say('226 transfer complete')
        elif d.lost:
            self.xfer = None
            self.data = None
            self.say('426 connection closed; transfer aborted')

    def on_line(self, raw):
        sim = self.srv.sim
        if self.over:
            return
        line = raw.decode('utf-8', 'surrogateescape')
        cmd, _, arg = line.partition(' ')
        cmd = cmd.upper()
        sim.log('ftp', self.conn.label, line[:400])
        self.srv.cmds.append(cmd)
        k = sim.fault('ftp.cmd')
        if k == '4xx':
            return self.say('450 try later')
        if k == '5xx':
            return self.say('550 denied')
        if k == '421':
            self.say('421 shutting down')
            self.conn.close()
            self.over = True
            return
        if k == 'dropconn':
            self.over = True
            self.conn.close()
            return
        drop = k == 'dropafter'
        if drop:
            # the command is carried out, the answer never arrives
            real_say, self.say = self.say, lambda t: None
        try:
            self.dispatch(cmd, arg)
        except OSError as e:
            self.say(f'550 {e.strerror}')
        if drop:
            self.say = real_say
            self.over = True
            self.xfer = None
            self.conn.kill(quiet=True)

    def dispatch(self, cmd, arg):
        vfs = self.vfs
        path = vfs.norm(arg, self.cwd) if arg else self.cwd
        if cmd == 'USER':
            self.user = arg
            return self.say('331 password please')
        if cmd == 'PASS':
            if self.srv.login is None or (self.user, arg) == self.srv.login:
                self.authed = True
                return self.say('230 welcome')
            return self.say('530 login incorrect')
        if cmd == 'QUIT':
            self.say('221 bye')
            self.over = True
            self.conn.close()
            return
        if cmd == 'NOOP':
            return self.say('200 ok')
        if cmd in ('FEAT',):
            return self.say('211 none')
        if not self.authed:
            return self.say('530 not logged in')
        if cmd in ('TYPE', 'MODE', 'STRU', 'OPTS', 'SITE', 'ALLO'):
            return self.say('200 ok')
        if cmd in ('CWD', 'XCWD'):
            if vfs.isdir(path):
                self.cwd = path
                return self.say('250 ok')
            return self.say('550 no such directory')
        if cmd in ('CDUP',):
            self.cwd = os.path.dirname(self.cwd) or '/'
            return self.say('250 ok')
        if cmd in ('PWD', 'XPWD'):
            return self.say('257 "%s"' % self.cwd.replace('"', '""'))
        if cmd in ('MKD', 'XMKD'):
            vfs.mkdir(path)
            return self.say('257 "%s" created' % path.replace('"', '""'))
        if cmd == 'RMD':
            vfs.rmdir(path)
            return self.say('250 ok')
        if cmd == 'DELE':
            vfs.unlink(path)
            return self.say('250 ok')
        if cmd == 'SIZE':
            if not vfs.isfile(path):
                return self.say('550 no such file')
            return self.say('213 %d' % len(vfs.nodes[path]))
        if cmd == 'RNFR':
            if not vfs.exists(path):
                return self.say('550 no such file')
            self.rnfr = path
            return self.say('350 go on')
        if cmd == 'RNTO':
            if self.rnfr is None:
                return self.say('503 RNFR first')
            a, self.rnfr = self.rnfr, None
            if vfs.isdir(path):
                return self.say('550 is a directory')
            vfs.rename(a, path)
            return self.say('250 renamed')
        if cmd == 'PASV':
            p = self.srv.pasv_port(self)
            self.data = None
            return self.say('227 Entering Passive Mode (10,0,0,1,%d,%d)' % (p // 256, p % 256))
        if cmd == 'EPSV':
            p = self.srv.pasv_port(self)
            self.data = None
            return self.say('229 Extended (|||%d|)' % p)
        if cmd in ('STOR', 'APPE'):
            if cmd == 'STOR' or not vfs.isfile(path):
                if vfs.full:
                    return self.say('552 disk full')
                vfs.create(path)
            self.xfer = ('in', path, None)
            self.say('150 send it')
            return self.data_ready()
        if cmd in ('NLST', 'LIST', 'MLSD', 'RETR'):
            if cmd == 'RETR':
                if not vfs.isfile(path):
                    return self.say('550 no such file')
                out = vfs.nodes[path]
            else:
                if not vfs.isdir(path):
                    return self.say('550 no such directory')
                rows = vfs.listdir(path)
                if cmd == 'LIST':
                    rows = [('d' if vfs.isdir(os.path.join(path, r)) else '-') +
                            'rw-r--r-- 1 u g 0 Jan 1 00:00 ' + r for r in rows]
                elif cmd == 'MLSD':
                    rows = [('type=dir; ' if vfs.isdir(os.path.join(path, r)) else 'type=file; ') + r for r in rows]
                out = ''.join(r + '\r\n' for r in rows).encode('utf-8', 'surrogateescape')
            self.xfer = ('out', path, out)
            self.say('150 here it comes')
            return self.data_ready()
        return self.say('502 not implemented')


# -- SMTP server -----------------------------------------------------------------

SMTP_CATS = {'smtp.cmd': ['4xx', '5xx', '421', 'dropconn', 'dropafter']}


class SmtpServer:
    def __init__(self, sim, host, policy=None):
        self.sim, self.host = sim, host
        self.policy = policy or {}      # refuse_rcpt: set, refuse_from: bool, refuse_data: bool, down: bool, greet: str
        self.accepted = []              # (envelope from, [rcpt], data bytes, reply reached client?)
        self.sessions = 0
        self.seen = []                  # every (recipients, data) transmitted and then judged acceptable
        for port in (25, 587, 465):
            HOSTS[(host, port)] = self.connect

    def connect(self, c):
        if self.policy.get('down'):
            return None
        self.sessions += 1
        return SmtpSession(c, self)


class SmtpSession(LineHandler):
    def __init__(self, conn, srv):
        super().__init__(conn)
        self.srv = srv
        self.frm = None
        self.rcpt = []
        self.mode = 'cmd'
        self.lines = []
        self.over = False

    def say(self, t):
        return self.conn.reply((t + '\r\n').encode())

    def on_connect(self):
        if self.srv.policy.get('greet') == 'reject':
            self.say('554 no service')
            self.conn.close()
            self.over = True
            return
        self.say('220 ' + self.srv.host)

    def on_lost(self):
        self.over = True

    def on_line(self, raw):
        if self.over:
            return
        sim = self.srv.sim
        if self.mode == 'data':
            if raw == b'.':
                self.mode = 'cmd'
                k = sim.fault('smtp.cmd', self.srv.host)
                pol = self.srv.policy.get('refuse_data')
                if k == 'dropconn':
                    self.over = True
                    self.conn.kill(quiet=True)
                    return
                if k in ('4xx', '421') or pol == '4xx':
                    sim.log('smtp', self.srv.host, 'data refused')
                    return self.say('451 local error')
                if k == '5xx' or pol:
                    sim.log('smtp', self.srv.host, 'data refused')
                    return self.say('554 transaction failed')
                data = b'\r\n'.join(self.lines) + (b'\r\n' if self.lines else b'')
                self.srv.seen.append((list(self.rcpt), data))
                acc = dict(frm=self.frm, rcpt=list(self.rcpt), data=data, lost=(k == 'dropafter'),
                           server=self.srv.host, conn=self.conn, t=(sim.now, sim.steps, len(self.srv.accepted)))
                self.srv.accepted.append(acc)
                sim.log('smtp', self.srv.host, 'accepted for', ','.join(self.rcpt), len(data))
                self.frm, self.rcpt, self.lines = None, [], []
                if k == 'dropafter':
                    self.over = True
                    self.conn.kill(quiet=True)
                    return
                acc['lost'] = not self.say('250 queued')
                return
            if raw.startswith(b'.'):
                raw = raw[1:]
            self.lines.append(raw)
            return
        line = raw.decode('latin-1')
        sim.log('smtp', self.srv.host, line[:400])
        cmd = line[:4].upper()
        k = sim.fault('smtp.cmd', self.srv.host)
        if k == '4xx':
            return self.say('450 try later')
        if k == '5xx':
            return self.say('550 refused')
        if k == '421':
            self.say('421 closing')
            self.over = True
            self.conn.close()
            return
        if k in ('dropconn', 'dropafter'):
            self.over = True
            self.conn.kill(quiet=True)
            return
        if cmd in ('HELO', 'EHLO'):
            return self.say('250 ' + self.srv.host)
        if cmd == 'MAIL':
            if self.srv.policy.get('refuse_from'):
                return self.say('550 sender refused')
            self.frm = line[line.find('<') + 1:line.rfind('>')]
            self.rcpt, self.lines = [], []
            return self.say('250 ok')
        if cmd == 'RCPT':
            a = line[line.find('<') + 1:line.rfind('>')]
            if not a.strip():
                return self.say('501 bad address')
            pol = self.srv.policy
            if a in pol.get('refuse_rcpt', ()):
                return self.say('550 no such user')
            if a in pol.get('defer_rcpt', ()):
                return self.say('450 greylisted')
            lim = pol.get('max_rcpt')
            if lim and len(self.rcpt) >= lim:
                return self.say('452 too many recipients')
            self.rcpt.append(a)
            return self.say('250 ok')
        if cmd == 'DATA':
            if not self.rcpt:
                return self.say('503 no recipients')
            self.mode = 'data'
            self.lines = []
            return self.say('354 go ahead')
        if cmd == 'RSET':
            self.frm, self.rcpt, self.lines = None, [], []
            return self.say('250 ok')
        if cmd == 'NOOP':
            return self.say('250 ok')
        if cmd == 'QUIT':
            self.say('221 bye')
            self.over = True
            self.conn.close()
            return
        if cmd == 'VRFY':
            return self.say('252 maybe')
        return self.say('502 not implemented')


# -- HTTP server -----------------------------------------------------------------

class HttpServer:
    """answer(request dict) -> list of ('send', bytes) / ('stall', secs) / ('close',) / ('reset',)"""

    def __init__(self, sim, host, answer, ports=(80, 443)):
        self.sim, self.host, self.answer = sim, host, answer
        self.requests = []
        for p in ports:
            HOSTS[(host, p)] = lambda c: HttpSession(c, self)


class HttpSession(Handler):
    def __init__(self, conn, srv):
        super().__init__(conn)
        self.srv = srv
        self.done = False

    def on_data(self, data):
        if self.done:
            return
        self.buf += data
        if b'\r\n\r\n' not in self.buf:
            return
        self.done = True
        head = self.buf.split(b'\r\n\r\n')[0].decode('latin-1')
        first = head.split('\r\n')[0].split(' ')
        hdr = {}
        for h in head.split('\r\n')[1:]:
            k, _, v = h.partition(':')
            hdr[k.strip().lower()] = v.strip()
        req = dict(method=first[0], path=first[1] if len(first) > 1 else '', headers=hdr,
                   t=self.srv.sim.now, host=self.srv.host, port=self.conn.port)
        self.srv.requests.append(req)
        self.srv.sim.log('http', req['method'], self.srv.host + req['path'])
        t = 0.0
        for act in self.srv.answer(req):
            if act[0] == 'stall':
                t += act[1]
            elif act[0] == 'send':
                self.later(t, lambda d=act[1]: self.conn.reply(d, fault=False))
            elif act[0] == 'close':
                self.later(t, self.conn.close)
            elif act[0] == 'reset':
                self.later(t, lambda: self.conn.kill(quiet=True))

    def later(self, t, fn):
        if t:
            self.srv.sim.at(t, fn, 'http')
        else:
            fn()
