"""File-system seam.

The code under test runs against real directories inside a scratch root, but
every open/read/write/close/rename/mkdir/remove/listing made by an actor passes
through here: it is a yield point, may be given a planned fault, may read or
write short, lists directories in an order drawn from the Chooser, and after
each change the invariant hooks of the scenario run.  Mutations outside the
scratch root are never executed: they end the run as a violation.
"""
import builtins
import errno
import io
import os
import random
import shutil
import tempfile

from . import core


class O:
    """The original functions."""


_NAMES = ['open', 'rename', 'replace', 'remove', 'unlink', 'mkdir', 'rmdir',
          'link', 'symlink', 'truncate', 'scandir', 'listdir', 'utime',
          'chmod', 'sendfile', 'copy_file_range', 'write', 'read', 'close',
          'ftruncate', 'urandom', 'getpid', 'fsync', 'fdatasync', 'chown',
          'mkfifo', 'mknod', 'system', 'popen', 'fork', 'lchown', 'fchmod', 'pwrite', 'sync', 'stat', 'lstat', 'access']

ROOT = None           # real path of the scratch root (str)
BYPASS = False        # set while harness code (hooks) runs inside an actor
FDS = {}              # fd -> (path, writable) for fds opened by actors
READONLY_OK = ()
_busy = [0]           # the seam itself is looking at the file system


def sim_active():
    s = core.CURRENT
    if s is None or BYPASS or not s.active or s.cur is None or s.in_event:
        return None
    return s


def _abs(path):
    p = os.fspath(path)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    p = os.path.abspath(p)
    d, b = os.path.split(p)
    _busy[0] += 1
    try:
        return os.path.join(os.path.realpath(d), b)
    finally:
        _busy[0] -= 1


def under(path):
    p = _abs(path)
    return p == ROOT or p.startswith(ROOT + os.sep)


def _isdev(path):
    return path in ('/dev/null', '/dev/tty', '/dev/zero', '/dev/full', '/dev/stdout', '/dev/stderr')


def rel(path):
    p = _abs(path)
    if p.startswith(ROOT + os.sep):
        return p[len(ROOT) + 1:]
    return p


def guard(s, path, op):
    """Mutating op on path: must be inside the scratch root."""
    if not under(path):
        s.fail('mutation-outside-scratch', f'{op} {_abs(path)}')


def err(code, path=None):
    if path is None:
        return OSError(code, os.strerror(code))
    return OSError(code, os.strerror(code), os.fspath(path))


ERR = {'EIO': errno.EIO, 'ENOSPC': errno.ENOSPC, 'EACCES': errno.EACCES,
       'EMFILE': errno.EMFILE, 'EROFS': errno.EROFS, 'EDQUOT': errno.EDQUOT,
       'ESTALE': errno.ESTALE}

# categories and kinds scenarios can plan
CATS = {
    'fs.create': ['ENOSPC', 'EACCES', 'EIO', 'EMFILE'],
    'fs.openr': ['EACCES', 'EIO', 'EMFILE'],
    'fs.read': ['EIO', 'short'],
    'fs.write': ['ENOSPC', 'EIO', 'torn', 'short', 'full'],
    'fs.close': ['EIO', 'EDQUOT'],
    'fs.rename': ['EIO', 'ENOSPC', 'EACCES'],
    'fs.mkdir': ['EACCES', 'ENOSPC'],
    'fs.remove': ['EACCES', 'EIO'],
    'fs.list': ['EACCES', 'EIO'],
}


def maybe(s, cat, path=None):
    k = s.fault(cat)
    if getattr(s, 'disk_full', False) and cat in ('fs.create', 'fs.mkdir', 'fs.write'):
        raise err(errno.ENOSPC, path)
    if k in ERR:
        raise err(ERR[k], path)
    return k


def changed(s, op, path):
    global BYPASS
    if s.inv_hooks:
        BYPASS = True
        try:
            for h in s.inv_hooks:
                h(op, path)
        finally:
            BYPASS = False


class SimRawIO(io.RawIOBase):
    def __init__(self, path, mode, opener=None, fd=None, closefd=True):
        self._cfd = closefd
        self._p = path
        self.name = path
        r = '+' in mode or 'r' in mode
        w = '+' in mode or 'r' not in mode
        self._r, self._w = r, w
        self.mode = mode.replace('t', '')
        s = sim_active()
        self._owner = s.cur if s else None
        self._sim = s
        self._fail_next = None
        self._fd = -1
        if fd is not None:
            self._fd = fd
            return
        flags = os.O_CLOEXEC
        if 'w' in mode:
            flags |= os.O_CREAT | os.O_TRUNC
        elif 'a' in mode:
            flags |= os.O_CREAT | os.O_APPEND
        elif 'x' in mode:
            flags |= os.O_CREAT | os.O_EXCL
        flags |= os.O_RDWR if (r and w) else (os.O_WRONLY if w else os.O_RDONLY)
        if w:
            guard(s, path, 'open')
        if opener is not None:
            self._fd = opener(path, flags)
            return
        s.point('open')
        s.log('open', mode, rel(path))
        maybe(s, 'fs.create' if w else 'fs.openr', path)
        self._fd = O.open_(path, flags, 0o666)
        import stat as _st
        if _st.S_ISDIR(os.fstat(self._fd).st_mode):
            O.close(self._fd)
            self._fd = -1
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), path)
        if w:
            changed(s, 'open', path)

    def _gone(self):
        """True if the owner's process or the whole run is over."""
        s = core.CURRENT
        return (s is not self._sim or s is None or not s.active
                or (self._owner is not None and self._owner.dead))

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        return self._fd

    def isatty(self):
        return False

    def readinto(self, b):
        s = sim_active()
        if s is None or self._gone():
            if self._gone() and s is not None:
                raise core.SimCrash('dead')
            n = O.read(self._fd, len(b))
            b[:len(n)] = n
            return len(n)
        s.point('read')
        if s.on_read is not None:
            s.on_read(self._p)
        k = maybe(s, 'fs.read', self._p)
        n = len(b)
        if n > 1 and (k == 'short' or s.ch.chance(getattr(s, 'short_io', 0))):
            n = max(1, n // 2)
            s.probe('short_read')
        d = O.read(self._fd, n)
        b[:len(d)] = d
        return len(d)

    def write(self, b):
        s = sim_active()
        if self._gone() or s is None:
            if s is not None:
                raise core.SimCrash('dead')
            if core.CURRENT is not None and not core.CURRENT.active:
                return len(b)
            if BYPASS:
                return O.write(self._fd, b)
            return len(b)     # owner dead or run over: no effect
        s.point('write')
        data = bytes(b)
        if self._fail_next:
            raise err(self._fail_next, self._p)
        k = maybe(s, 'fs.write', self._p)
        n = len(data)
        if k == 'torn':
            n = n // 2
            self._fail_next = errno.EIO
            if n == 0:
                raise err(errno.EIO, self._p)
        elif k == 'full':
            s.disk_full = True
            n = n // 2
            if n == 0:
                raise err(errno.ENOSPC, self._p)
        elif n > 1 and (k == 'short' or s.ch.chance(getattr(s, 'short_io', 0))):
            n = max(1, n // 2)
            s.probe('short_write')
        r = O.write(self._fd, data[:n])
        s.log('write', rel(self._p), r)
        changed(s, 'write', self._p)
        return r

    def seek(self, pos, whence=0):
        return os.lseek(self._fd, pos, whence)

    def tell(self):
        return os.lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        s = sim_active()
        if s is not None and not self._gone():
            s.point('truncate')
            O.ftruncate(self._fd, size)
            changed(s, 'truncate', self._p)
        return size

    def close(self):
        if self.closed:
            return
        super().close()
        fd, self._fd = self._fd, -1
        if fd >= 0 and self._cfd:
            FDS.pop(fd, None)
            O.close(fd)
        s = sim_active()
        if s is not None and self._w and not self._gone() and fd >= 0:
            if self._fail_next is None:
                maybe(s, 'fs.close', self._p)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    s = sim_active()
    if s is None:
        return O.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    s.alive()
    if isinstance(file, int):
        if file not in FDS:
            return O.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        path, fd = FDS[file], file
    else:
        path, fd = os.fspath(file), None
        if isinstance(path, str) and _isdev(path):
            return O.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if not under(path):
            if any(c in mode for c in 'wax+'):
                guard(s, path, 'open ' + mode)
            return O.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not isinstance(mode, str):
        raise TypeError(f'invalid mode: {mode!r}')
    modes = set(mode)
    if modes - set('axrwb+t') or len(mode) > len(modes):
        raise ValueError(f'invalid mode: {mode!r}')
    binary = 'b' in modes
    if not (('x' in modes) + ('r' in modes) + ('w' in modes) + ('a' in modes) == 1):
        raise ValueError('must have exactly one of create/read/write/append mode')
    if 't' in modes and binary:
        raise ValueError("can't have text and binary mode at once")
    if binary and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    if binary and newline is not None:
        raise ValueError("binary mode doesn't take a newline argument")
    raw = SimRawIO(path, mode, opener, fd, closefd)
    if fd is not None:
        raw.name = fd
    result = raw
    try:
        line = False
        if buffering == 1:
            buffering, line = -1, not binary
        if buffering < 0:
            buffering = io.DEFAULT_BUFFER_SIZE
        if buffering == 0:
            if binary:
                return result
            raise ValueError("can't have unbuffered text I/O")
        if raw._r and raw._w:
            buf = io.BufferedRandom(raw, buffering)
        elif raw._w:
            buf = io.BufferedWriter(raw, buffering)
        else:
            buf = io.BufferedReader(raw, buffering)
        result = buf
        if binary:
            return result
        text = io.TextIOWrapper(buf, encoding, errors, newline, line)
        result = text
        text.mode = mode
        return result
    except BaseException:
        result.close()
        raise


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    s = sim_active()
    if s is None or dir_fd is not None:
        return O.open_(path, flags, mode) if dir_fd is None else \
            O.open_(path, flags, mode, dir_fd=dir_fd)
    w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    if w:
        if _isdev(os.fsdecode(path)):
            return O.open_(path, flags, mode)
        guard(s, path, 'os.open')
    if not under(path):
        return O.open_(path, flags, mode)
    s.point('os.open')
    s.log('os.open', rel(path))
    maybe(s, 'fs.create' if flags & os.O_CREAT else 'fs.openr', path)
    fd = O.open_(path, flags, mode)
    FDS[fd] = os.fsdecode(path)
    if w:
        changed(s, 'open', path)
    return fd


def sim_os_write(fd, data):
    s = sim_active()
    if s is None or fd not in FDS:
        return O.write(fd, data)
    s.point('os.write')
    k = maybe(s, 'fs.write')
    n = len(data)
    if n > 1 and k in ('short', 'torn', 'full'):
        n //= 2
        if k == 'full':
            s.disk_full = True
    r = O.write(fd, bytes(data)[:n])
    changed(s, 'write', FDS[fd])
    return r


def sim_os_read(fd, n):
    s = sim_active()
    if s is None or fd not in FDS:
        return O.read(fd, n)
    s.point('os.read')
    k = maybe(s, 'fs.read')
    if n > 1 and k == 'short':
        n //= 2
    return O.read(fd, n)


def sim_os_close(fd):
    FDS.pop(fd, None)
    return O.close(fd)


def _two(name, cat):
    def f(src, dst, *a, **kw):
        s = sim_active()
        if s is None:
            return getattr(O, name)(src, dst, *a, **kw)
        guard(s, dst, name)
        if name in ('rename', 'replace'):
            guard(s, src, name)
        s.point(name)
        s.log(name, rel(src), rel(dst))
        maybe(s, cat, dst)
        r = getattr(O, name)(src, dst, *a, **kw)
        changed(s, name, dst)
        return r
    f.__name__ = name
    return f


def _one(name, cat, kinds=True):
    def f(path, *a, **kw):
        s = sim_active()
        if s is None or isinstance(path, int):
            return getattr(O, name)(path, *a, **kw)
        guard(s, path, name)
        s.point(name)
        s.log(name, rel(path))
        if cat:
            maybe(s, cat, path)
        r = getattr(O, name)(path, *a, **kw)
        changed(s, name, path)
        return r
    f.__name__ = name
    return f


def _look(name):
    def f(path, *a, **kw):
        s = sim_active()
        if s is not None and not _busy[0] and not isinstance(path, int) and under(path):
            s.point(name)
        return getattr(O, name)(path, *a, **kw)
    f.__name__ = name
    return f


def _order(s, items, key):
    items = sorted(items, key=key)
    v = s.ch.draw(64) if len(items) > 1 else 0
    if v:
        random.Random(v).shuffle(items)
    return items


def sim_listdir(path='.'):
    s = sim_active()
    if s is None or isinstance(path, int) or not under(path if path is not None else '.'):
        return O.listdir(path)
    s.point('listdir')
    s.log('listdir', rel(path if path is not None else '.'))
    maybe(s, 'fs.list', path)
    return _order(s, O.listdir(path), os.fsencode)


class _Scan:
    def __init__(self, items):
        self._it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        self._it = iter(())


def sim_scandir(path='.'):
    s = sim_active()
    if s is None or isinstance(path, int) or not under(path if path is not None else '.'):
        return O.scandir(path)
    s.point('scandir')
    s.log('scandir', rel(path if path is not None else '.'))
    maybe(s, 'fs.list', path)
    with O.scandir(path) as it:
        items = list(it)
    return _Scan(_order(s, items, lambda e: os.fsencode(e.name)))


def _forbid(name):
    def f(*a, **kw):
        s = sim_active()
        if s is None:
            return getattr(O, name)(*a, **kw)
        s.unsupported('os.' + name)
    return f


def _fd_copy(name):
    def f(*a, **kw):
        s = sim_active()
        if s is None:
            return getattr(O, name)(*a, **kw)
        s.point(name)
        out = a[0] if name == 'sendfile' else a[1]
        maybe(s, 'fs.read')
        k = maybe(s, 'fs.write')
        r = getattr(O, name)(*a, **kw)
        changed(s, name, FDS.get(out, ROOT))
        return r
    return f


class _Names:
    rng = random.Random(0)

    def __iter__(self):
        return self

    def __next__(self):
        return 'n' + ''.join(self.rng.choice('abcdefghijklmnopqrstuvwxyz0123456789_') for _ in range(7))


_rand = random.Random(0)


def sim_urandom(n):
    s = sim_active()
    if s is None:
        return O.urandom(n)
    return _rand.randbytes(n)


def sim_getpid():
    s = sim_active()
    if s is None:
        return O.getpid()
    return 4242 if getattr(s, 'same_pid', True) else 4242 + s.cur.idx


def install():
    for n in _NAMES:
        if hasattr(os, n):
            setattr(O, n if n != 'open' else 'open_', getattr(os, n))
    O.open = builtins.open
    O.open_ = os.open
    builtins.open = sim_open
    io.open = sim_open
    os.open = sim_os_open
    os.write = sim_os_write
    os.read = sim_os_read
    os.close = sim_os_close
    for n in ('rename', 'replace'):
        setattr(os, n, _two(n, 'fs.rename'))
    for n in ('link', 'symlink'):
        setattr(os, n, _two(n, 'fs.create'))
    for n, c in (('remove', 'fs.remove'), ('unlink', 'fs.remove'), ('rmdir', 'fs.remove'),
                 ('mkdir', 'fs.mkdir'), ('truncate', 'fs.write'), ('utime', None),
                 ('chmod', None), ('chown', None), ('mkfifo', None), ('mknod', None)):
        setattr(os, n, _one(n, c))
    os.listdir = sim_listdir
    os.scandir = sim_scandir
    os.urandom = sim_urandom
    os.getpid = sim_getpid
    for n in ('sendfile', 'copy_file_range'):
        if hasattr(os, n):
            setattr(os, n, _fd_copy(n))
    for n in ('stat', 'lstat', 'access'):
        setattr(os, n, _look(n))
    random._urandom = sim_urandom
    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = False
    # functions shutil.copy2/copymode may hold by reference
    tempfile._name_sequence = _Names()


def reset(seed):
    """Per-run state."""
    global _rand, BYPASS
    BYPASS = False
    FDS.clear()
    _rand = random.Random(seed)
    nm = _Names()
    nm.rng = random.Random(seed ^ 0x5bd1e995)
    tempfile._name_sequence = nm
    random.seed(seed)
    shutil.COPY_BUFSIZE = 64 * 1024


# -- helpers for scenarios (always the original functions) -------------------

def tree(top):
    """{relative path: bytes or None for a directory} of a directory tree."""
    out = {}
    stack = [top]
    while stack:
        d = stack.pop()
        with O.scandir(d) as it:
            for e in it:
                r = os.path.relpath(e.path, top)
                if e.is_dir(follow_symlinks=False):
                    out[r] = None
                    stack.append(e.path)
                elif e.is_symlink():
                    out[r] = b'SYMLINK ' + os.fsencode(os.readlink(e.path))
                else:
                    with O.open(e.path, 'rb') as f:
                        out[r] = f.read()
    return out


def readfile(path):
    try:
        with O.open(path, 'rb') as f:
            return f.read()
    except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
        return None


def writefile(path, data):
    d = os.path.dirname(path)
    makedirs(d)
    with O.open(path, 'wb') as f:
        f.write(data)


def makedirs(d):
    if not d or os.path.isdir(d):
        return
    makedirs(os.path.dirname(d))
    O.mkdir(d)


def rmtree(d):
    """Remove a tree below the scratch root (never anything else)."""
    d = os.path.realpath(d)
    if not (d == ROOT or d.startswith(ROOT + os.sep)):
        raise RuntimeError('refusing to remove ' + d)
    with O.scandir(d) as it:
        ents = list(it)
    for e in ents:
        if e.is_dir(follow_symlinks=False):
            rmtree(e.path)
        else:
            O.remove(e.path)
    if d != ROOT:
        O.rmdir(d)
