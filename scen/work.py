"""Workload generation shared by the scenarios."""
import os

from sim import fs

NAMES = ['a.txt', 'b.dat', 'grid.xml', 'c', '.hidden', 'x', 'x.tmp', 'info.json', 'data file.txt',
         'a.txt.tmp', "it's.txt", 'a;b.txt', '$HOME', 'na\u00efve.txt', '-rf', 'a"b', 'star*.txt',
         'UPPER.JPG', 'ev.tmp_20231114221320', 'back\\slash', 'amp&er', '#hash', '[x]', 'tilde~', 'q?', 'p(1).pdf',
         'e\u0301te\u0301.txt', 'a.txt.bak', 'per%cent', 'event', 'src', 'x.part', 'long-' + 'n' * 170 + '.txt']
PLAIN = 8       # the first PLAIN names are unremarkable
SIZES = [0, 1, 12, 100, 1023, 1024, 1025, 4096, 8191, 8192, 8193, 16383, 16384, 16385, 20000, 32768, 65535, 65536,
         65537, 131072, 150001]


def name(ch, odd=True, used=(), extra=()):
    pool = list(NAMES if odd else NAMES[:PLAIN]) + list(extra)
    if ch.chance(0.55):
        pool = NAMES[:PLAIN]
    n = ch.pick(pool)
    k = 0
    base = n
    while n in used:
        k += 1
        n = base + str(k)
    return n


def size(ch, big=True):
    i = ch.weighted([(5, 2), (2, 0), (2, 1), (2, 3), (6, -1)])
    if i >= 0:
        return SIZES[i]
    return ch.pick(SIZES if big else SIZES[:12])


TAG = [0]


def content(ch, big=True):
    """Unique content per call within a run (so every copy is attributable)."""
    n = size(ch, big)
    kind = ch.weighted([(4, 'rand'), (2, 'text'), (1, 'crlf'), (1, 'dots'), (1, 'nul'), (1, 'utf8'), (1, 'proto')])
    TAG[0] += 1
    tag = b'<%d>' % TAG[0]
    if kind == 'rand':
        d = ch.data(n)
    elif kind == 'text':
        d = (b'line of text %d\n' % n) * (n // 14 + 1)
    elif kind == 'crlf':
        d = b'a\r\nb\rc\n\r\n' * (n // 9 + 1)
    elif kind == 'dots':
        d = b'.\n..\n.\r\n\n.x\n' * (n // 12 + 1)
    elif kind == 'nul':
        d = b'\x00' * n
    elif kind == 'utf8':
        d = 'h\u00e9llo \u65e5\u672c\n'.encode() * (n // 15 + 1)
    else:
        d = b'C0644 3 x\n\x00\x01E\n226 ok\r\n' * (n // 20 + 1)
    d = d[:n]
    if n > len(tag):
        d = tag + d[len(tag):]
    return d


def tree(ch, maxfiles=5, odd=True, big=True, repeat=('event', 'src')):
    """{relative path: bytes}: a random file tree."""
    n = ch.weighted([(2, 1), (3, 2), (2, 3), (1, 0), (2, maxfiles)])
    dirs = ['']
    out = {}
    used = set()
    for _ in range(n):
        if ch.chance(0.45):
            parent = ch.pick(dirs)
            d = ch.pick(['sub', 'other', 'deep', 'my dir', '.dot', 'a.txt.d'] + list(repeat))
            d = os.path.join(parent, d)
            if d.count('/') <= 3 and d not in out and not any(k == d for k in out):
                if d not in dirs:
                    dirs.append(d)
            else:
                d = parent
        else:
            d = ch.pick(dirs)
        nm = name(ch, odd)
        p = os.path.join(d, nm)
        k = 0
        while p in out or p in dirs:
            k += 1
            p = os.path.join(d, nm + str(k))
        out[p] = content(ch, big)
    # a path that is both file and directory prefix is impossible on disk
    clean = {}
    for p in out:
        parts = p.split('/')
        if any('/'.join(parts[:i]) in out for i in range(1, len(parts))):
            continue
        clean[p] = out[p]
    return clean, [d for d in dirs if d and d not in clean
                   and not any('/'.join(d.split('/')[:i]) in clean for i in range(1, d.count('/') + 2))]


def twice(ch, files, dirs, taken):
    """{base name: tree path} of files of a directory that are also given one by one."""
    out = {}
    tops = set(p.split('/')[0] for p in list(files) + list(dirs)) | set(taken)
    for p in sorted(files):
        b = os.path.basename(p)
        if '/' in p and b not in tops and b not in out and ch.chance(0.4):
            out[b] = p
    return out


def linkify(ch, sim, top, files, k=0):
    """Replace some files of a tree on disk by symbolic links to files elsewhere with that content."""
    if not ch.chance(0.15):
        return
    for i, p in enumerate(sorted(files)):
        full = os.path.join(top, p) if p else top
        if ch.chance(0.4) and not os.path.islink(full):
            tgt = os.path.join(sim.top, 'store', f'{k}_{i}.bin')
            fs.writefile(tgt, files[p])
            fs.O.remove(full)
            fs.O.symlink(tgt, full)


def dress(ch, sim, full, like=None):
    """What an existing destination file may be besides plain: hard linked, a symbolic link, of an odd mode,
    or of the same size and time of change as the file that is to replace it."""
    kind = ch.weighted([(12, 'plain'), (2, 'linked'), (2, 'symlink'), (2, 'mode'), (3, 'time')])
    if kind == 'plain':
        return
    if kind == 'time':
        if like and os.path.isfile(like):
            st = os.stat(like)
            if st.st_size > 8 and ch.chance(0.5):
                with fs.O.open(like, 'rb') as f:
                    d = f.read()
                with fs.O.open(full, 'wb') as f:
                    f.write(b'old' + d[3:] if d[:3] != b'old' else b'OLD' + d[3:])
            dt = ch.pick([0, 0, 1, 3600, -3600])
            os.utime(full, ns=(st.st_atime_ns, st.st_mtime_ns + dt * 10**9))
    elif kind == 'mode':
        os.chmod(full, ch.pick([0o444, 0o600, 0o755, 0o000]))
    else:
        archive = os.path.join(sim.top, 'archive')
        fs.makedirs(archive)
        other = os.path.join(archive, str(len(os.listdir(archive))))
        if kind == 'linked':
            os.link(full, other)
        else:
            fs.O.rename(full, other)
            fs.O.symlink(other, full)


def dangle(ch, src, p=0.03):
    """Sometimes leave a symbolic link to nothing in a directory: it cannot be sent (True if there is one)."""
    ln = os.path.join(src, 'gone.lnk')
    if ch.chance(p) and not os.path.lexists(ln):
        fs.O.symlink('nowhere', ln)
    return os.path.islink(ln)


def vialink(ch, cwd, path, spelled, k=0):
    """Sometimes a spelling of a directory that goes through a symbolic link."""
    if not ch.chance(0.06):
        return spelled
    ln = os.path.join(cwd, f'ln{k}')
    fs.makedirs(path)
    if not os.path.lexists(ln):
        fs.O.symlink(path, ln)
    return ln + ch.pick(['', '/'])


def put_tree(top, files, dirs=()):
    fs.makedirs(top)
    for d in dirs:
        fs.makedirs(os.path.join(top, d))
    for p, data in files.items():
        fs.writefile(os.path.join(top, p), data)


def spell(ch, path, cwd):
    """A spelling of an absolute directory path: (string)."""
    k = ch.weighted([(6, 'abs'), (2, 'slash'), (2, 'rel'), (1, 'dotrel'), (1, 'relslash'), (1, 'absdot'), (1, 'dbl')])
    r = os.path.relpath(path, cwd)
    if k == 'abs':
        return path
    if k == 'slash':
        return path + '/'
    if k == 'rel':
        return r
    if k == 'dotrel':
        return './' + r
    if k == 'relslash':
        return r + '/'
    if k == 'absdot':
        d, b = os.path.split(path)
        return d + '/./' + b
    d, b = os.path.split(path)
    return d + '//' + b


def brief(x, n=60):
    if isinstance(x, bytes):
        return f'<{len(x)} bytes {x[:12]!r}>'
    return str(x)[:n]


def diff_trees(want, got, ignore_dirs=True):
    """First difference of {path: bytes} dictionaries, or None."""
    for p in sorted(want):
        if want[p] is None:
            continue
        if p not in got:
            return f'missing {p!r}'
        if got[p] != want[p]:
            return f'content of {p!r} differs: want {brief(want[p])} got {brief(got[p])}'
    for p in sorted(got):
        if got[p] is None and ignore_dirs:
            continue
        if p not in want:
            return f'unexpected {p!r}'
    return None
