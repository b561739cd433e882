"""C14, C15: the bundled scp client against simulated scp servers."""
import os

from sim import fs, net, ssh
from sim.core import Violation
from . import work
from .base import Scenario, describe
from .secure import HOST, knobs

UP = dict(ssh.CATS)
UP.pop('ssh.connect')
UP.update(ssh.SCP_REPLY)
UP.update({k: fs.CATS[k] for k in ('fs.openr', 'fs.read', 'fs.list')})
DOWN = dict(ssh.CATS)
DOWN.pop('ssh.connect')
DOWN['ssh.read'] = ['EIO']
DOWN.update({k: fs.CATS[k] for k in ('fs.create', 'fs.write', 'fs.close', 'fs.mkdir')})


class ScpBase(Scenario):
    preload = ('paramiko',)

    def setup(self):
        self.seams()
        ssh.install()
        from impactutils.extern.scp.scp import SCPClient
        self.SCPClient = SCPClient

    def client(self, sim, conf):
        """A connected client (must run inside an actor)."""
        c = ssh.SimSSHClient()
        c.connect(HOST)
        kw = {}
        if conf['buff']:
            kw['buff_size'] = conf['buff']
        if conf['progress']:
            kw['progress'] = lambda name, size, sent: sim.probe('progress')
        return c, self.SCPClient(c.get_transport(), **kw)


LONG = ['m' * 250, 'k' * 247 + '.txt', 'cr\rin.txt', 'end\r', 'tab\tin.txt', ' lead', 'trail ']


def conf(ch):
    return dict(buff=ch.pick([None, None, 1000, 4096, 65536]), progress=ch.chance(0.3))


UMASK = os.umask(0o22)
os.umask(UMASK)
MODES = [0o644, 0o600, 0o755, 0o444, 0o640, 0o4755, 0o777]


def setmeta(ch, path, isdir=False):
    m = ch.pick(MODES) if not isdir else ch.pick([0o755, 0o700, 0o775])
    os.chmod(path, m)
    t = 1500000000 + ch.draw(1000)
    os.utime(path, (t + 5, t))
    return m, (t + 5, t)


class C14(ScpBase):
    def run(self, sim):
        work.TAG[0] = 0
        ch = sim.ch
        knobs(sim)
        cwd = os.getcwd()
        vfs = net.Vfs(sim)
        home = '/home/u'
        ssh.SshServer(sim, HOST, vfs, home)
        recursive = ch.chance(0.5)
        preserve = ch.chance(0.4)
        nsrc = ch.weighted([(4, 1), (3, 2), (1, 3)])
        srcs, want, dirs = [], {}, {}
        names = []
        meta = {}
        for i in range(nsrc):
            n = work.name(ch, True, names + ['up'], LONG)
            names.append(n)
            top = os.path.join(cwd, 'l', n) if ch.chance(0.8) else os.path.join(cwd, n)
            if recursive and ch.chance(0.7):
                files, dl = work.tree(ch, 5)
                work.put_tree(top, files, dl)
                work.linkify(ch, sim, top, files, i)
                srcs.append((top, n, 'dir', files, dl))
            else:
                d = work.content(ch)
                fs.writefile(top, d)
                work.linkify(ch, sim, top, {'': d}, i)
                srcs.append((top, n, 'file', {'': d}, []))
        for top, n, kind, files, dl in srcs:
            for p in files:
                full = os.path.join(top, p) if p else top
                meta[full] = setmeta(ch, full)
        # directory times last, deepest first
        for top, n, kind, files, dl in srcs:
            if kind == 'dir':
                alld = {''} | set(dl)
                for p in list(files) + dl:
                    for i in range(1, p.count('/') + 1):
                        alld.add('/'.join(p.split('/')[:i]))
                for d in sorted(alld, key=lambda x: (-len(x), x)):
                    full = os.path.join(top, d) if d else top
                    meta[full] = setmeta(ch, full, True)
        # target
        target = ch.pick(['/data', 'up', '/data/new', 'sub/up 1', '/no/such/dir', "/data/it's"])
        full = vfs.norm(target, home)
        vfs.makedirs('/data')
        vfs.makedirs(home + '/sub')
        tk = ch.weighted([(5, 'dir'), (4, 'none'), (1, 'file')])
        if full != '/data' and tk != 'none' and '/no/such' not in full:
            if tk == 'dir':
                vfs.makedirs(full)
            else:
                vfs.nodes[full] = work.content(ch, False)
        vfs.nodes['/data/keep'] = b'keep'
        isdir = vfs.isdir(full)
        must_fail = False
        if not isdir and (nsrc > 1 or not vfs.isdir(os.path.dirname(full))):
            must_fail = True
        if not isdir and vfs.isfile(full) and srcs[0][2] == 'dir':
            must_fail = True
        wmode, wtime = {}, {}
        for top, n, kind, files, dl in srcs:
            dest = vfs.norm(n, full) if isdir else full
            if kind == 'file':
                want[dest] = files['']
                wmode[dest], wtime[dest] = meta[top]
                continue
            for p, d in files.items():
                q = dest + '/' + p
                want[q] = d
                wmode[q], wtime[q] = meta[os.path.join(top, p)]
            for m in meta:
                if (m == top or m.startswith(top + '/')) and os.path.isdir(m):
                    q = dest + m[len(top):]
                    dirs[q] = True
                    wmode[q], wtime[q] = meta[m]
        for q in list(want) + list(dirs):
            # something of the wrong kind in the way
            if q in want and vfs.isdir(q) or q in dirs and vfs.isfile(q):
                must_fail = True
            parts = q.split('/')
            if any(vfs.isfile('/'.join(parts[:i])) for i in range(2, len(parts))):
                must_fail = True
        if ch.chance(0.25) and want and not must_fail:
            q = ch.pick(sorted(want))
            if vfs.isdir(os.path.dirname(q)):
                vfs.nodes[q] = work.content(ch)
        spell = []
        for top, n, kind, files, dl in srcs:
            r = os.path.relpath(top, cwd)
            spell.append(ch.weighted([(5, top), (3, r), (1, './' + r), (1, top + '/' if kind == 'dir' else top)]))
            if kind == 'dir' and ch.chance(0.06):
                ln = os.path.join(cwd, 'ln', n)
                fs.makedirs(os.path.dirname(ln))
                fs.O.symlink(top, ln)
                spell[-1] = ln
        cf = conf(ch)
        sim.plan_faults(UP)
        accept = {q: {d} for q, d in want.items()}
        changes = []
        if ch.chance(0.2) and want:
            victim = ch.pick(sorted(f for f in meta if os.path.isfile(f)))
            kind = ch.pick(['shrink', 'grow', 'empty'])
            at = 1 + ch.draw(4)
            seen = [0]

            def on_read(path):
                if os.path.abspath(os.fsdecode(path)) == victim:
                    seen[0] += 1
                    if seen[0] == at and not changes:
                        old = fs.readfile(victim)
                        new = {'shrink': old[:len(old) // 2], 'grow': old + b'\x00grown\nC0644 3 evil\n' * 3000,
                               'empty': b''}[kind]
                        if new == old:
                            return
                        with fs.O.open(victim, 'r+b') as f:
                            f.truncate(len(new)) if len(new) < len(old) else (f.seek(0, 2), f.write(new[len(old):]))
                        changes.append((kind, old, new))
                        sim.note_fault('file.' + kind)
                        for q in accept:
                            if old in accept[q]:
                                accept[q].add(new)
            sim.on_read = on_read
        before = vfs.files()
        ctx = {}
        arg = spell if len(spell) > 1 or ch.chance(0.3) else spell[0]
        t0 = sim.now

        def act():
            ctx['ssh'], ctx['scp'] = self.client(sim, cf)
            ctx['scp'].put(arg, target, recursive=recursive, preserve_times=preserve)
        st, val = sim.run_one(act)
        sim.log('RESULT', st, val if st == 'ok' else describe(val))
        fired = bool(sim.fired)
        bad_reply = [k for k in sim.fired if k.startswith(('scp.reply:', 'scp.end:'))]
        sim.on_read = None

        def verdict(st, val, fired, bad_reply=()):
            after = vfs.files()
            for p, d in before.items():
                if '/' + p not in want and after.get(p) != d:
                    raise Violation('unrelated-changed', repr(p))
            if st == 'ok':
                if must_fail:
                    raise Violation('failure-not-reported', 'put returned although it could not have worked')
                if bad_reply:
                    raise Violation('error-not-reported', f'{bad_reply} and put returned')
                for q in want:
                    if vfs.nodes.get(q) not in accept[q]:
                        raise Violation('not-exact', f'{q!r} is {work.brief(vfs.nodes.get(q))}, sent {work.brief(want[q])}')
                for q in dirs:
                    if not vfs.isdir(q):
                        raise Violation('not-exact', f'directory {q!r} missing')
                extra = {('/' + p) for p in after} - set(want) - {'/' + p for p in before}
                if extra:
                    raise Violation('extra-file', repr(sorted(extra)[:3]))
                for q in wmode:
                    if vfs.modes.get(q) != wmode[q]:
                        raise Violation('wrong-mode', f'{q!r} {vfs.modes.get(q)} != {wmode[q]}')
                    if preserve:
                        t = vfs.times.get(q)
                        if t is None or t[1] != wtime[q][1] or (q in want and t[0] != wtime[q][0]):
                            raise Violation('wrong-times', f'{q!r} {t} != {wtime[q]}')
            elif not fired and not must_fail:
                raise Violation('unexpected-exception', describe(val))
        verdict(st, val, fired, bad_reply)
        sim.drain()
        verdict(st, val, fired, bad_reply)
        if st != 'ok' and not must_fail and not changes and ctx.get('scp') and ctx['ssh']._conn.up:
            # the same client is used again once the trouble is over
            sim.plan = {}
            vfs.full = False
            for m, (mode, t) in meta.items():
                os.utime(m, t)
            before = vfs.files()
            st, val = sim.run_one(lambda: ctx['scp'].put(arg, target, recursive=recursive, preserve_times=preserve))
            if full in vfs.nodes and isdir is False and vfs.isdir(full) and srcs[0][2] == 'dir':
                pass      # the first attempt created the target: the second goes below it
            else:
                verdict(st, val, st == 'raised' and bool(dirs))
                sim.probe('reused')
        return dict(nontrivial=True,
                    sample=dict(sources=spell, target=target, recursive=recursive, preserve=preserve,
                                files={p: len(d) for p, d in want.items()}, must_fail=must_fail, conf=str(cf)),
                    state=[sorted(sim.fired), st])


def wait_ack(proc):
    d = yield from proc.read_exact(1)
    return d


class Hostile:
    """A server program that sends drawn messages."""

    def __init__(self, sim, outside):
        self.sim, self.ch, self.outside = sim, sim.ch, outside
        self.must_raise = None
        self.items = []
        self.plan()

    def name(self):
        ch = self.ch
        k = ch.weighted([(6, 0), (5, 1)])
        if not k:
            return ch.pick([b'ok.txt', b'sub', b'a b', b'x', b'\xff\xfe', b'.hidden'])
        return ch.pick([b'../esc.txt', b'..', b'.', b'', b'a/../../esc.txt', b'sub/x', b'../keep.txt',
                        os.fsencode(self.outside), b'/etc/hostname-verif', b'../d2', b'../', b'x/..', b'a\x00b'])

    def plan(self):
        ch = self.ch
        depth = 0
        for _ in range(1 + ch.draw(8)):
            k = ch.weighted([(5, 'C'), (3, 'D'), (3, 'E'), (2, 'T'), (1, 'err'), (1, 'bad'), (1, 'part'), (1, 'trunc')])
            if k == 'C':
                size = ch.pick([0, 3, 20, 5000])
                shown = ch.weighted([(8, size), (1, -5), (1, 'x'), (1, size + 7)])
                mode = ch.weighted([(8, b'0644'), (1, b'0000'), (1, b'9x'), (1, b'-1')])
                self.items.append(('C', b'C%s %s %s\n' % (mode, str(shown).encode(), self.name()), b'd' * size, shown))
            elif k == 'D':
                self.items.append(('D', b'D%s 0 %s\n' % (ch.weighted([(8, b'0755'), (1, b'9')]), self.name())))
            elif k == 'E':
                self.items.append(('E', b'E\n'))
            elif k == 'T':
                self.items.append(('T', ch.weighted([(4, b'T1500000000 0 1500000005 0\n'), (1, b'Tx\n'),
                                                     (1, b'T99999999999999999999 0 1 0\n')])))
            elif k == 'err':
                self.items.append(('err', ch.pick([b'\x01', b'\x02']) + b'scp: bad\n'))
            elif k == 'bad':
                self.items.append(('raw', ch.pick([b'Zwhat\n', b'\n', b'C\n', b'D\n', b'C0644 3\n', b'\x00\n',
                                                   b'x' * 3000 + b'\n'])))
            elif k == 'part':
                self.items.append(('part', b'C0644 3 un'))
            else:
                self.items.append(('trunc', b'C0644 5000 tr.txt\n'))
        self.end = ch.weighted([(4, 'ok'), (2, 'fail'), (2, 'drop'), (1, 'stall'), (1, 'eofstall')])
        self.bad = ch.weighted([(2, 1), (1, 0)])       # exit status when it breaks off

    def __call__(self, proc, text):
        sim = self.sim
        d = yield from proc.read_exact(1)
        depth = 0
        for it in self.items:
            if proc.ineof and not proc.inbuf:
                return 1
            proc.out(it[1])
            sim.log('hostile', it[0], repr(it[1][:300]))
            if it[0] == 'part':
                self.must_raise = 'partial line'
                return self.bad
            if it[0] == 'err':
                self.must_raise = 'error message'
            a = yield from proc.read_exact(1)
            if a != b'\x00':
                return 1
            if it[0] == 'D':
                depth += 1
            elif it[0] == 'E':
                depth -= 1
            if it[0] == 'trunc':
                proc.out(b'z' * 100)
                self.must_raise = 'truncated file'
                return self.bad
            if it[0] == 'C':
                if not isinstance(it[3], int) or it[3] < 0:
                    continue
                proc.out(it[2])
                if it[3] > len(it[2]):
                    self.must_raise = 'truncated file'
                    return self.bad
                if sim.ch.chance(0.03):
                    self.must_raise = 'file not confirmed'
                    return self.bad
                proc.out(b'\x00')
                a = yield from proc.read_exact(1)
                if a != b'\x00':
                    return 1
        if depth > 0:
            self.must_raise = 'directory not finished'
        if self.end == 'fail':
            self.must_raise = self.must_raise or 'exit status'
            return 1
        if self.end == 'drop':
            self.must_raise = self.must_raise or 'connection lost'
            proc.chan.conn.drop(quiet=True)
            return 1
        if self.end in ('stall', 'eofstall'):
            if self.end == 'eofstall':
                proc.chan.s2c('eof', None)
            self.must_raise = self.must_raise or 'stalled'
            yield lambda: proc.hung
            return 1
        return 0


def metas(top):
    """Content and permissions of a tree."""
    out = {}
    for p, d in fs.tree(top).items():
        out[p] = (d, os.lstat(os.path.join(top, p)).st_mode)
    return out


class C15(ScpBase):
    def run(self, sim):
        work.TAG[0] = 0
        ch = sim.ch
        knobs(sim)
        cwd = os.getcwd()
        vfs = net.Vfs(sim)
        home = '/home/u'
        area = os.path.join(cwd, 'area')
        fs.makedirs(area)
        fs.writefile(os.path.join(area, 'keep.txt'), b'keep')
        fs.makedirs(os.path.join(area, 'd2'))
        fs.writefile(os.path.join(cwd, 'up.txt'), b'up')
        lk = ch.weighted([(4, 'dir'), (4, 'new'), (1, 'file')])
        local = os.path.join(area, 'dest')
        if lk == 'dir':
            fs.makedirs(local)
            if ch.chance(0.4):
                fs.writefile(os.path.join(local, 'old.txt'), b'old')
        elif lk == 'file':
            fs.writefile(local, work.content(ch))
        lspell = ch.weighted([(4, local), (2, os.path.relpath(local, cwd)), (1, './area/dest')])
        if lk == 'dir' and ch.chance(0.3):
            lspell += '/'
        if lk == 'dir' and ch.chance(0.1):
            os.chdir(local)
            lspell = ''
        if ch.chance(0.1):
            lspell = os.fsencode(lspell)
        cf = conf(ch)
        recursive = ch.chance(0.5)
        preserve = ch.chance(0.4)
        hostile = ch.chance(0.45)

        def outside():
            t = metas(cwd)
            return {p: v for p, v in t.items() if p != 'area/dest' and not p.startswith('area/dest/')}
        ctx = {}
        must_fail = False
        want = {}
        wmode, wtime, had = {}, {}, set()
        if hostile:
            h = Hostile(sim, os.path.join(cwd, 'abs.txt'))
            ssh.SshServer(sim, HOST, vfs, home, h)
            rp = ch.pick(['x', ['x'], ['x', 'y']])
        else:
            h = None
            ssh.SshServer(sim, HOST, vfs, home)
            rp = []
            used = ['dest']
            for _ in range(ch.weighted([(5, 1), (2, 2)])):
                n = work.name(ch, True, used, LONG)
                while n.startswith('-'):
                    n = 'm' + n
                used.append(n)
                rroot = ch.pick(['/data/' + n, n, 'sub/' + n])
                full = vfs.norm(rroot, home)
                kind = ch.weighted([(5, 'file'), (4, 'dir' if recursive else 'file'), (1, 'missing'), (1, 'dir')])
                vfs.makedirs(os.path.dirname(full))
                rp.append((rroot, full, n, kind))
                if kind == 'missing':
                    must_fail = True
                    continue
                if kind == 'file':
                    put = {full: work.content(ch)}
                else:
                    vfs.makedirs(full)
                    fl, dl = work.tree(ch, 4)
                    put = {full + '/' + p: d for p, d in fl.items()}
                    for d in dl:
                        vfs.makedirs(full + '/' + d)
                    if not recursive:
                        must_fail = True
                for q, d in put.items():
                    vfs.makedirs(os.path.dirname(q))
                    vfs.nodes[q] = d
                    vfs.modes[q] = ch.pick(MODES)
                    t = 1500000000 + ch.draw(1000)
                    vfs.times[q] = (t + 5, t)
            multi = len(rp) > 1
            if multi and lk != 'dir':
                must_fail = True
            for rroot, full, n, kind in rp:
                base = os.path.join(local, n) if lk == 'dir' else local
                if kind == 'dir' and lk == 'file':
                    must_fail = True
                for q, d in vfs.nodes.items():
                    if q == full or q.startswith(full + '/'):
                        lp = base + q[len(full):]
                        want[lp] = d
                        if d is None:
                            vfs.modes[q] = ch.pick([0o755, 0o700, 0o775, 0o750])
                            t = 1500000000 + ch.draw(1000)
                            vfs.times[q] = (t + 5, t)
                            if lk == 'dir' and ch.chance(0.2) and os.path.isdir(os.path.dirname(lp)) and not os.path.lexists(lp):
                                fs.makedirs(lp)
                                had.add(lp)
                        wmode[lp] = vfs.modes[q]
                        wtime[lp] = vfs.times[q]
            if lk == 'dir' and ch.chance(0.3) and want:
                for lp, d in sorted(want.items()):
                    if d is not None and os.path.isdir(os.path.dirname(lp)):
                        fs.writefile(lp, work.content(ch))
            rp = [r[0] for r in rp]
            if len(rp) == 1 and ch.chance(0.7):
                rp = rp[0]
        sim.plan_faults(DOWN, p_none=0.8 if hostile else 0.35)
        out0 = outside()
        in0 = fs.tree(local) if os.path.isdir(local) else {}

        def act():
            ctx['ssh'], ctx['scp'] = self.client(sim, cf)
            ctx['scp'].get(rp, lspell, recursive=recursive, preserve_times=preserve)
        st, val = sim.run_one(act)
        sim.log('RESULT', st, val if st == 'ok' else describe(val))
        stats = {p: os.stat(p) for p in want if os.path.exists(p)}      # before anything is read

        def contained():
            o = outside()
            if o != out0:
                for p in sorted(set(o) | set(out0)):
                    if o.get(p) != out0.get(p):
                        raise Violation('outside-changed', f'{p!r}: {work.brief(out0.get(p))} -> {work.brief(o.get(p))}')
        contained()
        if hostile:
            if st == 'ok' and h.must_raise:
                raise Violation('failure-not-reported', f'get returned after: {h.must_raise}')
        else:
            self.exact(sim, st, val, want, wmode, wtime, preserve, must_fail, in0, local, bool(sim.fired), had, stats)
        sim.drain()
        os.chdir(cwd)
        # the client is used again, with an honest server, once the trouble is over
        if st != 'ok' and ctx.get('scp') and ctx['ssh']._conn is not None and ctx['ssh']._conn.up:
            sim.plan = {}
            sim.disk_full = False
            ssh.SERVERS[HOST].program = None
            vfs.makedirs('/again')
            vfs.nodes['/again/f'] = b'again'
            dest2 = os.path.join(cwd, 'area2')
            fs.makedirs(dest2)
            out0 = {p: (v, os.lstat(os.path.join(cwd, p)).st_mtime_ns) for p, v in metas(cwd).items()
                    if not p.startswith('area2')}
            st2, val2 = sim.run_one(lambda: ctx['scp'].get('/again/f', dest2))
            if st2 != 'ok':
                raise Violation('no-recovery', describe(val2))
            if fs.tree(dest2) != {'f': b'again'}:
                raise Violation('not-exact', 'second download: ' + repr(sorted(fs.tree(dest2))))
            o = {p: (v, os.lstat(os.path.join(cwd, p)).st_mtime_ns) for p, v in metas(cwd).items()
                 if not p.startswith('area2')}
            if o != out0:
                raise Violation('outside-changed', 'second download touched files of the first')
            sim.probe('reused')
        return dict(nontrivial=True, sample=dict(remote=str(rp), local=str(lspell), recursive=recursive,
                                                 hostile=[repr(i[1][:50]) for i in h.items] if h else None),
                    state=[sorted(sim.fired), st])

    def exact(self, sim, st, val, want, wmode, wtime, preserve, must_fail, in0, local, fired, had, stats):
        if st != 'ok':
            if not fired and not must_fail:
                raise Violation('unexpected-exception', describe(val))
            return
        if must_fail:
            raise Violation('failure-not-reported', 'get returned although it could not have worked')
        for p in want:
            if p not in stats:
                raise Violation('not-exact', f'{p!r} is missing')
            s = stats[p]
            if want[p] is None:
                ok = wmode[p] if p in had else wmode[p] & ~UMASK
                if s.st_mode & 0o7777 != ok:
                    raise Violation('wrong-mode', f'{p} {s.st_mode:o} != {ok:o}')
            elif s.st_mode & 0o7777 != wmode[p]:
                raise Violation('wrong-mode', f'{p} {s.st_mode:o} != {wmode[p]:o}')
            if preserve and int(s.st_mtime) != wtime[p][1]:
                raise Violation('wrong-times', f'{p} modified {s.st_mtime} != {wtime[p]}')
            if preserve and int(s.st_atime) != wtime[p][0] and want[p] is not None:
                raise Violation('wrong-times', f'{p} accessed {s.st_atime} != {wtime[p]}')
        for p, d in want.items():
            got = fs.readfile(p) if d is not None else (None if os.path.isdir(p) else b'-')
            if got != d:
                raise Violation('not-exact', f'{p!r}: want {work.brief(d)} got {work.brief(got)}')
        if os.path.isdir(local):
            for p, d in fs.tree(local).items():
                full = os.path.join(local, p)
                if full in want or any(w.startswith(full + '/') for w in want):
                    continue
                if in0.get(p, b'-') != d:
                    raise Violation('extra-file', full)


SCENARIOS = {'C14': C14, 'C15': C15}
