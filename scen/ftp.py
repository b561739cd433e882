"""C03, C04: the FTP sender against a simulated FTP server."""
import os

from sim import fs, net
from sim.core import Violation
from . import work
from .base import Scenario, describe

FAULTS = dict(net.CATS)
FAULTS.update(net.FTP_CATS)
FAULTS.update({k: fs.CATS[k] for k in ('fs.openr', 'fs.read', 'fs.list')})
HOST = 'ftp.example.org'


class FtpBase(Scenario):
    def setup(self):
        self.seams()
        net.install()
        from impactutils.transfer.ftpsender import FTPSender
        self.FTPSender = FTPSender


def knobs(sim):
    ch = sim.ch
    sim.short_io = ch.pick([0, 0, 0, 0.2])
    sim.latency = ch.pick([0.002, 0.05, 0.0005])
    sim.frag = ch.pick([0, 0, 0.3])
    sim.same_pid = ch.chance(0.5)
    sim.clock_res = ch.pick([0, 0, 0, 0.015625, 1])
    sim.kill_hooks.append(net.on_kill)


def siblings(ch, p):
    """Names derived from p that a transfer might be tempted to use."""
    d, b = os.path.split(p)
    return os.path.join(d, ch.pick([b + '.tmp', '.' + b, b + '~', '.' + b + '.tmp', b + '.part', 'tmp', b + '_tmp',
                                    'tmp_' + b, b + '.bak']))


class C03(FtpBase):
    def run(self, sim):
        work.TAG[0] = 0
        ch = sim.ch
        knobs(sim)
        cwd = os.getcwd()
        vfs = net.Vfs(sim)
        home = ch.pick(['/', '/', '/home/u'])
        vfs.makedirs(home)
        login = ch.pick([None, None, ('u', 'p w')])
        srv = net.FtpServer(sim, HOST, vfs, login, home)
        remote = ch.pick(['/pub', '/pub/in/ev 1', '/', '/event', '/src/event', '/a/b/c/d'])
        if ch.chance(0.5):
            vfs.makedirs(remote)
        rspell = ch.weighted([(4, remote), (2, remote + '/' if remote != '/' else '/'),
                              (3, remote.strip('/') or '/'), (1, (remote.strip('/') + '/') if remote != '/' else '/')])
        props = {'remote_host': HOST, 'remote_directory': rspell}
        badlogin = False
        if login is not None:
            k = ch.weighted([(6, 'good'), (1, 'wrong'), (1, 'none')])
            if k != 'none':
                props['user'] = login[0]
                props['password'] = login[1] if k == 'good' else 'nope'
            badlogin = k != 'good'
        sim.plan_faults(FAULTS)
        sender = None
        steps = []
        for k in range(ch.weighted([(5, 1), (3, 2)])):
            fresh = sender is None or ch.chance(0.5)
            if fresh:
                src = os.path.join(cwd, f'd{k}', ch.pick(['event', 'src', 'ev 1', 'w']))
                loc = os.path.join(cwd, f'f{k}')
                files, dirs, lfiles = {}, [], {}
                use_dir = ch.chance(0.75)
                if use_dir:
                    files, dirs = work.tree(ch, 5, repeat=('event', 'src', 'pub'))
                if not use_dir or ch.chance(0.4):
                    used = set(p.split('/')[0] for p in list(files) + dirs)
                    for _ in range(1 + ch.draw(3)):
                        n = work.name(ch, True, used | set(lfiles))
                        lfiles[n] = work.content(ch)
                sp = work.vialink(ch, cwd, src, work.spell(ch, src, cwd), k)
                lsp = work.spell(ch, loc, cwd)
                both = work.twice(ch, files, dirs, lfiles) if ch.chance(0.2) else {}
            else:
                for p in list(files):
                    if ch.chance(0.4):
                        files[p] = work.content(ch)
            if use_dir:
                work.put_tree(src, files, dirs)
                work.linkify(ch, sim, src, files, k)
            fs.makedirs(loc)
            for n, d in lfiles.items():
                fs.writefile(os.path.join(loc, n), d)
            want = dict(files)
            want.update(lfiles)
            want.update({b: files[p] for b, p in both.items()})
            # already on the server
            if vfs.isdir(remote):
                for p in sorted(want):
                    full = vfs.norm(p, remote)
                    if ch.chance(0.25) and vfs.isdir(os.path.dirname(full)) and full not in vfs.nodes:
                        vfs.nodes[full] = work.content(ch, False)
                    if ch.chance(0.2):
                        full = vfs.norm(siblings(ch, p), remote)
                        if vfs.isdir(os.path.dirname(full)) and full not in vfs.nodes:
                            vfs.nodes[full] = work.content(ch, False)
            if ch.chance(0.3):
                vfs.nodes.setdefault('/other.txt', b'other')
            obstacle = badlogin or (use_dir and work.dangle(ch, src))
            if want and ch.chance(0.06):
                full = vfs.norm(ch.pick(sorted(want)), remote)
                if full not in vfs.nodes and not any(vfs.isfile('/'.join(full.split('/')[:i]))
                                                     for i in range(2, full.count('/') + 1)):
                    vfs.makedirs(full)
                    vfs.nodes[full + '/keep'] = b'keep'
            for p in want:
                full = vfs.norm(p, remote)
                if vfs.isdir(full):
                    obstacle = True
                parts = full.split('/')
                if any(vfs.isfile('/'.join(parts[:i])) for i in range(2, len(parts))):
                    obstacle = True
            if any(vfs.isfile('/'.join(remote.split('/')[:i])) for i in range(2, remote.count('/') + 2)):
                obstacle = True
            dest = {vfs.norm(p, remote)[1:]: d for p, d in want.items()}
            before = vfs.files()
            src_before = (fs.tree(src) if use_dir else {}, fs.tree(loc))
            fired0 = dict(sim.fired)
            lf = [(lsp.rstrip('/') + '/' + n) for n in lfiles] + [os.path.join(sp, p) for p in both.values()]

            def act():
                nonlocal sender
                if fresh:
                    sender = self.FTPSender(properties=props, local_files=lf if lf else None,
                                            local_directory=sp if use_dir else None)
                return sender.send()
            steps.append(dict(remote=rspell, files=lf, directory=sp if use_dir else None,
                              tree={p: len(d) for p, d in files.items()}, obstacle=obstacle))
            st, val = sim.run_one(act)
            sim.log('RESULT', st, val if st == 'ok' else type(val).__name__)
            got_fault = sim.fired != fired0 or vfs.full
            self.verdict(sim, st, val, before, vfs.files(), dest, len(want), obstacle, got_fault)
            sim.drain()
            self.verdict(sim, st, val, before, vfs.files(), dest, len(want), obstacle, got_fault)
            if (fs.tree(src) if use_dir else {}, fs.tree(loc)) != src_before:
                raise Violation('source-changed', 'a source file was modified')
            if st != 'ok':
                sim.plan = {}
                vfs.full = False
                if obstacle or sender is None:
                    break
                before = vfs.files()
                st, val = sim.run_one(lambda: sender.send())
                sim.log('RETRY', st)
                if st != 'ok':
                    raise Violation('no-recovery', describe(val))
                self.verdict(sim, st, val, before, vfs.files(), dest, len(want), obstacle, True)
                sim.probe('recovered')
        return dict(nontrivial=True, sample=steps, state=[sorted(sim.fired), st])

    def verdict(self, sim, st, val, before, after, dest, count, obstacle, got_fault):
        for p, d in before.items():
            if p not in dest and after.get(p) != d:
                raise Violation('unrelated-changed', f'{p!r} was {work.brief(d)} now {work.brief(after.get(p))}')
        if st == 'ok':
            if obstacle:
                raise Violation('unsent-not-reported', 'send returned although it could not have worked')
            try:
                n, msg = val
            except Exception:
                raise Violation('bad-return', repr(val))
            exp = dict(before)
            exp.update(dest)
            df = work.diff_trees(exp, after)
            if df:
                raise Violation('not-mirrored', df)
            if n != count:
                raise Violation('wrong-count', f'{n} returned for {count} files')
        elif not got_fault and not obstacle:
            raise Violation('unexpected-exception', describe(val))


class Poll:
    """Server-side invariant over a Vfs: complete versions only."""

    def __init__(self, sim, vfs, allowed, other):
        self.sim, self.vfs, self.allowed, self.other = sim, vfs, allowed, other
        self.there = {p: vfs.isfile(p) for p in allowed}
        vfs.hooks.append(self.hook)
        sim.probe('watched', len(allowed))

    def hook(self, op, path):
        if path in self.allowed or path in self.other:
            self.look(path)
        if op in ('rename', 'unlink', 'rmdir'):
            self.all()

    def look(self, p):
        d = self.vfs.nodes.get(p)
        if p in self.allowed:
            if self.vfs.isfile(p):
                self.there[p] = True
            elif self.there[p]:
                self.sim.fail('disappeared', f'{p!r} vanished while being replaced')
            if d is not None and d not in self.allowed[p]:
                self.sim.fail('partial-visible', f'{p!r} shows {work.brief(d)}; complete versions have sizes '
                              f'{sorted(len(x) for x in self.allowed[p])}')
        elif p in self.other and d != self.other[p]:
            self.sim.fail('unrelated-changed', f'{p!r} was {work.brief(self.other[p])} now {work.brief(d)}')

    def all(self):
        for p in self.allowed:
            self.look(p)
        for p in self.other:
            self.look(p)


def concurrent(sim, vfs, make, faults, plainfile=False):
    """C04/C06: several senders to one directory of a Vfs. make(i, remote,
    local_files, local_directory) -> callable."""
    work.TAG[0] = 0
    ch = sim.ch
    sim.switch_p = ch.pick([0.5, 0.15, 0.85])
    cwd = os.getcwd()
    remote = '/pub/in'
    n = ch.weighted([(4, 2), (2, 1), (1, 3)])
    if ch.chance(0.8):
        vfs.makedirs(remote)
    names = []
    for _ in range(1 + ch.draw(3)):
        names.append(work.name(ch, True, names))
    if ch.chance(0.4):
        b = siblings(ch, names[0])
        if b not in names:
            names.append(b)
    allowed, jobs = {}, []
    for i in range(n):
        mine = [x for x in names if ch.chance(0.75)] or [names[0]]
        as_dir = ch.chance(0.6)
        src = os.path.join(cwd, f's{i}')
        sub = ch.pick(['', '', 'sub']) if as_dir else ''
        w = {}
        fs.makedirs(src)
        for x in mine:
            p = os.path.join(sub, x) if sub else x
            d = work.content(ch)
            fs.writefile(os.path.join(src, p), d)
            w[p] = d
            allowed.setdefault(vfs.norm(p, remote), set()).add(d)
        jobs.append((src, as_dir, w))
    pre, other = {}, {}
    if vfs.isdir(remote):
        for p in sorted(allowed):
            if ch.chance(0.4):
                d = work.content(ch)
                vfs.makedirs(os.path.dirname(p))
                vfs.nodes[p] = pre[p] = d
                allowed[p].add(d)
        for p in sorted(allowed):
            if ch.chance(0.25):
                q = siblings(ch, p)
                if q not in allowed and q not in vfs.nodes and vfs.isdir(os.path.dirname(q)):
                    vfs.nodes[q] = other[q] = work.content(ch, False)
    # files of the same names elsewhere
    for p in sorted(allowed):
        if ch.chance(0.2):
            b = os.path.basename(p)
            for q in ('/' + b, '/pub/' + b, '/home/u/' + b, remote + '/' + b, remote + '/sub2/' + b):
                if q not in allowed and q not in vfs.nodes and vfs.isdir(os.path.dirname(q)):
                    vfs.nodes[q] = other[q] = work.content(ch, False)
    sub = remote + '/sub'
    if plainfile and vfs.isdir(remote) and sub not in vfs.nodes and any(os.path.dirname(p) == sub for p in allowed) and ch.chance(0.3):
        vfs.nodes[sub] = b'in the way'
        for q in (sub + '2', sub + '.bak', remote + '/su'):
            if q not in allowed and q not in vfs.nodes:
                vfs.nodes[q] = other[q] = work.content(ch, False)
    poll = Poll(sim, vfs, allowed, other)
    sim.plan_faults(faults, p_none=0.5)
    kills = {}
    if ch.chance(0.4):
        kills[f's{ch.draw(n)}'] = 1 + ch.int_log(8)

    def mk(i):
        src, as_dir, w = jobs[i]
        return make(i, remote, None if as_dir else [os.path.join(src, x) for x in w], src if as_dir else None)
    res = sim.run_many([(f's{i}', mk(i)) for i in range(n)], kills)
    sim.log('RESULTS', [r[0] for r in res])
    poll.all()

    def present(i, when):
        for p, d in jobs[i][2].items():
            full = vfs.norm(p, remote)
            others = {d} | {jobs[j][2][p] for j in range(n) if j != i and p in jobs[j][2]}
            if vfs.nodes.get(full) not in others:
                raise Violation('lost-file', f's{i} returned but {full!r} holds {work.brief(vfs.nodes.get(full))} {when}')
    for i, (st, val) in enumerate(res):
        if st == 'raised' and not sim.fired:
            raise Violation('unexpected-exception', f's{i}: ' + describe(val))
        if st == 'ok':
            present(i, 'at the end')
    sim.drain()
    poll.all()
    if sim.fired:
        sim.plan = {}
        vfs.full = False
        for i, (st, val) in enumerate(res):
            if st == 'ok':
                continue
            st2, val2 = sim.run_one(mk(i), f'r{i}')
            if st2 != 'ok':
                raise Violation('no-recovery', describe(val2))
            for p, d in jobs[i][2].items():
                if vfs.nodes.get(vfs.norm(p, remote)) != d:
                    raise Violation('lost-file', f'restarted sender: {p!r}')
            sim.probe('recovered')
        sim.drain()
        poll.all()
    return dict(nontrivial=sim.switches > 0 or n == 1,
                sample=dict(senders=[dict(dir=j[1], files={p: len(d) for p, d in j[2].items()}) for j in jobs],
                            existing={p: len(d) for p, d in pre.items()}, other=sorted(other), kills=kills),
                state=[r[0] for r in res])


class C04(FtpBase):
    def run(self, sim):
        knobs(sim)
        vfs = net.Vfs(sim)
        net.FtpServer(sim, HOST, vfs)

        def make(i, remote, lf, ld):
            def fn():
                return self.FTPSender(properties={'remote_host': HOST, 'remote_directory': remote},
                                      local_files=lf, local_directory=ld).send()
            return fn
        return concurrent(sim, vfs, make, FAULTS)


SCENARIOS = {'C03': C03, 'C04': C04}
