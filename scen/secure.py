"""C05, C06: the SSH sender against a simulated host."""
import getpass
import os

from sim import fs, net, ssh
from sim.core import Violation
from . import work
from .base import Scenario, describe
from .ftp import C03, concurrent, siblings

FAULTS = dict(ssh.CATS)
FAULTS.update({k: fs.CATS[k] for k in ('fs.openr', 'fs.read', 'fs.list')})
FAULTS.update(ssh.SCP_REPLY)
HOST = 'ssh.example.org'
KEY = '/keys/id'


class SshBase(Scenario):
    preload = ('paramiko',)

    def setup(self):
        self.seams()
        ssh.install()
        from impactutils.transfer.securesender import SecureSender
        self.SecureSender = SecureSender


def knobs(sim):
    ch = sim.ch
    sim.short_io = ch.pick([0, 0, 0, 0.2])
    sim.latency = ch.pick([0.002, 0.05, 0.0005])
    sim.frag = ch.pick([0, 0, 0.3])
    sim.same_pid = ch.chance(0.5)
    sim.clock_res = ch.pick([0, 0, 0, 0.015625, 1])
    sim.start_delay = ch.pick([0, 0.01, 0.3, 1.0])
    sim.sh_escapes = ch.chance(0.5)
    sim.kill_hooks.append(ssh.on_kill)


class C05(SshBase):
    def run(self, sim):
        work.TAG[0] = 0
        ch = sim.ch
        knobs(sim)
        cwd = os.getcwd()
        vfs = net.Vfs(sim)
        home = '/home/u'
        server = ssh.SshServer(sim, HOST, vfs, home)
        remote = ch.pick(['/pub', '/pub/in/ev 1', '/event', '/home/u/event', '/home/u/src/ev', '/a/b/c',
                          "/home/u/it's $HOME;x", '/home/u/a*b'])
        if ch.chance(0.5):
            vfs.makedirs(remote)
        rel = os.path.relpath(remote, home)
        sp = [(4, remote), (2, remote + '/')]
        if not rel.startswith('..'):
            sp += [(3, rel), (1, './' + rel), (1, rel + '/')]
            if all(c.isalnum() or c == '/' for c in rel):
                sp.append((1, '~/' + rel))
        rspell = ch.weighted(sp)
        props = {'remote_host': HOST, 'remote_directory': rspell, 'private_key': KEY}
        if ch.chance(0.5):
            props['remote_user'] = 'u'
        server.account = (props.get('remote_user', getpass.getuser()), KEY)
        sim.plan_faults(FAULTS)
        sender = None
        steps = []
        for k in range(ch.weighted([(5, 1), (3, 2)])):
            fresh = sender is None or ch.chance(0.5)
            if fresh:
                src = os.path.join(cwd, f'd{k}', ch.pick(['event', 'src', 'ev 1', 'w']))
                loc = os.path.join(cwd, f'f{k}')
                files, dirs, lfiles = {}, [], {}
                use_dir = ch.chance(0.75)
                if use_dir:
                    files, dirs = work.tree(ch, 4, repeat=('event', 'src', 'pub'))
                if not use_dir or ch.chance(0.4):
                    used = set(p.split('/')[0] for p in list(files) + dirs)
                    for _ in range(1 + ch.draw(2)):
                        n = work.name(ch, True, used | set(lfiles))
                        lfiles[n] = work.content(ch)
                lsp_dir = work.vialink(ch, cwd, src, work.spell(ch, src, cwd), k)
                lsp = work.spell(ch, loc, cwd)
                both = work.twice(ch, files, dirs, lfiles) if ch.chance(0.2) else {}
            else:
                for p in list(files):
                    if ch.chance(0.4):
                        files[p] = work.content(ch)
            if use_dir:
                work.put_tree(src, files, dirs)
                work.linkify(ch, sim, src, files, k)
            fs.makedirs(loc)
            for n, d in lfiles.items():
                fs.writefile(os.path.join(loc, n), d)
            want = dict(files)
            want.update(lfiles)
            want.update({b: files[p] for b, p in both.items()})
            if vfs.isdir(remote):
                for p in sorted(want):
                    full = vfs.norm(p, remote)
                    if ch.chance(0.25) and vfs.isdir(os.path.dirname(full)) and full not in vfs.nodes:
                        vfs.nodes[full] = work.content(ch, False)
                    if ch.chance(0.2):
                        full = vfs.norm(siblings(ch, p), remote)
                        if vfs.isdir(os.path.dirname(full)) and full not in vfs.nodes:
                            vfs.nodes[full] = work.content(ch, False)
            if ch.chance(0.4):
                for q in ('/other.txt', home + '/ax', home + '/x', home + '/-rf'):
                    vfs.nodes.setdefault(q, b'other')
            obstacle = use_dir and work.dangle(ch, src)
            if want and ch.chance(0.06):
                full = vfs.norm(ch.pick(sorted(want)), remote)
                if full not in vfs.nodes and not any(vfs.isfile('/'.join(full.split('/')[:i]))
                                                     for i in range(2, full.count('/') + 1)):
                    vfs.makedirs(full)
                    vfs.nodes[full + '/keep'] = b'keep'
            replaced = set()      # files standing where a folder has to be: may be replaced
            if want and ch.chance(0.04):
                full = os.path.dirname(vfs.norm(ch.pick(sorted(want)), remote))
                if full not in vfs.nodes and full.startswith(remote) and vfs.isdir(os.path.dirname(full)):
                    vfs.nodes[full] = b'in the way'
            for p in want:
                full = vfs.norm(p, remote)
                if vfs.isdir(full):
                    obstacle = True
                parts = full.split('/')
                for i in range(2, len(parts)):
                    q = '/'.join(parts[:i])
                    if vfs.isfile(q):
                        replaced.add(q[1:])
            for i in range(2, remote.count('/') + 2):
                q = '/'.join(remote.split('/')[:i])
                if vfs.isfile(q):
                    replaced.add(q[1:])
            dest = {vfs.norm(p, remote)[1:]: d for p, d in want.items()}
            before = vfs.files()
            src_before = (fs.tree(src) if use_dir else {}, fs.tree(loc))
            fired0 = dict(sim.fired)
            lf = [(lsp.rstrip('/') + '/' + n) for n in lfiles] + [os.path.join(lsp_dir, p) for p in both.values()]

            def act():
                nonlocal sender
                if fresh:
                    sender = self.SecureSender(properties=props, local_files=lf if lf else None,
                                               local_directory=lsp_dir if use_dir else None)
                return sender.send()
            steps.append(dict(remote=rspell, files=lf, directory=lsp_dir if use_dir else None,
                              tree={p: len(d) for p, d in files.items()}, obstacle=obstacle, replaced=sorted(replaced)))
            st, val = sim.run_one(act)
            sim.log('RESULT', st, val if st == 'ok' else type(val).__name__)
            # a file that stands exactly where the folder of the files has to be is replaced
            easy = all(q == os.path.dirname(vfs.norm(p, remote)) for q in ('/' + r for r in replaced) for p in want
                       if vfs.norm(p, remote).startswith(q + '/'))
            easy = easy and not any(remote.startswith('/' + q + '/') for q in replaced)
            # (except under a name with a slash at its end)
            easy = easy and not (rspell.endswith('/') and remote[1:] in replaced)
            got_fault = sim.fired != fired0 or vfs.full or not easy
            self.verdict(sim, st, val, before, vfs.files(), dest, len(want), obstacle, got_fault, replaced)
            sim.drain()
            self.verdict(sim, st, val, before, vfs.files(), dest, len(want), obstacle, got_fault, replaced)
            if (fs.tree(src) if use_dir else {}, fs.tree(loc)) != src_before:
                raise Violation('source-changed', 'a source file was modified')
            if st != 'ok':
                sim.plan = {}
                vfs.full = False
                if obstacle or replaced or sender is None:
                    break
                before = vfs.files()
                st, val = sim.run_one(lambda: sender.send())
                sim.log('RETRY', st)
                if st != 'ok':
                    raise Violation('no-recovery', describe(val))
                self.verdict(sim, st, val, before, vfs.files(), dest, len(want), obstacle, True, replaced)
                sim.drain()
                sim.probe('recovered')
        return dict(nontrivial=True, sample=steps, state=[sorted(sim.fired), st])

    def verdict(self, sim, st, val, before, after, dest, count, obstacle, got_fault, replaced):
        before = {p: d for p, d in before.items() if p not in replaced}
        after = {p: d for p, d in after.items() if p not in replaced}
        C03.verdict(self, sim, st, val, before, after, dest, count, obstacle, got_fault)


class C06(SshBase):
    def run(self, sim):
        knobs(sim)
        vfs = net.Vfs(sim)
        ssh.SshServer(sim, HOST, vfs)

        def make(i, remote, lf, ld):
            def fn():
                return self.SecureSender(properties={'remote_host': HOST, 'remote_directory': remote,
                                                     'private_key': KEY},
                                         local_files=lf, local_directory=ld).send()
            return fn
        return concurrent(sim, vfs, make, FAULTS, plainfile=True)


SCENARIOS = {'C05': C05, 'C06': C06}
