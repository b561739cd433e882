"""C07: cancel files over the copy, FTP and SSH transports."""
import getpass
import os

from sim import fs, net, ssh
from sim.core import Violation
from . import copy as copy_, ftp, secure, work
from .base import Scenario, describe

TEXTS = [None, 'Cancelled', '', 'two\nlines', 'line\n', "it's \"quoted\"", 'cost $HOME $(x) `y` ; rm *', 'back\\slash \\n %s %d',
         '-n', 'na\u00efve \u6771', '  spaces  ', 'a' * 5000, '# hash', '* ?', '> out', '1\t2', 'x & y | z', "'", '!', '\\']
NAMES = ['.cancel', 'CANCEL', 'cancel me.txt', '-c', "it's", 'c;x', 'c$HOME', 'can*cel']
KINDS = {'copy': copy_.FAULTS, 'ftp': ftp.FAULTS, 'ssh': secure.FAULTS}


class C07(Scenario):
    preload = ('paramiko',)

    def setup(self):
        self.seams()
        net.install()
        ssh.install()
        from impactutils.transfer.copysender import CopySender
        from impactutils.transfer.ftpsender import FTPSender
        from impactutils.transfer.securesender import SecureSender
        self.cls = dict(copy=CopySender, ftp=FTPSender, ssh=SecureSender)

    def run(self, sim):
        work.TAG[0] = 0
        ch = sim.ch
        kind = ch.pick(['copy', 'ftp', 'ssh'])
        dict(copy=copy_.knobs, ftp=ftp.knobs, ssh=secure.knobs)[kind](sim)
        cwd = os.getcwd()
        cname = ch.pick(NAMES) if ch.chance(0.7) else '.cancel'
        vfs = None
        exists = ch.chance(0.85)
        if kind == 'copy':
            remote = os.path.join(sim.top, ch.pick(['remote', 'cwd/out', 'rem ote', 'remote/a']))
            if exists:
                fs.makedirs(remote)
            rspell = work.spell(ch, remote, cwd)
            props = {'remote_directory': rspell}
        else:
            vfs = net.Vfs(sim)
            home = '/home/u'
            vfs.makedirs(home)
            remote = ch.pick(['/pub', '/pub/ev 1', '/home/u/in', "/home/u/it's $X"])
            if exists:
                vfs.makedirs(remote)
            rel = os.path.relpath(remote, home)
            if kind == 'ftp':       # relative folders are taken from the root, as by send()
                rel = remote.strip('/')
            rspell = ch.pick([remote, remote + '/'] + ([] if rel.startswith('..') else [rel]))
            if kind == 'ftp':
                net.FtpServer(sim, ftp.HOST, vfs, None, home)
                props = {'remote_host': ftp.HOST, 'remote_directory': rspell}
            else:
                server = ssh.SshServer(sim, secure.HOST, vfs, home)
                props = {'remote_host': secure.HOST, 'remote_directory': rspell, 'private_key': '/keys/id'}
                if ch.chance(0.5):
                    props['remote_user'] = 'ops'
                server.account = (props.get('remote_user', getpass.getuser()), '/keys/id')

        def put(p, d):
            if vfs is None:
                fs.writefile(os.path.join(remote, p), d)
            else:
                vfs.makedirs(remote)
                vfs.nodes[vfs.norm(p, remote)] = d

        def view():
            if vfs is None:
                return {p: d for p, d in fs.tree(remote).items() if d is not None} if os.path.isdir(remote) else {}
            return {os.path.relpath('/' + p, remote): d for p, d in vfs.files().items()}
        src = os.path.join(cwd, 'ev')
        files = {}
        for _ in range(1 + ch.draw(2)):
            files[work.name(ch, True, list(files) + [cname])] = work.content(ch, False)
        work.put_tree(src, files)
        if exists:
            if ch.chance(0.4):
                put(cname, b'an earlier and longer cancel text\n' * ch.pick([1, 400]))
            if ch.chance(0.5):
                put(cname + '2', b'other')
                put('keep.txt', b'keep')
            if ch.chance(0.3):
                put(ch.pick([cname + '.tmp', cname + '~', 'tmp']), b'mine')
        sim.plan_faults(KINDS[kind], p_none=0.45)
        sender = None
        hist = []
        for k in range(1 + ch.draw(4)):
            op = ch.weighted([(3, 'cancel'), (2, 'send')])
            text = ch.pick(TEXTS)
            before = view()
            fired0 = dict(sim.fired)
            dir_there = bool(before) or (os.path.isdir(remote) if vfs is None else vfs.isdir(remote))
            fresh = sender is None or ch.chance(0.4)
            tmp0 = set(os.listdir(os.path.join(sim.top, 'tmp')))

            def act():
                nonlocal sender
                if fresh:
                    sender = self.cls[kind](properties=props, local_directory=src, cancelfile=cname)
                if op == 'send':
                    return sender.send()
                return sender.cancel(text) if text is not None else sender.cancel()
            hist.append((op, text if op == 'cancel' else None))
            st, val = sim.run_one(act)
            sim.log('RESULT', op, st, val if st == 'ok' else type(val).__name__)
            hurt = sim.fired != fired0
            for late in (False, True):
                if late:
                    if vfs is None:
                        break
                    sim.drain()
                after = view()
                self.verdict(sim, kind, op, st, val, before, after, cname, text, files, hurt or not dir_there, hist)
            if st == 'ok' and op == 'cancel' and set(os.listdir(os.path.join(sim.top, 'tmp'))) - tmp0:
                raise Violation('temporary-left', 'cancel left temporary files behind locally')
            if st != 'ok':
                sim.plan = {}
                sim.disk_full = False
                if vfs is not None:
                    vfs.full = False
                if not hurt:
                    put('keep.txt', b'keep')
        return dict(nontrivial=True, sample=dict(transport=kind, remote=rspell, name=cname, history=hist),
                    state=[kind, [h[0] for h in hist], sorted(sim.fired)])

    def verdict(self, sim, kind, op, st, val, before, after, cname, text, files, hurt, hist):
        mine = {cname} | (set(files) if op == 'send' else set())
        for p, d in before.items():
            if p not in mine and after.get(p) != d:
                raise Violation('unrelated-changed', f'{op}: {p!r} was {work.brief(d)} now {work.brief(after.get(p))}')
        if st != 'ok':
            if not hurt:
                raise Violation('unexpected-exception', f'{op}: ' + describe(val))
            return
        if op == 'cancel':
            want = (text or '').encode('utf-8')
            got = after.get(cname)
            if got is None:
                raise Violation('no-cancel-file', f'cancel returned, {cname!r} is not there')
            if got not in (want, want + b'\n'):
                raise Violation('wrong-content', f'want {work.brief(want)} got {work.brief(got)}')
            extra = set(after) - set(before) - {cname}
            if extra:
                raise Violation('temporary-left', f'{sorted(extra)}')
        elif kind == 'copy' and cname in after:
            raise Violation('cancel-not-removed', f'{cname!r} is still there after send')


SCENARIOS = {'C07': C07}
