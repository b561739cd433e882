"""C11: histories of calls on senders of every kind."""
import email
import io
import os
import zipfile
from collections import Counter

from sim import fs, net, proc, ssh
from sim.core import Violation
from . import copy as copy_, ftp, mail, secure, work
from .base import Scenario, describe

KINDS = ['copy', 'ftp', 'ssh', 'email', 'pdl']
SMTP = 'smtp.example.org'
FAULTS = {'copy': copy_.FAULTS, 'ftp': ftp.FAULTS, 'ssh': secure.FAULTS, 'email': mail.FULL, 'pdl': proc.CATS}
PDL = dict(java='/usr/bin/java', jarfile='/opt/Client.jar', privatekey='/keys/id', configfile='/etc/config.ini',
           type='shakemap', code='us1', eventsource='us', eventsourcecode='1')


class S:
    """What a sender should send, from the calls made on it."""
    obj = kind = dir = key = remote = None
    files = ()


class C11(Scenario):
    preload = ('paramiko',)

    def setup(self):
        self.seams()
        net.install()
        ssh.install()
        proc.install()
        import mimetypes
        import shutil   # noqa
        mimetypes.knownfiles = []
        mimetypes.init([])
        from impactutils.exceptions import PDLError
        from impactutils.transfer.copysender import CopySender
        from impactutils.transfer.emailsender import EmailSender
        from impactutils.transfer.ftpsender import FTPSender
        from impactutils.transfer.pdlsender import PDLSender
        from impactutils.transfer.securesender import SecureSender
        self.PDLError = PDLError
        self.cls = dict(copy=CopySender, ftp=FTPSender, ssh=SecureSender, email=EmailSender, pdl=PDLSender)

    # -- one kind of transport each ------------------------------------------
    def base_props(self, kind, key, zname):
        if kind == 'copy':
            return {'remote_directory': os.path.join(self.sim.top, key)}
        if kind == 'ftp':
            return {'remote_host': ftp.HOST, 'remote_directory': '/' + key}
        if kind == 'ssh':
            return {'remote_host': secure.HOST, 'remote_directory': '/' + key, 'private_key': '/keys/id'}
        if kind == 'email':
            p = {'smtp_servers': [SMTP], 'sender': 'me@sender.example.org', 'subject': 'S', 'message': 'm\n',
                 'recipients': [key + '@example.org']}
            if zname:
                p['zip_file'] = zname
            return p
        return dict(PDL, source=key)

    @staticmethod
    def keyprop(kind, key, sim):
        """The property that says where this sender's files go."""
        return {'copy': ('remote_directory', os.path.join(sim.top, key)), 'ftp': ('remote_directory', '/' + key),
                'ssh': ('remote_directory', '/' + key), 'email': ('recipients', [key + '@example.org']),
                'pdl': ('source', key)}[kind]

    def view(self, s):
        """Files at the destination of a sender."""
        if s.kind == 'copy':
            d = os.path.join(self.sim.top, s.key)
            return {p: b for p, b in fs.tree(d).items() if b is not None} if os.path.isdir(d) else {}
        v = self.ftpfs if s.kind == 'ftp' else self.sshfs
        pre = s.key + '/'
        out = {}
        for p, b in v.files().items():
            p = p.lstrip('/')
            if p.startswith(pre):
                out[p[len(pre):]] = b
        return out

    def check_tree(self, s, before, want):
        exp = dict(before)
        exp.update(want)
        df = work.diff_trees(exp, self.view(s))
        if df:
            self.sim.fail('wrong-files', f'{s.kind}: {df}')

    def check_mail(self, s, got, want, same, zname, full):
        sim = self.sim
        if len(got) != 1:
            sim.fail('not-one-message', f'{len(got)} messages accepted for one send')
        m = email.message_from_bytes(got[0]['data'])
        atts = [(mail.hdr(p.get_filename()), p.get_payload(decode=True)) for p in m.walk()
                if not p.is_multipart() and p.get_filename() is not None]
        if zname and (s.files or s.dir):
            if [n for n, _ in atts] != [zname]:
                sim.fail('wrong-files', f'attached {[n for n, _ in atts]}')
            z = zipfile.ZipFile(io.BytesIO(atts[0][1]))
            names = [i.filename for i in z.infolist() if not i.is_dir()]
            df = work.diff_trees(want, {n: z.read(n) for n in names})
            if df or len(names) > full:
                sim.fail('wrong-files', f'zip: {df or names}')
            return
        w = set((os.path.basename(p), d) for p, d in want.items()) | set((b, d) for b in same for d in same[b])
        if set(atts) != w or len(atts) > full:
            sim.fail('wrong-files', f'attached {sorted((n, work.brief(d)) for n, d in atts)} want '
                     f'{sorted((n, work.brief(d)) for n, d in w)}'[:500])

    def check_argv(self, s, ran):
        sim = self.sim
        if len(ran) != 1:
            sim.fail('not-run-once', f'{len(ran)} commands for one send')
        calls = proc.commands(sim, self.shvfs, ran[0])
        if len(calls) != 1:
            sim.fail('not-one-command', str(calls)[:200])
        av = calls[0][0]
        got = [a for a in av if a.startswith(('--file', '--directory', '--source'))]
        want = ['--source=' + s.key]
        if s.files:
            want.append('--file=' + s.files[0])
        if s.dir is not None:
            want.append('--directory=' + s.dir)
        if Counter(got) != Counter(want):
            sim.fail('wrong-files', f'pdl: {got} instead of {want}')

    # -- the run ---------------------------------------------------------------
    def run(self, sim):
        work.TAG[0] = 0
        ch = sim.ch
        self.sim = sim
        kinds = [ch.pick(KINDS)] if ch.chance(0.8) else ch.subset(KINDS, 0.5) or ['copy']
        copy_.knobs(sim)
        if 'ftp' in kinds:
            ftp.knobs(sim)
        if 'ssh' in kinds:
            secure.knobs(sim)
        sim.latency = 0.002
        cwd = os.getcwd()
        self.ftpfs, self.sshfs, self.shvfs = net.Vfs(sim), net.Vfs(sim), net.Vfs(sim)
        net.FtpServer(sim, ftp.HOST, self.ftpfs, None, '/')
        self.sshfs.makedirs('/home/u')
        self.shvfs.makedirs('/home/u')
        ssh.SshServer(sim, secure.HOST, self.sshfs, '/home/u')
        srv = net.SmtpServer(sim, SMTP)
        proc.PROGRAM[0] = lambda p: [('out', b'sent\n'), ('exit', 0)]
        zname = 'all.zip' if ch.chance(0.5) else None

        pool = {}           # file that can be given -> its bytes
        used = []
        for i in range(3 + ch.draw(4) + (40 if ch.chance(0.03) else 0)):
            n = work.name(ch, True, used)
            used.append(n)
            p = os.path.join(cwd, 'pool', n)
            pool[p] = work.content(ch, False)
            fs.writefile(p, pool[p])
        work.linkify(ch, sim, os.path.join(cwd, 'pool'), {os.path.basename(p): d for p, d in pool.items()})
        single = sorted(pool)       # no two of the same name
        if ch.chance(0.3):
            # other files of the same name
            for p in ch.subset(single, 0.4):
                q = os.path.join(cwd, 'pool', 'again', os.path.basename(p))
                pool[q] = work.content(ch, False)
                fs.writefile(q, pool[q])
        dirs = {}
        for i in range(1 + ch.draw(3)):
            d = os.path.join(cwd, f'dir{i}')
            t, ds = work.tree(ch, 3, big=False)
            # top-level names distinct from the pool's, so destinations never collide
            t = {f'd{i}_{p}': v for p, v in t.items()}
            work.put_tree(d, t)
            dirs[d] = t
            if ch.chance(0.3):
                # files of the directory that may also be given one by one
                for b, p in work.twice(ch, t, [], used).items():
                    if not b.startswith('d'):
                        used.append(b)
                        pool[os.path.join(d, p)] = t[p]
                for p in sorted(t):
                    if '/' not in p and ch.chance(0.3):
                        used.append(p)
                        pool[os.path.join(d, p)] = t[p]
        away = {}           # files that do not exist at the moment
        shared_lists = [[], [p for p in sorted(pool) if '/again/' not in p and ch.chance(0.4)]]
        shared_props = {k: self.base_props(k, 'shared', zname) for k in KINDS}
        snap_props = {k: dict(v) for k, v in shared_props.items()}
        snap_lists = {id(l): list(l) for l in shared_lists}
        nact = ch.weighted([(3, 1), (2, 2)])
        sim.switch_p = 0.5
        faulty = nact == 1 and ch.chance(0.3)
        if faulty:
            cats = {}
            for k in kinds:
                cats.update(FAULTS[k])
            sim.plan_faults(cats, p_none=0)
        trace = []

        def clean(where):
            for l in shared_lists:
                if l != snap_lists[id(l)]:
                    sim.fail('caller-list-changed', where)
            if shared_props != snap_props:
                sim.fail('caller-properties-changed', where)

        def rejected(fn, what):
            try:
                fn()
            except FileNotFoundError:
                pass
            except Exception as e:
                sim.fail('wrong-exception', f'{what}: {describe(e)}')
            else:
                sim.fail('missing-accepted', f'{what} accepted a missing path')
            clean(what)

        def worker(aid, nops):
            mine = []
            nkey = [0]

            def newkey():
                nkey[0] += 1
                return f'r{aid}x{nkey[0]}'

            def there():
                return [p for p in sorted(pool) if p not in away]

            def fit(kind, had, new):
                # a zip archive holds one file of a name
                out = []
                for p in new:
                    if kind == 'email' and zname and os.path.basename(p) in [os.path.basename(q) for q in had + out]:
                        continue
                    out.append(p)
                return out

            def construct():
                s = S()
                s.kind = ch.pick(kinds)
                own = ch.chance(0.3)
                lst = fit(s.kind, [], [p for p in there() if ch.chance(0.4)]) if own else ch.pick(shared_lists)
                if any(p in away for p in lst):
                    lst = []
                if s.kind == 'pdl' and ch.chance(0.6):
                    lst = lst[:1]
                    own = True
                s.dir = ch.pick(sorted(dirs)) if ch.chance(0.4) else None
                s.files = list(lst)
                s.key = newkey()
                name, val = self.keyprop(s.kind, s.key, sim)
                sh = ch.chance(0.3)
                pr = shared_props[s.kind] if sh else self.base_props(s.kind, s.key, zname)
                s.obj = self.cls[s.kind](properties=pr, local_files=lst if lst or ch.chance(0.5) else None,
                                         local_directory=s.dir)
                if sh:
                    s.obj.addProperty(name, val)
                if own and lst and ch.chance(0.5):
                    lst.append(os.path.join(cwd, 'nope'))     # the caller goes on using his list
                mine.append(s)
                clean('construction')
                return s

            def send(s):
                want = {}
                same = {}       # name -> all files of that name
                for f in s.files:
                    want[os.path.basename(f)] = pool[f]
                    same.setdefault(os.path.basename(f), set()).add(pool[f])
                if s.dir is not None:
                    want.update(dirs[s.dir])
                gone = any(f in away for f in s.files)
                tree = s.kind in ('copy', 'ftp', 'ssh')
                before = self.view(s) if tree else None
                rcpt = s.key + '@example.org'
                nmail = len([a for a in srv.accepted if rcpt in a['rcpt']])
                procs0 = [p for p in proc.STARTED]
                fired0 = dict(sim.fired)
                exc = n = None
                try:
                    n, _ = s.obj.send()
                except Exception as e:
                    exc = e
                clean('send')
                ran = [p for p in proc.STARTED if p not in procs0 and '=' + s.key in str(p.command)]
                if s.kind == 'pdl' and len(s.files) > 1:
                    if not isinstance(exc, self.PDLError) or ran:
                        sim.fail('several-files-accepted', str(n))
                    return
                if s.kind == 'pdl':
                    gone = False        # only its name goes to the client
                if exc is not None:
                    if sim.fired == fired0 and not gone:
                        sim.fail('unexpected-exception', f'{s.kind}: {describe(exc)}')
                    # whatever it did, it must not have forgotten or learned anything
                    sim.plan = {}
                    sim.disk_full = self.ftpfs.full = self.sshfs.full = False
                    s.key = newkey()
                    s.obj.addProperty(*self.keyprop(s.kind, s.key, sim))
                    sim.probe('failed')
                    return
                full = len(s.files) + (len(dirs[s.dir]) if s.dir is not None else 0)
                if gone:
                    sim.fail('missing-sent', f'{s.kind}: send of a file that is not there returned')
                if tree:
                    got = self.view(s)
                    want.update({b: got[b] for b in same if got.get(b) in same[b]})
                    self.check_tree(s, before, want)
                elif s.kind == 'email':
                    got = [a for a in srv.accepted if rcpt in a['rcpt']][nmail:]
                    self.check_mail(s, got, want, same, zname, full)
                else:
                    self.check_argv(s, ran)
                paths = set(s.files) | set(os.path.join(s.dir, p) for p in (dirs[s.dir] if s.dir is not None else ()))
                # a file may have been given in two ways
                if n not in (full, len(paths), len(want) if all(len(v) == 1 for v in same.values()) else full):
                    sim.fail('wrong-count', f'{s.kind}: {n} for {full}')
                sim.probe('send')
                sim.probe('send_' + s.kind)

            def body():
                for k in range(nops):
                    op = 'new' if not mine else ch.weighted(
                        [(4, 'send'), (3, 'add'), (2, 'chdir'), (2, 'new'), (1, 'addbad'), (1, 'chdirbad'), (1, 'newbad'),
                         (1, 'prop'), (1, 'addnone'), (1, 'edit'), (1, 'vanish'), (1, 'appear'), (1, 'grow')])
                    sim.point('op')
                    sim.log('OP', op)
                    trace.append((aid, op))
                    if op == 'new':
                        construct()
                        continue
                    s = ch.pick(mine)
                    if op == 'newbad':
                        kind = ch.pick(kinds)
                        pr = self.base_props(kind, 'bad', zname)
                        good = [p for p in there()][:1]
                        nope = ch.pick(sorted(away) + [os.path.join(cwd, 'nope')])
                        lst = ch.shuffled(good + [nope])
                        had = list(lst)
                        if ch.chance(0.5):
                            rejected(lambda: self.cls[kind](properties=pr, local_files=lst), 'constructor')
                        else:
                            rejected(lambda: self.cls[kind](properties=pr, local_directory=os.path.join(cwd, 'nodir')),
                                     'constructor')
                        if lst != had:
                            sim.fail('caller-list-changed', 'constructor')
                    elif op == 'add':
                        new = fit(s.kind, s.files, [p for p in there() if p not in s.files and ch.chance(0.5)])
                        if s.kind == 'pdl' and ch.chance(0.6):
                            new = new[:max(0, 1 - len(s.files))]
                        arg = list(new)
                        s.obj.addFiles(arg)
                        s.files = s.files + new
                        if arg != new:
                            sim.fail('caller-list-changed', 'addFiles changed its argument')
                        if ch.chance(0.3):
                            arg.append(os.path.join(cwd, 'nope'))
                        clean('addFiles')
                    elif op == 'addnone':
                        s.obj.addFiles([])
                        clean('addFiles')
                    elif op == 'addbad':
                        new = [p for p in there() if p not in s.files][:2]
                        bad = new[:1] + [ch.pick(sorted(away) + [os.path.join(cwd, 'nope')])] + new[1:]
                        if ch.chance(0.3):
                            bad = ch.shuffled(bad)
                        rejected(lambda: s.obj.addFiles(bad), 'addFiles')
                    elif op == 'chdir':
                        d = ch.pick(sorted(dirs))
                        if ch.chance(0.5):
                            s.obj.changeDirectory(d)
                        else:
                            s.obj.changeDirectory(d, directory_alias='alias')
                        s.dir = d
                    elif op == 'chdirbad':
                        rejected(lambda: s.obj.changeDirectory(os.path.join(cwd, 'nodir')), 'changeDirectory')
                    elif op == 'prop':
                        s.key = newkey()
                        s.obj.addProperty(*self.keyprop(s.kind, s.key, sim))
                        clean('addProperty')
                    elif op in ('edit', 'vanish', 'appear'):
                        if nact > 1:
                            continue
                        old = None
                        if op == 'edit':
                            p = ch.pick(there() or [None])
                            if p is None:
                                continue
                            d = work.content(ch, False)
                            if ch.chance(0.3) and len(pool[p]) > 8:
                                # as long and as old as it was before
                                work.TAG[0] += 1
                                d = b'<e%d>' % work.TAG[0] + pool[p][:4] + bytes(len(pool[p]))
                                d = d[:len(pool[p])]
                                if d == pool[p]:
                                    continue
                                old = os.stat(p)
                        elif op == 'vanish':
                            p = ch.pick([p for p in there() if p.startswith(os.path.join(cwd, 'pool'))] or [None])
                            if p is None:
                                continue
                            away[p] = pool[p]
                            fs.O.remove(p)
                            continue
                        else:
                            p = ch.pick(sorted(away) or [None])
                            if p is None:
                                continue
                            d = away.pop(p)
                        fs.writefile(p, d)
                        if old:
                            os.utime(p, ns=(old.st_atime_ns, old.st_mtime_ns))
                        pool[p] = d
                        for t in dirs:
                            if p.startswith(t + '/'):
                                dirs[t][os.path.relpath(p, t)] = d
                    elif op == 'grow':
                        # the directory gets another file or loses one
                        if nact > 1:
                            continue
                        t = s.dir if s.dir is not None and ch.chance(0.8) else ch.pick(sorted(dirs))
                        old = [p for p in sorted(dirs[t]) if os.path.join(t, p) not in pool]
                        if old and ch.chance(0.4):
                            p = ch.pick(old)
                            fs.O.remove(os.path.join(t, p))
                            del dirs[t][p]
                            continue
                        p = ch.pick(['', 'd_new/', 'd_new/sub/']) + f'd_n{len(trace)}_{aid}'
                        dirs[t][p] = work.content(ch, False)
                        fs.writefile(os.path.join(t, p), dirs[t][p])
                    elif op == 'send':
                        send(s)
                # at the end every sender still has exactly its own history
                for s in mine:
                    if ch.chance(0.5):
                        sim.log('OP', 'final send')
                        send(s)
                return len(mine)
            return body
        ops = [2 + ch.draw(8) for _ in range(nact)]
        if nact == 1:
            res = [sim.run_one(worker(0, ops[0]))]
        else:
            res = sim.run_many([(f't{i}', worker(i, ops[i])) for i in range(nact)])
        for st, val in res:
            if st != 'ok':
                raise Violation('unexpected-exception', describe(val))
        return dict(nontrivial='send' in sim.probes, sample=dict(kinds=kinds, ops=trace), state=None)


SCENARIOS = {'C11': C11}
