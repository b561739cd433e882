"""C08, C09, C10: the e-mail sender against simulated SMTP servers."""
import email
import email.header
import io
import os
import re
import zipfile
from email.utils import parseaddr

from sim import fs, net
from sim.core import Violation
from . import work
from .base import Scenario, describe

NET = dict(net.CATS)
NET.update(net.SMTP_CATS)
FULL = dict(NET)
FULL.update({k: fs.CATS[k] for k in ('fs.openr', 'fs.read', 'fs.list', 'fs.create', 'fs.write', 'fs.close',
                                     'fs.mkdir')})
TOKEN = re.compile(rb'[A-Za-z0-9._+-]+@[A-Za-z0-9.-]+')
EXTRA = ['mail.eml', 'page.mht', 'p.html', 'x.csv', 'snd.wav', 'pic.png', 'v.mp4', 'doc.pdf', 'z.tar.gz', 'k.kml', 'page.nws']


def servers(sim, recips, pmax=4):
    ch = sim.ch
    out = []
    n = ch.weighted([(3, 1), (4, 2), (2, 3), (1, 0), (1, 5)])
    hosts = ['smtp%d.example.org' % i for i in range(n)]
    if ch.chance(0.5):
        hosts = ch.shuffled(['mx.example.org', 'alpha.example.org', 'Relay.example.org', 'zeta.example.org', '192.0.2.7'])[:n]
    for i in range(n):
        pol = {}
        k = ch.weighted([(8, 'ok'), (1, 'down'), (1, 'greet'), (1, 'from'), (1, 'data'), (1, 'data4'), (2, 'rcpt'), (2, 'defer'),
                         (1, 'all'), (1, 'max')])
        if k == 'down':
            pol['down'] = True
        elif k == 'greet':
            pol['greet'] = 'reject'
        elif k == 'from':
            pol['refuse_from'] = True
        elif k == 'data':
            pol['refuse_data'] = '5xx'
        elif k == 'data4':
            pol['refuse_data'] = '4xx'
        elif k == 'rcpt':
            pol['refuse_rcpt'] = set(ch.subset(recips, 0.4))
        elif k == 'defer':
            pol['defer_rcpt'] = set(ch.subset(recips, 0.4))
        elif k == 'all':
            pol['refuse_rcpt'] = set(recips)
        elif k == 'max':
            pol['max_rcpt'] = 1 + ch.draw(4)
        if k != 'ok':
            sim.probe('policy_' + k)
        out.append(net.SmtpServer(sim, hosts[i], pol))
    return out


def recipients(ch, maxn=8):
    n = ch.weighted([(2, 1), (3, 3), (2, 2), (1, 0), (2, -1), (1, -2)])
    if n == -1:
        n = ch.draw(maxn + 1)
    if n == -2:
        n = 20 + ch.draw(35)
    plain, given = [], []
    for i in range(n):
        a = ch.pick(['u%d@example.org', 'ops.%d@agency.gov', 'Duty.Officer%d@Agency.Example.GOV', 'x+%d@h-1.example.net']) % i
        plain.append(a)
        given.append(a if not ch.chance(0.06) else f'Person {i} <{a}>')
    return plain, given


def knobs(sim):
    ch = sim.ch
    sim.latency = ch.pick([0.002, 0.05])
    sim.frag = ch.pick([0, 0, 0.3])
    sim.short_io = ch.pick([0, 0, 0, 0.2])
    sim.utc_offset = ch.pick([0, -28800])


def limit(ch):
    k = ch.weighted([(2, None), (2, 0), (2, 1), (2, 2), (2, 3), (1, 5), (1, 'r'), (1, 100)])
    return 1 + ch.draw(30) if k == 'r' else k


class MailBase(Scenario):
    def setup(self):
        self.seams()
        net.install()
        import mimetypes
        mimetypes.knownfiles = []
        mimetypes.init([])
        from impactutils.transfer.emailsender import EmailSender
        self.EmailSender = EmailSender


def history(srvs):
    """All acceptances in order of time."""
    out = []
    for s in srvs:
        out += s.accepted
    return sorted(out, key=lambda a: a['t'])


def would_refuse(sim, srv, r):
    p = srv.policy
    return (srv.host in sim.fault_who or p.get('down') or p.get('greet') or p.get('refuse_from') or p.get('refuse_data')
            or p.get('max_rcpt') or r in p.get('refuse_rcpt', ()) or r in p.get('defer_rcpt', ()))


def check_once(sim, srvs, plain, st, what):
    h = history(srvs)
    order = {s.host: i for i, s in enumerate(srvs)}
    for r in plain:
        mine = [a for a in h if r in a['rcpt']]
        for a in mine:
            if a['rcpt'].count(r) > 1:
                raise Violation('duplicate', f'{what}: {r} twice in one envelope')
            for s in srvs[:order[a['server']]]:
                if not would_refuse(sim, s, r):
                    raise Violation('wrong-order', f'{what}: {r} served by {a["server"]} although {s.host} was fine')
        sure = [i for i, a in enumerate(mine) if not a['lost']]
        if sure and sure[0] != len(mine) - 1:
            raise Violation('duplicate', f'{what}: {r} was accepted by {mine[sure[0]]["server"]} and then sent again '
                            f'through {mine[-1]["server"]}')
        if st == 'ok' and not mine:
            raise Violation('not-delivered', f'{what} returned but no server accepted it for {r}')


class C08(MailBase):
    def run(self, sim):
        work.TAG[0] = 0
        ch = sim.ch
        knobs(sim)
        plain, given = recipients(ch)
        srvs = servers(sim, plain)
        sim.plan_faults(NET)
        props = dict(smtp_servers=[s.host for s in srvs], sender='me@sender.example.org', subject='S',
                     recipients=given, message='hello\n')
        lim = limit(ch)
        if lim is not None:
            props['max_bcc'] = lim
        prim = ch.weighted([(3, None), (1, 'list@sender.example.org'), (1, '')])
        if prim is not None:
            props['primary_recipient'] = prim
        files = []
        if ch.chance(0.3):
            fs.writefile('a.txt', work.content(ch, False))
            files = ['a.txt']
        es = self.EmailSender(properties=props, local_files=files or None)
        sample = []
        for k in range(ch.weighted([(4, 1), (2, 2)])):
            op = ch.pick(['send', 'cancel'])
            for s in srvs:
                s.accepted.clear()
            if not sim.fired and k:
                pass
            st, val = sim.run_one((lambda: es.send()) if op == 'send' else (lambda: es.cancel('stop')))
            sim.drain()
            sim.log('RESULT', op, st)
            sample.append((op, st))
            check_once(sim, srvs, plain, st, op)
            good = [s for s in srvs if not any(would_refuse(sim, s, r) for r in plain + [''])]
            if st == 'raised':
                if (good or not plain) and not any(f.startswith('fs.') for f in sim.fired):
                    raise Violation('gave-up', f'{op}: {good[0].host if good else "no server"} would have accepted it: '
                                    + describe(val))
                if op == 'send' and ch.chance(0.5):
                    continue
        if list(given) != props['recipients']:
            raise Violation('caller-list-changed', 'recipients')
        return dict(nontrivial=bool(plain and srvs), sample=dict(recipients=given, limit=lim, ops=sample,
                                                                 servers=[str(s.policy) for s in srvs]),
                    state=[len(plain), len(srvs), sample])


TEXTS = ['Yellow Alert\nMAG: 6.4\n', '', 'plain', '.\n..\n.dot\n', 'From here\nFrom there\n', 'caf\u00e9 \u65e5\u672c\n',
         'a\r\nb\r\nc', 'x' * 1200, 'tabs\t and = equals =3D\n', '\nleading\n\n\n', 'm\u00e9xico ' * 200, '--=====boundary==\n', '<html>\n5 < 6 &amp; so on\n']
SUBJ = ['Testing...', 'Yellow Alert, PAGER V1 279 km SE of Hotan, China', 'S\u00e9isme \u00e0 Quito', 'long ' * 40, '\u65e5\u672c ' * 30,
        'a = b ?= c', '', 'colon: yes', '=?x']


def norm(t):
    return re.sub('\r\n|\r|\n', '\n', t).rstrip('\n')


def hdr(v):
    return ' '.join(str(email.header.make_header(email.header.decode_header(v or ''))).split())


class C09(MailBase):
    def run(self, sim):
        work.TAG[0] = 0
        ch = sim.ch
        knobs(sim)
        cwd = os.getcwd()
        plain, given = recipients(ch, 4)
        srvs = [net.SmtpServer(sim, f'smtp{i}.example.org', {'refuse_data': '4xx'} if ch.chance(0.1) else {})
                for i in range(1 + ch.draw(2))]
        text, subj = ch.pick(TEXTS), ch.pick(SUBJ)
        props = dict(smtp_servers=[s.host for s in srvs], sender='me@sender.example.org', subject=subj,
                     recipients=given, message=text, max_bcc=ch.pick([25, 0, 1, 2]))
        if ch.chance(0.4):
            props['cancel_subject'] = ch.pick(SUBJ)
        if ch.chance(0.4):
            props['cancel_content'] = ch.pick(TEXTS)
        zname = None
        if ch.chance(0.4):
            zname = ch.pick(['all.zip', 'my files.zip', 'archive.dat', 'z\u00e9.zip'])
            props['zip_file'] = zname
        src = os.path.join(cwd, ch.pick(['event', 'src', 'ev 1']))
        files, dirs, lfiles = {}, [], {}
        use_dir = ch.chance(0.5)
        if use_dir:
            files, dirs = work.tree(ch, 4, repeat=('event', 'src', 'cwd'))
            work.put_tree(src, files, dirs)
            work.linkify(ch, sim, src, files)
        dangling = use_dir and work.dangle(ch, src)
        for _ in range(ch.weighted([(3, 1), (2, 0), (2, 2), (1, 3)])):
            used = set(p.split('/')[0] for p in list(files) + dirs) if zname else set()
            n = work.name(ch, True, used | set(lfiles), EXTRA)
            if ch.chance(0.3):
                n = ch.pick(EXTRA)
                if n in used:
                    continue
            lfiles[n] = work.content(ch)
        for n, d in lfiles.items():
            fs.writefile(os.path.join(cwd, 'f', n), d)
        sp = work.vialink(ch, cwd, src, work.spell(ch, src, cwd)) if use_dir else src
        es = self.EmailSender(properties=props, local_files=[os.path.join(cwd, 'f', n) for n in lfiles] or None,
                              local_directory=sp if use_dir else None)
        sim.plan_faults(FULL, p_none=0.5, maxn=2)
        st, val = sim.run_one(lambda: es.send())
        sim.drain()
        sim.log('RESULT', st)
        left = fs.tree(os.path.join(sim.top, 'tmp'))
        if left and not any(f.startswith(('fs.remove', 'fs.list')) for f in sim.fired):
            raise Violation('temp-left', repr(sorted(left))[:200])
        if st == 'ok' and dangling and plain:
            raise Violation('unsent-not-reported', 'send returned although a file could not be read')
        if st == 'raised' and not sim.fired and not dangling and not all(s.policy for s in srvs) and plain:
            raise Violation('unexpected-exception', describe(val))
        want = [(os.path.basename(p), d) for p, d in files.items()] + list(lfiles.items())
        wanttree = dict(files)
        wanttree.update(lfiles)
        nmsg = 0
        for a in history(srvs):
            nmsg += 1
            self.message(a, text, subj, want, wanttree, zname, bool(lfiles or use_dir))
        if st == 'ok':
            try:
                n, msg = val
            except Exception:
                raise Violation('bad-return', repr(val))
            if n != len(want) and not dangling:
                raise Violation('wrong-count', f'{n} for {len(want)}')
        for k in range(ch.weighted([(4, 0), (2, 1), (1, 2)])):
            # what is configured, else what is given, else the documented text
            said = ch.pick([None, None, ch.pick(TEXTS)])
            csubj, ctext = props.get('cancel_subject', subj), props.get('cancel_content', said)
            both = said is not None and 'cancel_content' in props
            for s in srvs:
                s.accepted.clear()
            n0 = dict(sim.fired)
            st, val = sim.run_one((lambda: es.cancel()) if said is None and ch.chance(0.5) else lambda: es.cancel(said))
            sim.drain()
            sim.log('RESULT cancel', st)
            if st == 'raised' and sim.fired == n0 and not sim.fault_who and not all(s.policy for s in srvs) and plain:
                raise Violation('unexpected-exception', 'cancel: ' + describe(val))
            for a in history(srvs):
                c = [ctext, said] if both else ['This is a cancel message.' if ctext is None else ctext]
                self.message(a, c, csubj, [], {}, None, False)
        return dict(nontrivial=nmsg > 0, sample=dict(files={p: len(d) for p, d in wanttree.items()}, zip=zname,
                                                     subject=subj, text=text[:40], messages=nmsg),
                    state=[nmsg, sorted(sim.fired)])

    def message(self, a, text, subj, want, wanttree, zname, attached):
        m = email.message_from_bytes(a['data'])
        if a['frm'] != 'me@sender.example.org' or parseaddr(m['From'] or '')[1] != 'me@sender.example.org':
            raise Violation('wrong-sender', f'{a["frm"]} / {m["From"]}')
        if hdr(m['Subject']) != ' '.join(subj.split()):
            raise Violation('wrong-subject', f'{m["Subject"]!r} for {subj!r}')
        atts, bodies = [], []
        for part in m.walk():
            if part.is_multipart():
                continue
            data = part.get_payload(decode=True)
            fn = part.get_filename()
            if fn is not None:
                fn = str(email.header.make_header(email.header.decode_header(fn))) if '=?' in fn else fn
                atts.append((fn, data))
            else:
                if part.get_content_type() != 'text/plain':
                    raise Violation('wrong-text', f'sent as {part.get_content_type()}')
                cs = part.get_content_charset() or 'ascii'
                try:
                    bodies.append(data.decode(cs))
                except (UnicodeDecodeError, LookupError) as e:
                    raise Violation('wrong-text', f'cannot decode text: {e}')
        if len(bodies) != 1 or norm(bodies[0]) not in [norm(t) for t in (text if isinstance(text, list) else [text])]:
            raise Violation('wrong-text', f'{bodies!r:.200} for {str(text)!r:.100}')
        if zname is None or not attached:
            if sorted(atts) != sorted(want):
                g, w = dict(atts), dict(want)
                raise Violation('wrong-attachments', f'got {[(n, work.brief(d)) for n, d in sorted(atts)]} want '
                                f'{[(n, work.brief(d)) for n, d in sorted(want)]}'[:600])
            return
        if [n for n, _ in atts] != [zname]:
            raise Violation('wrong-attachments', f'{[n for n, _ in atts]} instead of {zname}')
        try:
            z = zipfile.ZipFile(io.BytesIO(atts[0][1]))
            got = [(i.filename, z.read(i)) for i in z.infolist() if not i.is_dir()]
        except Exception as e:
            raise Violation('bad-zip', describe(e))
        if len(set(n for n, _ in got)) != len(got):
            raise Violation('wrong-zip', 'duplicate members')
        df = work.diff_trees(wanttree, dict(got))
        if df:
            raise Violation('wrong-zip', df)


class C10(MailBase):
    def run(self, sim):
        work.TAG[0] = 0
        ch = sim.ch
        knobs(sim)
        plain, given = recipients(ch, 12)
        if ch.chance(0.5):
            srvs = servers(sim, plain)
        else:
            srvs = [net.SmtpServer(sim, 'smtp0.example.org')]
        sim.plan_faults(NET, p_none=0.6)
        props = dict(smtp_servers=[s.host for s in srvs], sender='me@sender.example.org', subject='S',
                     recipients=given, message='text', cancel_subject='C')
        lim = limit(ch)
        if lim is not None:
            props['max_bcc'] = lim
        prim = ch.weighted([(3, None), (2, 'list@sender.example.org'), (1, '')])
        if prim is not None:
            props['primary_recipient'] = prim
        files = None
        if ch.chance(0.4):
            fs.writefile('a.txt', b'attached\n')
            files = ['a.txt']
            if ch.chance(0.3):
                props['zip_file'] = 'a.zip'
        es = self.EmailSender(properties=props, local_files=files)
        cover = {}
        eff = 25 if lim is None else lim
        for op in ('send', 'cancel'):
            for s in srvs:
                s.accepted.clear()
                s.seen.clear()
            st, val = sim.run_one((lambda: es.send()) if op == 'send' else (lambda: es.cancel()))
            sim.drain()
            sim.log('RESULT', op, st)
            if st == 'raised' and not sim.fired and any(not s.policy for s in srvs):
                raise Violation('unexpected-exception', f'{op}: ' + describe(val))
            if st == 'ok':
                cover[op] = set(r for a in history(srvs) for r in a['rcpt'])
            for s in srvs:
                for rcpt, data in s.seen:
                    self.private(op, rcpt, data, plain, given, eff, prim)
        if len(cover) == 2 and cover['send'] != cover['cancel']:
            raise Violation('cover-differs', f'{sorted(cover["send"] ^ cover["cancel"])}')
        return dict(nontrivial=bool(plain and srvs), sample=dict(recipients=given, limit=lim, primary=prim),
                    state=[len(plain), eff])

    def private(self, op, rcpt, data, plain, given, eff, prim):
        m = email.message_from_bytes(data)
        named = set(t.decode().lower() for t in TOKEN.findall(data))
        for part in m.walk():
            for v in part.values():
                named |= set(t.decode().lower() for t in TOKEN.findall(hdr(v).encode()))
            if not part.is_multipart() and part.get_filename() is None:
                named |= set(t.decode().lower() for t in TOKEN.findall(part.get_payload(decode=True) or b''))
        low = {p.lower() for p in plain}
        if eff:
            shown = named & low
            if shown:
                raise Violation('disclosed', f'{op}: {sorted(shown)[:3]} visible in the message')
            if re.search(rb'Person \d+', data):
                raise Violation('disclosed', f'{op}: a recipient name is visible in the message')
            n = len([r for r in rcpt if r in plain])
            if n > eff:
                raise Violation('limit-exceeded', f'{op}: {n} blind-copied recipients, limit {eff}')
        else:
            mine = [r for r in rcpt if r in plain]
            if len(mine) != 1 or len(rcpt) != 1:
                raise Violation('not-individual', f'{op}: envelope {rcpt}')
            if named & low - {mine[0].lower()}:
                raise Violation('disclosed', f'{op}: message to {mine[0]} names {sorted(named & low)}')
            if mine[0].lower() not in named:
                raise Violation('not-named', f'{op}: message to {mine[0]} does not name him')


SCENARIOS = {'C08': C08, 'C09': C09, 'C10': C10}
