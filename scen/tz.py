"""C18: time-zone data download."""
import io
import os
import zipfile

from sim import fs, net
from sim.core import Violation
from . import http, work
from .base import Scenario, describe

FAULTS = {k: fs.CATS[k] for k in ('fs.create', 'fs.write', 'fs.close', 'fs.read', 'fs.openr')}
BAD = [b for b in http.BAD if b not in ('304', '300')]


def archive(ch):
    """(list of (member name, bytes or None for a directory entry), expected {name: bytes}, hostile?)"""
    pre = ch.pick(['', 'combined-shapefile/', 'dist/', 'a/b/', 'cache/', '../', 'keep/', '/abs/', 'x/../../', 'data/'])
    stem = ch.pick(['combined-shapefile', 'tz world', 'z\u00f3na'])
    members, want = [], {}
    if pre and ch.chance(0.4):
        members.append((pre, None))
    exts = ['shp', 'dbf', 'prj', 'shx', 'txt', 'cpg']
    if ch.chance(0.3):
        exts = exts[:1 + ch.draw(6)]
    if ch.chance(0.3):
        exts.reverse()
    for e in exts:
        d = work.content(ch)
        if ch.chance(0.02):      # more than any buffer
            d = d + b'z' * (1 << 20) + d
        n = f'{stem}.{e}'
        pp = pre
        if ch.chance(0.15):
            pp = ch.pick(['', 'other/', 'keep/', '../../', 'a/b/c/'])
        members.append((pp + n, d))
        want[n] = d
    for n in ('evil.sh', 'LICENSE', '.hidden', '.tz', f'{stem}.shp.xml', f'old_{stem}.dbf', f'{stem}.SHP.bak'):
        if ch.chance(0.2):
            d = work.content(ch, False)
            members.append((ch.pick(['', '/etc/', '../../../', 'dist/']) + n, d))
            want[n] = d
    if ch.chance(0.2):
        members.append((ch.pick(['keep/', 'empty/', 'sub/deep/']), None))
    # two members must not claim the same file
    return members, want


def pack(ch, members):
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w', ch.pick([zipfile.ZIP_DEFLATED, zipfile.ZIP_STORED])) as z:
        for n, d in members:
            zi = zipfile.ZipInfo(n, (2020, 1, 1, 0, 0, 0))
            zi.filename = n
            zi.compress_type = z.compression
            zi.external_attr = (0o40755 << 16) | 0x10 if d is None else (0o100644 << 16)
            z.writestr(zi, b'' if d is None else d)
    return b.getvalue()


def corrupt(ch, data):
    k = ch.draw(4)
    if k == 0:
        return data[:max(0, len(data) - 30)]
    if k == 1:
        return b'not a zip file' * 3
    if k == 2:
        return b''
    # flip bytes inside the first member's data: detected by its CRC
    z = zipfile.ZipFile(io.BytesIO(data))
    for i in z.infolist():
        if i.compress_size > 8 and not i.is_dir():
            off = i.header_offset + 30 + len(i.orig_filename.encode()) + i.compress_size // 2
            b = bytearray(data)
            b[off] ^= 0x55
            try:
                bad = zipfile.ZipFile(io.BytesIO(bytes(b))).testzip() is not None
            except Exception:
                bad = True
            if bad:         # in periodic data another match can give the same bytes
                return bytes(b)
            break
    return b'zz'


class C18(Scenario):
    def setup(self):
        self.seams()
        http.install()
        from impactutils.time import timeutils
        self.m = timeutils

    def run(self, sim):
        work.TAG[0] = 0
        ch = sim.ch
        sim.latency = ch.pick([0.002, 0.1])
        sim.frag = 0
        out = os.path.join(sim.top, ch.pick(['out', 'cwd/zones', 'cwd']))
        fs.makedirs(out)
        outsp = work.spell(ch, out, os.getcwd())
        fs.writefile(os.path.join(sim.top, 'outside.txt'), b'outside')
        fs.writefile(os.path.join(sim.top, 'a', 'b', 'f'), b'outside too')
        reps = []
        # things in the output directory that must survive
        for n in ('keep/me.txt', 'combined-shapefile/notes.txt', 'README', 'dist/x', 'cache/y', 'a/b/z', 'other/o'):
            if ch.chance(0.3):
                fs.writefile(os.path.join(out, n), work.content(ch, False))
        for rep in range(ch.weighted([(3, 1), (2, 2)])):
            members, want = archive(ch)
            data = pack(ch, members)
            try:
                with zipfile.ZipFile(io.BytesIO(data)) as z:
                    assert len(z.namelist()) == len(members)
            except Exception:
                raise
            bad = ch.chance(0.12)
            if bad:
                data = corrupt(ch, data)
            nolink = ch.chance(0.1)
            link = ch.pick(['/evansiroky/tz/releases/download/2023b/timezones.shapefile.zip',
                            'https://github.com/e/timezones.shapefile.zip', 'https://objects.example.org/timezones.shapefile.zip?x=1'])
            anchors = ['<a name="top">x</a>', '<a href="/login">Sign in</a>',
                       '<a href="/e/timezones-with-oceans.shapefile.zip">o</a>', '<a href="/e/timezones.geojson.zip">g</a>']
            anchors = ch.subset(anchors, 0.6)
            if not nolink:
                anchors.insert(ch.draw(len(anchors) + 1), f'<a class="d" href="{link}">shp</a>')
            if ch.chance(0.3):
                anchors.append('<a href="/contact">c\u00e9</a>')
            html = ('<html><body>' + '\n'.join(anchors) + '</body></html>').encode()
            outcomes = [ch.weighted([(8, 'ok'), (1, None)]) or ch.pick(BAD + ['503']) for _ in range(2)]

            def body(a):
                if 'releases/latest' in a['path']:
                    a['kind'] = 'page'
                    return html
                if a['path'] not in link:
                    # some other link of the page was followed
                    a['kind'] = 'wrong'
                    return b'<html>not what you want</html>'
                a['kind'] = 'zip'
                return data
            sc = http.Script(sim, ['github.com', 'objects.example.org'], body, outcomes, trunc_framings=('length', 'chunked'))
            sim.plan = {}
            sim.disk_full = False
            sim.counts.clear()
            sim.plan_faults(FAULTS, p_none=0.6)
            before = fs.tree(sim.top)
            fired0 = {k: v for k, v in sim.fired.items() if k.startswith('fs.')}
            t0 = sim.now
            st, val = sim.run_one(lambda: self.m.get_recent_timezone_data(outsp))
            sim.log('RESULT', st, val if st == 'ok' else type(val).__name__)
            reps.append((st, [a['o'] for a in sc.attempts], bad, nolink))
            after = fs.tree(sim.top)
            orel = os.path.relpath(out, sim.top)
            own = {os.path.normpath(os.path.join(orel, n)) for n in list(want) + ['timezones.shapefile.zip']}
            for p, d in before.items():
                if p in own:
                    continue
                if p not in after:
                    raise Violation('removed', p)
                if after[p] != d:
                    raise Violation('changed', p)
            for p, d in after.items():
                if p in before or p in own:
                    continue
                inside = orel == '.' or p.startswith(orel + '/')
                if not inside and not p.startswith('tmp/'):
                    raise Violation('outside', p)
                if p.startswith('tmp/') and st == 'ok':
                    raise Violation('temp-left', p)
                if st == 'ok' and d is not None:
                    raise Violation('stray-file', p)
            fsfault = {k: v for k, v in sim.fired.items() if k.startswith('fs.')} != fired0
            netbad = any(a['o'] != 'ok' for a in sc.attempts)
            if st == 'ok':
                if nolink or netbad or bad:
                    raise Violation('failure-not-raised', f'{reps[-1]}')
                for n, d in want.items():
                    if after.get(os.path.normpath(os.path.join(orel, n))) != d:
                        raise Violation('wrong-member', f'{n}: {work.brief(after.get(os.path.join(orel, n)))}')
                shp = [n for n in want if n.endswith('.shp')]
                if shp and (val is None or os.path.realpath(val) != os.path.realpath(os.path.join(out, shp[0]))):
                    raise Violation('wrong-path', f'{val!r}')
            elif not (nolink or netbad or bad or fsfault):
                if any(n.endswith('.shp') for n in want):
                    raise Violation('unexpected-exception', describe(val))
            if sim.now - t0 > 200:
                raise Violation('too-slow', f'{sim.now - t0}')
        return dict(nontrivial=True, sample=dict(members=[m[0] for m in members], results=reps), state=reps)


SCENARIOS = {'C18': C18}
