"""C27: data files are read as one whole version, or the call raises."""
import copy
import csv
import io
import json
import math
import os
from xml.sax.saxutils import quoteattr

from sim import fs, lines as source_lines
from sim.core import Violation
from .base import Scenario, describe
from .writers import CITY, TEXTS, dlon, near, quads

FAULTS = {k: fs.CATS[k] for k in ('fs.openr', 'fs.read')}
REFS = [t for t in TEXTS if t == t.strip() and '#' not in t and len(t.splitlines()) <= 1] + ['Smith \ufffd et al.']
NARROW = ['', 'Smith et al. (2016)', 'Caf\u00e9', 'M\u00fcller, 1999', 'x']


PADS = [10, 9000, 40000, 140000, 1100000]


class Flaky(io.RawIOBase):
    """A stream that hands out what it likes and may fail at its n-th read."""

    def __init__(self, sim, data, nth):
        self.sim, self.data, self.pos, self.nth, self.n = sim, data, 0, nth, 0
        self.cut = sim.ch.pick([0, 0, 7, 100])

    def readable(self):
        return True

    def readinto(self, b):
        self.n += 1
        if self.nth is not None and self.n > self.nth:
            self.sim.note_fault('stream:EIO')
            raise OSError(5, 'Input/output error')
        n = min(len(b), self.cut) if self.cut else len(b)
        d = self.data[self.pos:self.pos + n]
        b[:len(d)] = d
        self.pos += len(d)
        return len(d)


def eol(ch, lines, last=True):
    e = ch.pick(['\n', '\n', '\r\n'])
    return e.join(lines) + (e if last and ch.chance(0.8) else '')


class C27(Scenario):
    datetime = False
    preload = ('numpy', 'pandas', 'openquake.hazardlib.geo', 'openquake.hazardlib.gsim.base', 'lxml.etree',
               'matplotlib.colors', 'PIL.Image', 'PIL.TiffImagePlugin')

    def setup(self):
        self.seams()
        import warnings
        warnings.simplefilter('ignore')
        import logging
        logging.disable(logging.CRITICAL)
        import numpy
        from PIL import Image
        Image.preinit()
        Image.init()
        from impactutils.colors.cpalette import ColorPalette
        from impactutils.mapping.city import Cities
        from impactutils.rupture import factory, origin
        from impactutils.rupture.edge_rupture import EdgeRupture
        from impactutils.rupture.point_rupture import PointRupture
        from impactutils.rupture.quad_rupture import QuadRupture
        from impactutils.time.ancient_time import HistoricTime
        from impactutils.time.timeutils import TimeConversion
        self.np, self.Image = numpy, Image
        self.Palette, self.Cities, self.factory, self.origin = ColorPalette, Cities, factory, origin
        self.Edge, self.Point, self.Quad, self.HT, self.TC = EdgeRupture, PointRupture, QuadRupture, HistoricTime, TimeConversion
        self.home = origin.Origin(dict(id='us1', netid='us', network='', lat=34.0, lon=-118.0, depth=10.0, mag=7.0, locstring='',
                                       time=HistoricTime(2016, 1, 2, 3, 4, 5)))

    # -- ruptures ------------------------------------------------------------
    def polygons(self, ch, edge):
        out = []
        for _ in range(ch.weighted([(4, 1), (2, 2), (1, 4), (1, 25)])):
            m = ch.weighted([(3, 1), (2, 2), (1, 5)])
            x, y = round(-118 + ch.draw(20000) / 1e4 - 1, 4), round(34 + ch.draw(20000) / 1e4 - 1, 4)
            z = ch.pick([0.0, 1.5, 4.25])
            zz = z + ch.pick([10.0, 22.5])
            ang = ch.draw(628) / 100
            step = ch.pick([0.05, 0.1, 0.23])
            dx, dy = step * math.sin(ang), step * math.cos(ang)
            off = ch.pick([0.0, 0.03, 0.1])
            ox, oy = off * math.cos(ang), -off * math.sin(ang)
            top, bot = [], []
            bent = edge and (ch.chance(0.6) or not out)
            if edge and ch.chance(0.3) and not out:
                bent = False
            for k in range(m + 1):
                bend = 0.4 * (k % 2) if bent else 0.0
                top.append([round(x + k * dx, 7), round(y + k * dy, 7), z + bend])
                bot.append([round(x + k * dx + ox, 7), round(y + k * dy + oy, 7), zz + 2 * bend])
            out.append(top + bot[::-1] + top[:1])
        return out

    def rupture(self, ch, old):
        """(file bytes, what it holds)"""
        form = ch.weighted([(3, 'json'), (3, 'text')])
        edge = ch.chance(0.35)
        polys = self.polygons(ch, edge)
        if form == 'json':
            ref = ch.pick(TEXTS)
            if ch.chance(0.1):
                geom = {'type': 'Point', 'coordinates': [-118.0, 34.0, 10.0]}
                polys = None
            else:
                geom = {'type': 'MultiPolygon', 'coordinates': [polys]}
            feat = {'type': 'Feature', 'properties': {'rupture type': 'rupture extent'}, 'geometry': geom}
            d = {'type': 'FeatureCollection', 'metadata': {'reference': ref}, 'features': [feat]}
            if ch.chance(0.3):
                d['metadata']['note'] = ch.pick(TEXTS) * ch.pick([1, 1, 400])
            if ch.chance(0.15):
                d['metadata']['mesh_dx'] = ch.pick([0.25, 3.0])
            if ch.chance(0.3):
                d = dict(note='x' * ch.pick(PADS), **d)
            if ch.chance(0.5):
                d = dict(reversed(list(d.items())))
            s = json.dumps(d, ensure_ascii=ch.chance(0.5), indent=ch.pick([None, None, 1, 4]))
            return (s + ch.pick(['', '\n', '\r\n'])).encode('utf-8'), dict(form='json', polys=polys, ref=ref)
        enc = ch.pick(['utf-8', 'utf-8', 'latin-1'])
        ref = ch.pick(NARROW if enc == 'latin-1' else REFS)
        sep = ch.pick([' ', '  ', '\t', ',']) if old else ch.pick([' ', '\t', '   '])
        lines = []
        if ref or ch.chance(0.5):
            lines.append('#' + ref)
        if ch.chance(0.2):
            n = ch.pick(PADS)
            lines.append('#' + 'p' * n)
            ref += 'p' * n
        if ch.chance(0.2):
            lines.append('# more')
            ref += ' more'
        for i, p in enumerate(polys):
            if i or ch.chance(0.3):
                lines.append(ch.pick(['>', '> segment', '>>', ' >', '\t> x ']))
            if ch.chance(0.2) and len(set(v[2] for v in p)) == 2:
                # starting elsewhere, such as along the bottom edge
                k = (len(p) - 1) // 2 if ch.chance(0.5) else ch.draw(len(p) - 1)
                p = p[k:-1] + p[:k] + p[k:k + 1]
            for v in p:
                w = [v[1], v[0], v[2]] if old else v
                lines.append((' ' if ch.chance(0.05) else '') + sep.join(repr(t) for t in w) + (ch.pick([' ', '\t']) if ch.chance(0.03) else ''))
                if ch.chance(0.02):
                    lines.append('')
                if ch.chance(0.01):
                    lines.append('#+')
                    ref += '+'
        if ch.chance(0.3):
            lines.append('>')
        return eol(ch, lines).encode(enc), dict(form='text', polys=polys, ref=ref)

    def rupture_same(self, sim, r, want):
        polys = want['polys']
        if isinstance(r, dict):
            got = r['features'][0]['geometry']['coordinates']
            ref = r['metadata']['reference']
        else:
            kind = type(r)
            if (kind is self.Point) != (polys is None):
                return f'a {kind.__name__}'
            if polys is None:
                return ''
            out = io.StringIO()
            r.writeGeoJson(os.path.join(sim.top, 'back.json'))
            d = json.loads(fs.readfile(os.path.join(sim.top, 'back.json')))
            fs.O.remove(os.path.join(sim.top, 'back.json'))
            got = d['features'][0]['geometry']['coordinates']
            ref = r.getReference()
            qs = quads(r)
            if kind is self.Quad and any(a[2] != b[2] for p in polys for a, b in zip(p, p[1:(len(p) - 1) // 2])):
                return f'a {kind.__name__} for a top edge that is not horizontal'
            n = sum((len(p) - 1) // 2 - 1 for p in polys)
            if len(qs) != n:
                return f'{len(qs)} quadrilaterals for {n}'
            i = 0
            tol = 3e-3 if kind is self.Quad else 1e-9
            for p in polys:
                for k in range((len(p) - 1) // 2 - 1):
                    for a, b in zip(qs[i], (p[k], p[k + 1], p[-(k + 3)], p[-(k + 2)])):
                        if dlon(a[0], b[0]) > tol or abs(a[1] - b[1]) > tol or abs(a[2] - b[2]) > 100 * tol:
                            return f'vertex {a} for {b}'
                    i += 1
        if not isinstance(r, dict) and kind is self.Edge and d['metadata'].get('mesh_dx') != want['dx']:
            return f"mesh_dx {d['metadata'].get('mesh_dx')} for {want['dx']}"
        if got != [polys]:
            return f'coordinates {str(got)[:80]} for {str(polys)[:80]}'
        if ref != want['ref']:
            return f"reference {ref[:60]!r} for {want['ref'][:60]!r}"
        return ''

    # -- events --------------------------------------------------------------
    def event(self, ch):
        ev = dict(id=ch.pick(['us2016abcd', 'ci38', 'NA', '0012']), netid=ch.pick(['us', 'ci', '']), network=ch.pick(TEXTS),
                  lat=ch.pick(['0.0', '34.05', '-12.34567', '61']), lon=ch.pick(['-118.25', '179.999', '12', '-0.5']),
                  depth=ch.pick(['0.0', '10', '24.16', '600.5', '-1.5']), mag=ch.pick(['5', '7.9', '6.25', '-0.3', '0']), locstring=ch.pick(TEXTS))
        if ch.chance(0.5):
            ev[ch.pick(['mech', 'mech', 'type'])] = ch.pick(['RS', 'SS', 'NM', 'ALL'])
        if ch.chance(0.4):
            ev['productcode'] = ch.pick(['us2000wxyz_zoom', 'a&b', ev['id']])
        if ch.chance(0.4):
            ev['reference'] = ch.pick(TEXTS)
        y = ch.pick([2016, 1999, 1906, 1700, 869, 2100])
        t = (y, 1 + ch.draw(12), 1 + ch.draw(28), ch.draw(24), ch.draw(60), ch.draw(60), ch.pick([0, 0, 1, 500000, 999999]))
        s = '%04d-%02d-%02dT%02d:%02d:%02d' % t[:6]
        if t[6] or ch.chance(0.4):
            s += '.%06d' % t[6]
        ev['time'] = s + 'Z'
        if ch.chance(0.15):
            del ev['network']           # as in old files
        if ch.chance(0.12):
            del ev['time']
            ev.update(zip(('year', 'month', 'day', 'hour', 'minute'), map(str, t)), second=str(t[5]))
            if t[6] or ch.chance(0.2):
                ev['second'] += '.%06d' % t[6]
        order = list(ev)
        if ch.chance(0.5):
            order = ch.shuffled(order)
        gap = ch.pick([' ', '\n   ', '  '])
        enc = ch.pick(['utf-8', 'utf-8', 'utf-16', 'us-ascii'])
        ent = {'\n': '&#10;', '\t': '&#9;', '\r': '&#13;'}
        s = '<earthquake' + gap + gap.join(f'{k}={quoteattr(ev[k], ent)}' for k in order) + ch.pick(['/>', ' />', '></earthquake>'])
        if ch.chance(0.15):
            s = '<root><other/>\n' + s + '</root>'
        if ch.chance(0.4):
            s = '<!-- ' + 'x' * ch.pick(PADS) + ' -->\n' + s
        if enc != 'utf-8' or ch.chance(0.5):
            s = f'<?xml version="1.0" encoding="{enc}"?>\n' + s
        return (s + ch.pick(['', '\n'])).encode(enc, 'xmlcharrefreplace'), dict(ev=ev, t=t)

    def event_same(self, got, want, stream):
        ev, t = want['ev'], want['t']
        get = got.get if isinstance(got, dict) else lambda k: getattr(got, k, None)
        over = want.get('source', {})
        for k in ('id', 'netid', 'network', 'locstring', 'mech', 'reference', 'productcode', 'lat', 'lon', 'depth', 'mag'):
            w = over.get(k, ev.get(k, '' if k == 'network' else None))
            if k in ('lat', 'lon', 'depth', 'mag'):
                w = float(w)
            if k == 'productcode' and w is None and not stream:
                w = ev['id']
            if k == 'mech' and w is None and not isinstance(got, dict):
                w = ev.get('type', 'ALL')
            if get(k) != w:
                return f'{k}: {str(get(k))[:60]!r} for {str(w)[:60]!r}'
        if isinstance(got, dict) and got.get('type') != ev.get('type'):
            return f"type: {got.get('type')!r} for {ev.get('type')!r}"
        for k, w in over.items():
            if get(k) != w or type(get(k)) is not type(w):
                return f'{k}: {str(get(k))[:60]!r} for {str(w)[:60]!r}'
        tt = get('time')
        if tuple(tt.timetuple())[:6] != t[:6] or tt.microsecond != t[6]:
            return f'time: {tt} for {t}'
        return ''

    def source(self, ch):
        pool = dict(locstring=['Golden', 'a=b', 'x = y = z', '12th Street', 'E=mc^2', 'Unit #5'], depth=['5.5', '12'], mag=['6', '6.75'],
                    mech=['SS', 'RS'], note=['', 'http://x/?a=1&b=2', 'two words', '-3', '1e3'], network=['N'], extra=['0', 'abc', '0x10', '012', '1e2', '007.50'])
        lines, want = [], {}
        for k in ch.shuffled(sorted(pool)):
            if ch.chance(0.5):
                v = ch.pick(pool[k])
                lines.append(k + ch.pick(['=', ' = ']) + v)
                w = v
                try:
                    w = float(v)
                    w = int(v)
                except ValueError:
                    pass
                want[k] = w
            if ch.chance(0.2):
                lines.append(ch.pick(['# comment', '#a=b', '#']) + 'y' * ch.pick([0, 0, 0, 9000, 140000]))
        return eol(ch, lines).encode() if lines else b'', want

    # -- palettes ------------------------------------------------------------
    def palette(self, ch):
        n = ch.pick([1, 3, 8, 300])
        z = [float(ch.pick([-5, 0, 100]))]
        for _ in range(n):
            z.append(z[-1] + ch.pick([1.0, 0.5, 20.0]))
        if ch.chance(0.3):
            z = [int(v * 2) for v in z]
        rgb = [(ch.draw(256), ch.draw(256), ch.draw(256)) for _ in range(2 * n)]
        if ch.chance(0.3):
            # the same colours again
            k = ch.draw(n)
            rgb = [rgb[2 * k + i % 2] if ch.chance(0.5) else c for i, c in enumerate(rgb)]
        elif n > 8 or ch.chance(0.6):
            rgb = [rgb[(i + 1) // 2] for i in range(2 * n)]
        name = ch.pick([None, 'test', 'my colours', 'usgs:mmi', 'caf\u00e9'])
        nan = ch.pick([None, (0, 0, 0, 0), (128, 64, 32, 255)])
        res = ch.pick([None, 0.01, 1.0])
        head = ['#This file is a test file for ColorPalette.'] if ch.chance(0.5) else []
        if ch.chance(0.2):
            head += ['# ' + 'x' * 70] * (ch.pick(PADS) // 71)
        if nan is not None:
            head.append('#$nan_color: ' + ch.pick([',', ', ']).join(map(str, nan)))
        if name is not None:
            head.append('#$name:' + ch.pick(['', ' ']) + name)
        if res is not None:
            head.append(f'#$resolution: {res}')
        sep = ch.pick([' ', '   ', '\t'])
        rows = [sep.join(['Z0', 'R0', 'G0', 'B0', 'Z1', 'R1', 'G1', 'B1'])]
        for i in range(n):
            rows.append(sep.join(map(str, (z[i],) + rgb[2 * i] + (z[i + 1],) + rgb[2 * i + 1])))
            if ch.chance(0.03):
                rows.append('# a comment')
        return eol(ch, head + rows).encode(), dict(z=z, rgb=rgb, name=name, nan=nan, res=res)

    def palette_same(self, p, want):
        z, rgb = want['z'], want['rgb']
        ref = self.Palette(want['name'] or 'generic', self.np.array(z[:-1]), self.np.array(z[1:]), rgb[0::2], rgb[1::2],
                           resolution=want['res'], nan_color=want['nan'] or (0, 0, 0, 0))
        if (p.vmin, p.vmax) != (z[0], z[-1]):
            return f'range {p.vmin} {p.vmax} for {z[0]} {z[-1]}'
        if p.cmap.name != ref.cmap.name or p.cmap.N != ref.cmap.N:
            return f'{p.cmap.name} {p.cmap.N} for {ref.cmap.name} {ref.cmap.N}'
        v = self.np.append(self.np.linspace(z[0], z[-1], 1500), float('nan'))
        m = self.np.ma.masked_invalid(v)
        if not (p.getDataColor(m) == ref.getDataColor(m)).all():
            return 'colours'
        return ''

    # -- cities --------------------------------------------------------------
    def csvfile(self, ch):
        n = ch.weighted([(4, 3), (2, 1), (2, 15), (1, 700)])
        big = ch.pick([0, 0, 0] + PADS)
        cols = ['name', 'lat', 'lon'] + (['ccode', 'iscap', 'pop'] if ch.chance(0.7) else [])
        rows = []
        for i in range(n):
            r = dict(name=ch.pick(CITY), lat=ch.pick([0.0, 39.7555, -33.45, 0.1 + 0.2, 1e-7]), lon=ch.pick([0.5, -105.2211, 179.99, 100 / 3]),
                     ccode=ch.pick(['US', 'NA', 'MX', '']) + ('w' * big if i == n // 2 else ''), iscap=ch.chance(0.5), pop=ch.pick([0, 1000, 37000000]))
            rows.append([r[c] for c in cols])
        perm = ch.shuffled(list(range(len(cols)))) if ch.chance(0.3) else range(len(cols))
        cols, rows = [cols[i] for i in perm], [[r[i] for i in perm] for r in rows]
        f = io.StringIO()
        w = csv.writer(f, quoting=ch.pick([csv.QUOTE_MINIMAL, csv.QUOTE_NONNUMERIC]), lineterminator=ch.pick(['\n', '\r\n']))
        w.writerow(cols)
        w.writerows(rows)
        return f.getvalue().encode('utf-8'), dict(cols=cols, rows=rows)

    def geonames(self, ch):
        n = ch.weighted([(4, 3), (2, 1), (2, 15), (1, 400)])
        lines, rows = [], []
        big = ch.pick([0, 0, 0] + PADS)
        for i in range(n):
            name = ch.pick(['Golden', 'Los Angeles', 'NA', "N'Djamena", 'a,b', 'null', '', 'Z\u00fcrich', '\u6771\u4eac', ' padded '])
            lat, lon = ch.pick(['39.75', '0', '-33.45']), ch.pick(['-105.2211', '179.99', '12'])
            cap = ch.pick(['PPL', 'PPLC', 'PPLA', 'PPLA2'])
            cc, pop = ch.pick(['US', 'NA', 'MX']), ch.pick(['0', '1000', '37000000'])
            lines.append('\t'.join([str(i), ch.pick(CITY[:10]), name, 'alt,Caf\u00e9\u0085' + 'w' * (big if i == n // 2 else 0), lat, lon, 'P', cap, cc, '', 'CO', '', '', '', pop,
                                    '', '1700', 'America/Denver', '2019-01-01']))
            if name and all(ord(c) < 128 for c in name):
                rows.append([name.strip(), cc, float(lat), float(lon), cap in ('PPLC', 'PPLA'), int(pop)])
        return eol(ch, lines).encode('utf-8'), dict(cols=['name', 'ccode', 'lat', 'lon', 'iscap', 'pop'], rows=rows)

    def cities_same(self, c, want):
        df = c.getDataFrame()
        if sorted(df.columns) != sorted(want['cols']):
            return f"columns {list(df.columns)} for {want['cols']}"
        if len(df) != len(want['rows']):
            return f"{len(df)} rows for {len(want['rows'])}"
        for i, col in enumerate(want['cols']):
            for x, r in zip(df[col].tolist(), want['rows']):
                y = r[i]
                if not (near(y, x, 1e-9) if isinstance(y, float) and isinstance(x, (int, float)) else x == y):
                    return f'{col}: {x!r} for {y!r}'
        return ''

    # -- time-zone rasters ---------------------------------------------------
    def raster(self, ch, shape, codes):
        vals = self.np.array(sorted(codes.values()), dtype='uint8')
        d = self.np.frombuffer(ch.data(shape[0] * shape[1]), dtype='uint8')
        a = vals[d % len(vals)].reshape(shape)
        f = io.BytesIO()
        self.Image.fromarray(a).save(f, 'TIFF', compression=ch.pick([None, None, 'tiff_deflate', 'tiff_lzw']))
        return f.getvalue(), dict(a=a)

    def raster_same(self, tc, want, shape, codes):
        back = {v: k for k, v in codes.items()}
        for i in range(0, shape[0], max(1, shape[0] // 6)):
            for j in range(0, shape[1], max(1, shape[1] // 6)):
                got = tc.get_timezone_code(shape[0] - i - 0.5, j + 0.5)
                if got != back[int(want['a'][i, j])]:
                    return f"cell {i},{j}: {got} for {back[int(want['a'][i, j])]}"
        return ''

    # -- one subject: a path, its versions, a reader ---------------------------
    def subject(self, sim, i):
        ch = sim.ch
        d = os.path.join(sim.top, 'in dir' if ch.chance(0.2) else 'in')
        kind = ch.pick(['rupture', 'rupture', 'event', 'source', 'palette', 'csv', 'geonames', 'raster'])
        j = dict(kind=kind, stream=None, text=True)
        path = j['path'] = os.path.join(d, f'{kind}{i}' + ch.pick(['.txt', '.json', '', '.xml']))
        if kind == 'rupture':
            old = ch.chance(0.5)
            j['gen'] = lambda: self.rupture(ch, old)
            dx = ch.pick([0.5, 1.0, 2.5])
            j['same'] = lambda r, w: self.rupture_same(sim, r, dict(w, dx=dx))
            j['read'] = lambda p: self.factory.get_rupture(self.home, p, mesh_dx=dx, new_format=not old)
            if ch.chance(0.25):
                def gen():
                    while True:
                        b, w = self.rupture(ch, old)
                        if w['form'] == 'text':
                            return b, w
                j['gen'] = gen
                j['stream'] = 'utf-8'
                if ch.chance(0.5):
                    j['read'] = lambda p: self.factory.text_to_json(p, new_format=not old)
        elif kind == 'event':
            j['gen'] = lambda: self.event(ch)
            j['same'] = lambda r, w: self.event_same(r, w, j.get('streaming'))
            j['read'] = self.origin.read_event_file if ch.chance(0.5) else self.origin.Origin.fromFile
            j['stream'] = 'bytes'
        elif kind == 'source':
            # an event file and a source file that overrides it: either may be replaced
            ev, ew = self.event(ch)
            evp = os.path.join(d, f'event_of_source{i}.xml')
            fs.makedirs(d)
            fs.writefile(evp, ev)
            j['fixed'] = {evp: ev}
            j['gen'] = lambda: self.source(ch)
            if ch.chance(0.4):
                j['read'] = self.origin.read_source
                j['stream'] = 'utf-8'

                def same(r, w):
                    if r != w or [type(v) for v in r.values()] != [type(w[k]) for k in r]:
                        return f'{r} for {w}'
                    return ''
                j['same'] = same
            else:
                j['read'] = lambda p: self.origin.Origin.fromFile(evp, sourcefile=p)
                j['same'] = lambda r, w: self.event_same(r, dict(ew, source=w), False)
        elif kind == 'palette':
            j['gen'] = lambda: self.palette(ch)
            j['same'] = self.palette_same
            j['read'] = self.Palette.fromFile
        elif kind == 'csv':
            j['gen'] = lambda: self.csvfile(ch)
            j['same'] = self.cities_same
            j['read'] = self.Cities.fromCSV
            j['stream'] = 'utf-8'
        elif kind == 'geonames':
            j['gen'] = lambda: self.geonames(ch)
            j['same'] = self.cities_same
            j['read'] = self.Cities.fromGeoNames
        else:
            shape = ch.pick([(4, 6), (1, 1), (13, 7), (90, 180)])
            zones = ['Africa/Abidjan', 'America/Denver', 'Asia/Tokyo', 'Etc/GMT-2']
            codes = {z: k + ch.pick([0, 3]) for k, z in enumerate(zones[:1 + ch.draw(4)])}
            codes = {z: 10 * k + v for k, (z, v) in enumerate(codes.items())}
            cp = os.path.join(d, f'codes{i}.json')
            fs.makedirs(d)
            fs.writefile(cp, json.dumps(codes).encode())
            j['fixed'] = {cp: json.dumps(codes).encode()}
            ext = {'Upper Left': (0., float(shape[0])), 'Lower Left': (0., 0.), 'Upper Right': (float(shape[1]), float(shape[0])),
                   'Lower Right': (float(shape[1]), 0.)}
            j['gen'] = lambda: self.raster(ch, shape, codes)
            j['same'] = lambda r, w: self.raster_same(r, w, shape, codes)
            j['read'] = lambda p: self.TC(tiff=p, raster_shape=shape, resolution=(1.0, 1.0), extents=ext, timezone_coding=cp)
        return j

    def target(self, sim, j, fail):
        """The stream handed to the reader instead of a path."""
        b = j['now'][0]
        raw = Flaky(sim, b, sim.ch.draw(12) if fail else None)
        j['raw'] = raw
        buf = io.BufferedReader(raw, sim.ch.pick([16, 512, 8192]))
        if j['stream'] == 'bytes':
            return buf
        try:
            b.decode('utf-8')
            enc = 'utf-8'
        except UnicodeDecodeError:
            enc = 'latin-1'
        return io.TextIOWrapper(buf, enc, newline='' if j['kind'] == 'csv' else None)

    def run(self, sim):
        ch = sim.ch
        sim.frag = 0
        sim.short_io = ch.pick([0, 0.3])
        subs = [self.subject(sim, i) for i in range(ch.weighted([(4, 1), (2, 2)]))]
        for j in subs:
            fs.makedirs(os.path.dirname(j['path']))
            j['now'] = None
            j['aside'] = 0
            if ch.chance(0.25):
                # another version under a name nobody asked for
                k = j['path'] + ch.pick(['.bak', '~', '.old', '.tmp', '.orig', '.1', '.json', '.txt', '.new'])
                j.setdefault('fixed', {})[k] = j['gen']()[0]
                fs.writefile(k, j['fixed'][k])
        fixed = {}
        for j in subs:
            fixed.update(j.get('fixed', {}))
        home = repr(sorted(self.home.__dict__.items()))
        res = []
        for rep in range(ch.weighted([(3, 1), (3, 2), (2, 3), (1, 5)])):
            for j in subs:
                # what is there before the call
                c = ch.weighted([(6, 'new'), (2, 'keep'), (1, 'none')])
                if c == 'new':
                    keep = os.stat(j['path']) if j['now'] and ch.chance(0.5) else None
                    j['now'] = j['gen']()
                    if ch.chance(0.5) and os.path.lexists(j['path']):
                        fs.O.remove(j['path'])
                    fs.writefile(j['path'], j['now'][0])
                    if keep:
                        fs.O.utime(j['path'], ns=(keep.st_atime_ns, keep.st_mtime_ns))
                elif c == 'none' and j['now']:
                    fs.O.remove(j['path'])
                    j['now'] = None
                j['ok'] = [j['now']]
                j['streaming'] = bool(j['stream'] and j['now'] and ch.chance(0.3))
                # what happens to it meanwhile
                j['moves'] = []
                if not j['streaming'] and ch.chance(0.5):
                    for _ in range(1 + ch.draw(3)):
                        if ch.chance(0.12):
                            j['moves'].append(None)
                            j['ok'].append(None)
                        else:
                            v = j['gen']()
                            j['aside'] += 1
                            p = os.path.join(sim.top, 'aside', f"{j['kind']}{subs.index(j)}_{j['aside']}")
                            fs.makedirs(os.path.dirname(p))
                            fs.writefile(p, v[0])
                            j['moves'].append((p, v, ch.draw(12)))
                            j['ok'].append(v)
            sim.plan, sim.disk_full = {}, False
            sim.counts.clear()
            sim.plan_faults(FAULTS, p_none=0.5)
            faulty = not sim.fault_free
            acts, who = [], []
            for n, j in enumerate(subs):
                for m in range(ch.weighted([(5, 1), (1, 2)])):
                    t = j['path']
                    if j['streaming']:
                        t = self.target(sim, j, faulty and ch.chance(0.5))
                    acts.append((f'r{n}{m}', lambda j=j, t=t: j['read'](t)))
                    who.append(j)
                if j['moves']:
                    acts.append((f'm{n}', lambda j=j: self.mover(sim, j)))
                    who.append(None)
            fired0 = dict(sim.fired)
            source_lines.reset()
            rs = sim.run_many(acts) if len(acts) > 1 else [sim.run_one(acts[0][1])]
            fired = sim.fired != fired0
            sim.plan = {}
            for (nm, _), j, (st, val) in zip(acts, who, rs):
                if j is None:
                    if st != 'ok':
                        raise val
                    continue
                sim.log('RESULT', j['kind'], st, type(val).__name__)
                res.append((j['kind'], st, len(j['moves']), j['streaming']))
                self.judge(sim, j, st, val, fired)
            for j in subs:
                for mv in j['moves']:
                    j['now'] = mv[1] if mv else None
            want = {p: b for p, b in fixed.items()}
            want.update({j['path']: j['now'][0] for j in subs if j['now']})
            for j in subs:
                base = os.path.dirname(j['path'])
                got = {os.path.join(base, k): fs.readfile(os.path.join(base, k)) for k in sorted(os.listdir(base))}
                if got != {p: b for p, b in want.items() if os.path.dirname(p) == base}:
                    raise Violation('files-changed', f"{j['kind']}: {sorted(got)} for {sorted(want)}")
            if repr(sorted(self.home.__dict__.items())) != home:
                raise Violation('origin-changed')
            # nothing is wrong any more
            for j in subs:
                j['ok'] = [j['now']]
                j['streaming'] = False
                j['moves'] = []
                source_lines.reset()
                st, val = sim.run_one(lambda: j['read'](j['path']))
                self.judge(sim, j, st, val, False, ' (afterwards)')
        return dict(nontrivial=True, sample=res, state=res)

    def mover(self, sim, j):
        for mv in j['moves']:
            for _ in range(mv[2] if mv else 2):
                sim.point('wait')
            if mv is None:
                try:
                    os.remove(j['path'])
                except FileNotFoundError:
                    pass
            else:
                os.rename(mv[0], j['path'])

    def judge(self, sim, j, st, val, fired, note=''):
        ok = [v for v in j['ok'] if v is not None]
        gone = len(ok) < len(j['ok'])
        if st != 'ok':
            if not isinstance(val, Exception):
                raise val
            if fired or gone:
                return
            raise Violation('unexpected-exception', f"{j['kind']}{note}: {describe(val)}")
        if not ok:
            raise Violation('read-nothing', f"{j['kind']}{note}: a missing file gave {type(val).__name__}")
        whys = []
        for v in ok:
            source_lines.reset()
            st, why = sim.run_one(lambda: j['same'](val, copy.deepcopy(v[1])))
            if st != 'ok':
                why = describe(why)
            if not why:
                return
            whys.append(why)
        raise Violation('wrong-content', f"{j['kind']}{note}: {' / '.join(whys)[:500]}")


SCENARIOS = {'C27': C27}
