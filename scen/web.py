"""C16, C17: GeoServe and ComCat against a simulated web service."""
import copy
import json
import os
import time
import urllib.parse as up

from sim import fs, net
from sim.core import Violation
from . import http, work
from .base import Scenario, describe

HOST = 'earthquake.usgs.gov'


class WebBase(Scenario):
    def setup(self):
        os.environ['TZ'] = 'MST7'
        time.tzset()
        self.seams()
        http.install()
        from impactutils.comcat import query
        self.q = query


def outcomes(ch, extra=()):
    n = 4
    out = []
    for _ in range(n):
        out.append(ch.weighted([(9, 'ok'), (3, '503'), (3, None)]))
        if out[-1] is None:
            out[-1] = ch.pick(http.BAD + list(extra))
    return out


WORDS = ['Golden', 'M\u00e9xico', '\u65e5\u672c', 'a "quoted" name', 'x\\y', '', 'New\nLine', 'D\u017eingis', '</xml>', '\U0001f30b', 'null']


def num(ch):
    return ch.pick([0, 1, -1, 0.1, 123.456, -179.999999, 1e-7, 12345678901234567890, -0.5, 6.4, 90.0])


def place(ch, i):
    return {'type': 'Feature', 'id': i, 'geometry': {'coordinates': [num(ch), num(ch), num(ch)]},
            'properties': {'name': ch.pick(WORDS), 'population': num(ch), 'distance': num(ch)}}


def geoserve(ch):
    pl = {'metadata': {'x': num(ch)}, 'geonames': {'type': 'FeatureCollection', 'count': 1,
                                                   'features': [place(ch, i) for i in range(ch.draw(4))]}}
    if ch.chance(0.08):
        pl['geonames']['features'] += [dict(place(ch, 7), note='y' * ch.pick([8190, 65536, 300000]))]
    feats = [{'type': 'Feature', 'properties': {'network': ch.pick(['US', 'CI', 'NC', 'b\u00e9']),
                                                'type': ch.pick(['anss', 'contributor', 'NA'])}}
             for _ in range(ch.draw(3))]
    rg = {'metadata': {'y': 1}, 'authoritative': {'features': feats}, 'fe': {'features': [place(ch, 9)]},
          'tectonic': {'name': ch.pick(WORDS), 'n': [num(ch), None, True]}}
    return pl, rg


def same(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def enc(ch, obj):
    return json.dumps(obj, ensure_ascii=ch.chance(0.5), indent=ch.pick([None, 1])).encode('utf-8')


def badbody(ch, obj):
    b = enc(ch, obj)
    k = ch.draw(7)
    if k == 6:
        return b'{"z": "line\nfeed", ' + b.lstrip()[1:]       # a raw control character
    if k == 4:
        return b'{"z": "caf\xe9", ' + b.lstrip()[1:]       # not UTF-8, but the only thing wrong
    if k == 5:
        i = b.rindex(b'"')
        return b[:i] + b'\xed\xa0\x80' + b[i:]
    if k == 0:
        return b[:-1]
    if k == 1:
        return b'\xff\xfe' + b
    if k == 2:
        return b'<html>maintenance</html>'
    return b + b'}'


def event(ch):
    ids = ch.pick([['us1000abcd'], ['us1000abcd', 'ci2008'], ['at1234', 'atlas4567', 'ci2008'], ['nc72', 'ncx9', 'us2', 'usp000'],
                   ['ci1', 'us1'], ['us1', 'us10', 'us100'], ['usp1', 'us1p', 'atus1', 'ci1']])
    srcs = {'us1000abcd': 'us', 'ci2008': 'ci', 'at1234': 'at', 'atlas4567': 'atlas', 'nc72': 'nc', 'ncx9': 'ncx', 'us2': 'us',
            'usp000': 'us', 'ci1': 'ci', 'us1': 'us',
            'us10': 'us', 'us100': 'us', 'usp1': 'us', 'us1p': 'us', 'atus1': 'at'}
    auth = ch.pick(ids)
    order = list(ids)
    if ch.chance(0.5):
        order.reverse()
    slist = []
    for i in order:
        if srcs[i] not in slist:
            slist.append(srcs[i])
    if ch.chance(0.5):
        slist.reverse()
    ms = ch.pick([0, 1234567890123, 1700000000999, 999, 1592000000000, 1700000000001, 86399999, 1500,
                  -1, -1500, -999, -2208988800000])
    if ch.chance(0.08):
        big = ch.pick([8190, 65536, 70000, 300000])
    else:
        big = 0
    ev = {'id': auth, 'type': 'Feature',
          'properties': {'ids': ',' + ','.join(order) + ',', 'sources': ',' + ','.join(slist) + ',', 'time': ms,
                         'mag': num(ch), 'place': ch.pick(WORDS), 'tsunami': ch.draw(2), 'detail': 'x' * big,
                         'url': f'https://earthquake.usgs.gov/earthquakes/eventpage/{auth}', 'products': {}},
          'geometry': {'coordinates': [num(ch), num(ch), num(ch)]}}
    return ev, [i for i in order if i != auth], srcs


class C16(WebBase):
    def run(self, sim):
        ch = sim.ch
        sim.latency = ch.pick([0.002, 0.1])
        sim.frag = ch.pick([0, 0.3])
        sim.utc_offset = ch.pick([0, -25200])
        which = ch.pick(['geo', 'comcat'])
        eid = self.eid = ch.pick(['us1000abcd', 'official20110311054624120_30', 'CI2008', 'usp000hvnu', 'a', 'at00rf5skp'])
        if which == 'geo':
            pl, rg = geoserve(ch)
            bodies = {'places': enc(ch, pl), 'regions': enc(ch, rg)}
            bad = {k: badbody(ch, v) for k, v in (('places', pl), ('regions', rg))}
        else:
            ev, others, srcs = event(ch)
            bodies = {'detail': enc(ch, ev)}
            bad = {'detail': badbody(ch, ev)}

        def key(path):
            for k in bodies:
                if k in path:
                    return k
            return None

        def body(a):
            k = key(a['path'])
            if k is None:
                sim.fail('wrong-request', a['path'])
            a['kind'] = k
            return bodies[k]
        sc = http.Script(sim, [HOST], body, outcomes(ch, ['bad']), extra={'bad': lambda a: bad[key(a['path'])]})
        lat, lon = ch.pick([0.0, 35.628, -12.5, 89.9]), ch.pick([0.0, 82.452, -179.5, 180.0])
        kw = {}
        if ch.chance(0.4):
            kw = {'maxradius': ch.pick([100, 0.5]), 'minpop': ch.pick([0, 50000])}
        t0 = sim.now
        if which == 'geo':
            st, val = sim.run_one(lambda: self.q.GeoServe(lat, lon, **kw))
            nurls = 2
        else:
            st, val = sim.run_one(lambda: self.q.ComCatInfo(eid))
            nurls = 1
        dt = sim.now - t0
        sim.log('RESULT', st, round(dt, 3))
        exp, n, problem = http.walk(sc.attempts, nurls)
        if problem:
            raise Violation('retry-rule', problem)
        if n != len(sc.attempts):
            raise Violation('extra-requests', f'{len(sc.attempts)} requests where {n} were due')
        if dt > 38.0 * len(sc.attempts) + 12:
            raise Violation('too-slow', f'{dt:.1f} s for {len(sc.attempts)} requests')
        if exp == 'raise' and st == 'ok':
            raise Violation('bad-answer-accepted', f'object although outcomes were {[a["o"] for a in sc.attempts]}')
        if exp == 'ok' and st != 'ok':
            raise Violation('unexpected-exception', describe(val))
        if st == 'ok':
            if which == 'geo':
                self.geo(ch, sc, val, pl, rg, lat, lon, kw)
            else:
                self.comcat(ch, sc, val, ev, others, srcs)
        return dict(nontrivial=bool(sc.attempts), sample=dict(service=which, outcomes=[a['o'] for a in sc.attempts]),
                    state=[which, [a['o'] for a in sc.attempts]])

    def geo(self, ch, sc, g, pl, rg, lat, lon, kw):
        good = {a['kind']: a for a in sc.attempts if a['o'] == 'ok'}
        if set(good) != {'places', 'regions'}:
            raise Violation('wrong-request', f'{sorted(good)}')
        for k, a in good.items():
            q = {x: y[0] for x, y in up.parse_qs(up.urlsplit(a['path']).query).items()}
            if float(q.get('latitude', 'nan')) != lat or float(q.get('longitude', 'nan')) != lon:
                raise Violation('wrong-request', a['path'])
            if k == 'places' and (float(q.get('maxradiuskm', 'nan')) != kw.get('maxradius', 500)
                                  or float(q.get('minpopulation', 'nan')) != kw.get('minpop', 1000)):
                raise Violation('wrong-request', a['path'])
        for _ in range(4):
            k = ch.draw(3)
            if k == 0 and not same(g.getPlaces(), pl['geonames']['features']):
                raise Violation('wrong-places', repr(g.getPlaces())[:200])
            if k == 1:
                r = dict(g.getRegions())
                want = dict(rg)
                r.pop('metadata', None)
                want.pop('metadata', None)
                if not same(r, want):
                    raise Violation('wrong-regions', repr(r)[:200])
            if k == 2:
                f = rg['authoritative']['features']
                want = (f[0]['properties']['network'], f[0]['properties']['type']) if f else ('US', 'NA')
                if tuple(g.getAuthoritative()) != want:
                    raise Violation('wrong-authoritative', f'{g.getAuthoritative()} for {want}')

    def comcat(self, ch, sc, c, ev, others, srcs):
        if f'/{self.eid}.' not in sc.attempts[-1]['path']:
            raise Violation('wrong-request', sc.attempts[-1]['path'])
        p = ev['properties']
        for _ in range(6):
            k = ch.draw(6)
            if k == 0:
                a, o = c.getAssociatedIds()
                if a != ev['id'] or list(o) != others:
                    raise Violation('wrong-ids', f'{(a, o)} for {(ev["id"], others)}')
            elif k == 1:
                a, o = c.getAssociatedSources()
                want = [srcs[i] for i in others]
                if a != srcs[ev['id']] or list(o) != want:
                    raise Violation('wrong-sources', f'{(a, o)} for {(srcs[ev["id"]], want)}')
            elif k == 2:
                e = c.getEventParams()
                import calendar
                secs = calendar.timegm(e['time'].timetuple()) + e['time'].microsecond / 1e6
                off = secs - p['time'] / 1000.0     # whole seconds are cut off
                if not (-1.0 < off < 0.0005 or p['time'] < 0 and 0 <= off < 1.0):
                    raise Violation('wrong-time', f'{e["time"]} for {p["time"]}')
                got = [e['lon'], e['lat'], e['depth'], e['magnitude']]
                if not same(got, ev['geometry']['coordinates'] + [p['mag']]):
                    raise Violation('wrong-params', f'{e}')
            elif k == 3 and c.getLocation() != p['place']:
                raise Violation('wrong-location', repr(c.getLocation()))
            elif k == 4 and c.getTsunami() != p['tsunami']:
                raise Violation('wrong-tsunami', repr(c.getTsunami()))
            elif k == 5 and c.getURL() != p['url']:
                raise Violation('wrong-url', repr(c.getURL()))


GRID = [b'<?xml version="1.0"?>\n<grid>\n1 2 3\n</grid>\n', b'line1\r\nline2\r\n\rline3\n', 'caf\u00e9 \u65e5\u672c\n'.encode(),
        b'\xef\xbb\xbf<xml/>', b'', b'caf\xe9 latin-1\n', b'0.1 0.2\n' * 9000, b'a\x00b\x85c\n', '\u2028 line sep \x85\x0c\x1c\n'.encode()]


class C17(WebBase):
    def run(self, sim):
        ch = sim.ch
        sim.latency = ch.pick([0.002, 0.1])
        sim.frag = ch.pick([0, 0.3])
        ev, _, _ = event(ch)
        url = ch.pick(['https://earthquake.usgs.gov/archive/product/shakemap/us1/grid.xml',
                       'http://earthquake.usgs.gov/x/grid.xml', 'https://cdn.example.org/g%20x/grid.xml?v=1'])
        has = ch.weighted([(8, 'yes'), (1, 'noprod'), (1, 'nogrid')])
        if has != 'noprod':
            ev['properties']['products'] = {'shakemap': [{'contents': {'download/grid.xml': {'url': url}} if has == 'yes' else {}},
                                                         {'contents': {'download/grid.xml': {'url': 'https://earthquake.usgs.gov/second'}}}]}
        payload = ch.pick(GRID)
        if ch.chance(0.3):
            payload = work.content(ch)
        script = ['ok'] + outcomes(ch)

        def body(a):
            if 'detail' in a['path']:
                return json.dumps(ev).encode()
            if a['path'] not in url:
                sim.fail('wrong-request', a['path'])
            return payload
        sc = http.Script(sim, [HOST, 'cdn.example.org'], body, script, trunc_framings=('length', 'chunked'))
        st, cc = sim.run_one(lambda: self.q.ComCatInfo('us1000abcd'))
        if st != 'ok':
            raise Violation('unexpected-exception', describe(cc))
        sim.plan_faults({k: fs.CATS[k] for k in ('fs.create', 'fs.write', 'fs.close')}, p_none=0.6)
        fs.writefile('other.xml', b'other')
        results = []
        for _ in range(1 + ch.draw(2)):
            target = ch.pick(['grid.xml', os.path.join(sim.top, 'my grid.xml'), 'none/grid.xml'])
            loc = None if ch.chance(0.15) else target
            if loc and ch.chance(0.5) and os.path.isdir(os.path.dirname(os.path.abspath(loc))):
                fs.writefile(os.path.abspath(loc), ch.pick([b'old grid\n', b'x' * 20000]))
            before = fs.tree(sim.top)
            n0 = len(sc.attempts)
            fired0 = {k: v for k, v in sim.fired.items() if k.startswith('fs.')}
            st, val = sim.run_one(lambda: cc.getShakeGrid(loc) if loc is not None else cc.getShakeGrid())
            sim.log('RESULT', st, val)
            results.append((loc, st, val is not None))
            after = fs.tree(sim.top)
            fsfault = {k: v for k, v in sim.fired.items() if k.startswith('fs.')} != fired0 or getattr(sim, 'disk_full', False)
            if st != 'ok':
                raise Violation('raised', describe(val))
            key = os.path.relpath(os.path.abspath(loc), sim.top) if loc else None
            for p in set(before) | set(after):
                if p != key and before.get(p, 0) != after.get(p, 0):
                    raise Violation('other-file-changed', p)
            att = sc.attempts[n0:]
            if has != 'yes':
                if val is not None or before != after or att:
                    raise Violation('no-grid', f'{val!r}')
                continue
            if loc is None:
                if val != url or before != after:
                    raise Violation('wrong-url', f'{val!r} for {url}')
                continue
            exp = 'ok' if att and att[-1]['o'] == 'ok' else 'raise'
            if val is not None:
                if val != loc:
                    raise Violation('bad-return', repr(val))
                if exp != 'ok':
                    raise Violation('failed-download-reported-good', f'{[a["o"] for a in att]}')
                if after.get(key) != payload:
                    raise Violation('wrong-content', f'{work.brief(after.get(key))} for {work.brief(payload)}')
            else:
                if exp != 'ok' and after.get(key, 0) != before.get(key, 0):
                    raise Violation('damaged', f'{key} was {work.brief(before.get(key))} now {work.brief(after.get(key))}')
                try:
                    payload.decode('utf-8')
                    utf = True
                except UnicodeDecodeError:
                    utf = False
                if exp == 'ok' and not fsfault and utf and os.path.isdir(os.path.dirname(os.path.abspath(loc))):
                    raise Violation('good-download-lost', 'None although download and disk were fine')
        return dict(nontrivial=len(sc.attempts) > 1, sample=dict(outcomes=[a['o'] for a in sc.attempts], results=results),
                    state=results)


SCENARIOS = {'C16': C16, 'C17': C17}
