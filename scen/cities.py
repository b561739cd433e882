"""C19: city table download."""
import os

from sim import fs, net
from sim.core import Violation
from . import http, tz, work
from .base import Scenario, describe

FAULTS = {k: fs.CATS[k] for k in ('fs.create', 'fs.write', 'fs.close', 'fs.read', 'fs.openr', 'fs.mkdir')}
BAD = [b for b in http.BAD if b not in ('304', '300', 'stall', 'stallmid')] + ['503']
NAMES = ['Golden', 'Los Angeles', '', '  ', ' Padded ', 'Ciudad', 'S\u00e3o', 'N\'Djamena', 'A', 'x' * 300, 'Tilde~', '\x7f', 'caf\u00e9', '"q"',
         'NA', 'null', '123', 'a,b', '\x80', 'A\u00e3b', 'Caf\udce9', 'Bad\udc80Name', '\udcff', 'Nul\x00l', 'nan', '#x', '-']


def table(ch, n):
    rows, want = [], []
    for i in range(n):
        name = ch.pick(NAMES)
        cc = ch.pick(['US', 'MX', ' CL', 'NA', 'xk', ''])
        lat = ch.pick([0.0, 39.7555, -33.45, 89.999999, -0.00001])
        lon = ch.pick([0.0, -105.2211, 179.99, -180.0])
        code = ch.pick(['PPL', 'PPLC', 'PPLA', 'PPLA2', 'PPLX', 'pplc', ''])
        pop = ch.pick([0, 1000, 18867, 37000000, 1])
        f = [str(i), 'n\u00e4me ' + name, name, 'alt,\u0416\u0085x', repr(lat), repr(lon), 'P', code, cc, '', '', '', '', '', str(pop),
             '', '10', 'America/Denver', '2020-01-01']
        rows.append('\t'.join(f))
        t = name.strip()
        if t and all(ord(c) < 128 for c in t):
            want.append((t, cc.strip(), lat, lon, code in ('PPLC', 'PPLA'), pop))
    return rows, want


class C19(Scenario):
    preload = ('pandas',)

    def setup(self):
        self.seams()
        http.install()
        from impactutils.mapping.city import Cities
        self.Cities = Cities

    def run(self, sim):
        work.TAG[0] = 0
        ch = sim.ch
        sim.latency = ch.pick([0.002, 0.1])
        sim.frag = 0
        sim.short_io = ch.pick([0, 0, 0.2])
        res = []
        for rep in range(ch.weighted([(3, 1), (1, 2)])):
            rows, want = table(ch, ch.weighted([(3, 3), (2, 1), (1, 0), (2, 12), (1, 120)]))
            broken = None
            if rows and ch.chance(0.15):
                i = ch.draw(len(rows))
                f = rows[i].split('\t')
                broken = ch.pick(['short', 'lat', 'lon', 'pop'])
                f[2] = 'Named'
                if broken == 'short':
                    f = f[:ch.pick([1, 2, 3, 5, 6, 8, 14])]
                elif broken == 'lat':
                    f[4] = 'north'
                elif broken == 'lon':
                    f[5] = ''
                else:
                    f[14] = ch.pick(['many', '', '1.5'])
                rows[i] = '\t'.join(f)
            text = ch.pick(['\n', '\n', '\r\n']).join(rows)
            if rows and ch.chance(0.7):
                text += '\n'
            member = 'cities1000.txt'
            bad = None
            if ch.chance(0.1):
                bad = ch.pick(['corrupt', 'member'])
            if bad == 'member':
                member = 'cities500.txt'
            members = [(member, text.encode('utf-8', 'surrogateescape'))]
            if ch.chance(0.2):
                members.insert(0, ('readme.txt', b'hello'))
            data = tz.pack(ch, members)
            if bad == 'corrupt':
                data = tz.corrupt(ch, data)
                # damage to a member that is not needed is no failure
                if len(members) > 1 and len(data) > 40:
                    data = data[:20]
            o = ch.weighted([(8, 'ok'), (2, None)]) or ch.pick(BAD)
            sc = http.Script(sim, ['download.geonames.org'], lambda a: data, [o], trunc_framings=('length', 'chunked'))
            sim.plan = {}
            sim.disk_full = False
            sim.counts.clear()
            sim.plan_faults(FAULTS, p_none=0.6)
            fired0 = {k: v for k, v in sim.fired.items() if k.startswith('fs.')}
            before = fs.tree(sim.top)
            st, val = sim.run_one(lambda: self.Cities.fromGeoNames())
            sim.log('RESULT', st, type(val).__name__)
            res.append((st, o, bad, broken))
            after = fs.tree(sim.top)
            if after != before:
                raise Violation('left-behind', repr(sorted(set(after) ^ set(before)))[:200])
            fsfault = {k: v for k, v in sim.fired.items() if k.startswith('fs.')} != fired0
            fail = bad or broken or any(a['o'] != 'ok' for a in sc.attempts)
            if st == 'ok':
                if fail:
                    raise Violation('failure-not-raised', f'{res[-1]}')
                df = val._dataframe if hasattr(val, '_dataframe') else val.getDataFrame()
                got = [(str(r['name']), str(r['ccode']), float(r['lat']), float(r['lon']), bool(r['iscap']), int(r['pop']))
                       for _, r in df.iterrows()]
                if got != want or len(val) != len(want):
                    k = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
                    raise Violation('wrong-rows', f'{len(got)} rows for {len(want)}; row {k}: {got[k:k+1]} for {want[k:k+1]}')
            elif not fail and not fsfault:
                raise Violation('unexpected-exception', describe(val))
        return dict(nontrivial=True, sample=dict(rows=len(rows), results=res), state=res)


SCENARIOS = {'C19': C19}
