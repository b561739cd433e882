"""C24: product writers under disk faults, read back."""
import copy
import io
import json
import math
import os
from xml.etree import ElementTree

from sim import fs
from sim.core import Violation
from . import work
from .base import Scenario, describe

FAULTS = {k: fs.CATS[k] for k in ('fs.create', 'fs.write', 'fs.close')}
TEXTS = ['', 'Smith et al. (2016)', 'x', 'Caf\u00e9 & <Co> "q"', 'S\u00e3o Paulo', '\u65e5\u672c, K\u014dbe', "it's; a|b", '100%', 'a' * 9000,
         '{"type": 1}', 'tab\tin', 'back\\slash', '\u2028sep', '\U0001f30d']
CITY = ['Golden', 'Los Angeles', 'NA', 'null', 'nan', 'a,b', '"q"', 'Z\u00fcrich', '\u6771\u4eac', "N'Djamena", '123', '1e5', 'True', 'None',
        'line\nbreak', 'tab\tx', '#hash', ' padded ', '', 'x' * 400, '2020-01-01', '-', '1_000', 'inf']


class Broken:
    """A stream that fails at its n-th write, as a full disk would."""

    def __init__(self, sim, real, nth):
        self.sim, self.real, self.nth, self.n = sim, real, nth, 0

    def write(self, b):
        self.n += 1
        if self.nth is not None and self.n > self.nth:
            self.sim.note_fault('stream:ENOSPC')
            raise OSError(28, 'No space left on device')
        return self.real.write(b)

    def read(self, *a):
        return self.real.read(*a)

    def flush(self):
        pass

    def __iter__(self):
        return iter(self.real)


def near(a, b, tol):
    return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= tol


def quads(rup):
    return [[(p.longitude, p.latitude, p.depth) for p in q] for q in rup.getQuadrilaterals()]


def dlon(a, b):
    d = abs(a - b) % 360
    return min(d, 360 - d)


class C24(Scenario):
    datetime = False
    preload = ('numpy', 'pandas', 'openquake.hazardlib.geo', 'openquake.hazardlib.gsim.base', 'lxml.etree')

    def setup(self):
        self.seams()
        import warnings
        warnings.simplefilter('ignore')
        import logging
        logging.disable(logging.CRITICAL)
        import numpy
        import pandas
        from impactutils.mapping.city import Cities
        from impactutils.rupture import factory, origin
        from impactutils.rupture.edge_rupture import EdgeRupture
        from impactutils.rupture.point_rupture import PointRupture
        from impactutils.rupture.quad_rupture import QuadRupture
        from impactutils.time.ancient_time import HistoricTime
        self.np, self.pd = numpy, pandas
        self.Cities, self.factory, self.origin = Cities, factory, origin
        self.Edge, self.Point, self.Quad, self.HT = EdgeRupture, PointRupture, QuadRupture, HistoricTime

    # -- inputs ------------------------------------------------------------
    def event(self, ch):
        y = ch.pick([2016, 1999, 1906, 1899, 1700, 869, 2100, 1900])
        t = self.HT(y, 1 + ch.draw(12), 1 + ch.draw(28), ch.draw(24), ch.draw(60), ch.draw(60), ch.pick([0, 0, 1, 500000, 999999]))
        ev = dict(id=ch.pick(['us2016abcd', 'x', 'ci:38-1_a', 'NA']), netid=ch.pick(['us', 'ci', '']), network=ch.pick(TEXTS),
                  lat=ch.pick([0.0, 34.05, -12.34567, 61.0, -45.999949]), lon=ch.pick([0.0, -118.25, 179.999, -179.99995, 12.345678]),
                  depth=ch.pick([0.0, 10.0, 24.16, 600.0, -2.5, 3.75]), mag=ch.pick([5.0, 7.9, 6.25, 4.44, -0.4, 0.0]), time=t, locstring=ch.pick(TEXTS))
        if ch.chance(0.6):
            ev['mech'] = ch.pick(['RS', 'SS', 'NM', 'ALL'])
        if ch.chance(0.5):
            ev['productcode'] = ch.pick(['us2000wxyz_zoom', '', 'a&b', ev['id']])
        return ev

    def rupture(self, ch, kind):
        o = self.origin.Origin(self.event(ch))
        if kind == 'point':
            return self.Point(o)
        ref = ch.pick(TEXTS)
        n = ch.weighted([(4, 1), (3, 2), (2, 5), (1, 40)])
        x = o.lon + ch.pick([0.0, -0.3, 0.123456789])
        y = o.lat + ch.pick([0.0, 0.2])
        step = ch.pick([0.1, 0.05, 0.33333333])
        ang = ch.pick([0.0, 0.7, 1.5, 3.0, 4.4])
        dx, dy = step * math.sin(ang), step * math.cos(ang)
        if not all(abs(x + k * dx + e) < 179.4 for k in (0, n) for e in (-0.5, 0.5)):
            x = math.copysign(150.0, x)
        x0 = [x + i * dx for i in range(n)]
        y0 = [y + i * dy for i in range(n)]
        x1 = [x + (i + 1) * dx for i in range(n)]
        y1 = [y + (i + 1) * dy for i in range(n)]
        z = ch.pick([0.0, 2.0, 5.4321])
        if kind == 'quad':
            gi = ch.pick([None, [0] * n, [i // 2 for i in range(n)]])
            w = ch.pick([5.0, 12.5, 30.0])
            dip = ch.pick([90.0, 45.0, 30.0, 60.123])
            return self.Quad.fromTrace(x0, y0, x1, y1, [z] * n, [w] * n, [dip] * n, o, group_index=gi, reference=ref)
        top = ch.pick(['f', 'i']) if ch.chance(0.2) else 'f'
        n = min(n, 5)
        tx, ty = x0[:n] + [x1[n - 1]], y0[:n] + [y1[n - 1]]
        td = [z + 0.1 * (i % 3) for i in range(n + 1)]
        bx, by = [v + 0.02 for v in tx], [v - 0.01 for v in ty]
        bd = [10.0 + 0.5 * (i % 2) for i in range(n + 1)]
        if top == 'i':
            td, bd = [int(v) for v in td], [int(v) for v in bd]
        return self.Edge.fromArrays(tx, ty, td, bx, by, bd, o, mesh_dx=ch.pick([0.5, 1.25]), reference=ref)

    def cities(self, ch):
        n = ch.weighted([(4, 3), (2, 1), (1, 0), (2, 15), (1, 400)])
        rows = dict(name=[], lat=[], lon=[])
        extra = ch.chance(0.7)
        if extra:
            rows.update(ccode=[], iscap=[], pop=[])
        for _ in range(n):
            rows['name'].append(ch.pick(CITY))
            rows['lat'].append(ch.pick([0.0, 39.7555, -33.45, 0.1 + 0.2, 1e-7]))
            rows['lon'].append(ch.pick([0.0, -105.2211, 179.99, 100 / 3]))
            if extra:
                rows['ccode'].append(ch.pick(['US', 'NA', 'MX', '']))
                rows['iscap'].append(ch.chance(0.5))
                rows['pop'].append(ch.pick([0, 1000, 37000000]))
        df = self.pd.DataFrame(rows)
        if n and ch.chance(0.25):
            # optional numbers that are not known for every city
            df['xoff'] = [ch.pick([0.25, -1.0, float('nan')]) for _ in range(n)]
        if n > 2 and ch.chance(0.4):
            df = df[df['lat'] >= 0]     # a selection, whose index has gaps
        return self.Cities(df)

    # -- comparison --------------------------------------------------------
    def same_origin(self, a, b):
        da, db = dict(a.__dict__), dict(b.__dict__)
        bad = []
        for k, v in da.items():
            w = db.get(k)
            if k == 'time':
                if tuple(v.timetuple()) != tuple(w.timetuple()) or v.microsecond != w.microsecond:
                    bad.append((k, v, w))
            elif v != w:
                bad.append((k, v, w))
        return bad

    def same_rupture(self, a, b, tol, ztol=0):
        if type(a) is not type(b):
            return f'{type(b).__name__} for {type(a).__name__}'
        if isinstance(a, self.Point):
            return ''
        qa, qb = quads(a), quads(b)
        if len(qa) != len(qb):
            return f'{len(qb)} quadrilaterals for {len(qa)}'
        for x, y in zip(qa, qb):
            for p, q in zip(x, y):
                if dlon(p[0], q[0]) > tol or abs(p[1] - q[1]) > tol or abs(p[2] - q[2]) > ztol:
                    return f'{q} for {p}'
        if tol == 0:
            if isinstance(a, self.Edge) and a._mesh_dx != b._mesh_dx:
                return 'mesh_dx'
            if list(a._getGroupIndex()) != list(b._getGroupIndex()):
                return 'groups'
        if a.getReference() != b.getReference():
            return f'reference {b.getReference()[:60]!r} for {a.getReference()[:60]!r}'
        return ''

    def digits(self, r, src):
        """The vertices in the file, before a reader makes plane quadrilaterals of them."""
        if isinstance(src, str):
            with open(src, encoding='utf-8') as f:
                txt = f.read()
        else:
            txt = src.getvalue()
        got = []
        for ln in txt.splitlines():
            try:
                v = [float(x) for x in ln.replace(',', ' ').split()]
            except ValueError:
                continue
            if len(v) == 3:
                got.append((v[1], v[0], v[2]))
        want = []
        for q in quads(r):
            want += q + q[:1]
        if len(got) == len(want):
            for p, q in zip(want, got):
                if dlon(p[0], q[0]) > 5.1e-5 or abs(p[1] - q[1]) > 5.1e-5 or abs(p[2] - q[2]) > 5.1e-5:
                    return f'written as {q} for {p}'
        return ''

    # -- one save ----------------------------------------------------------
    def make(self, ch, kind):
        if kind in ('point', 'quad', 'edge'):
            r = self.rupture(ch, kind)
            snap = lambda: (json.dumps(r._geojson, sort_keys=True, default=repr), repr(sorted(r._origin.__dict__.items())),
                            repr(quads(r)) if kind != 'point' else '')

            def check(path):
                with open(path) as f:
                    b = self.factory.rupture_from_dict(json.load(f))
                why = self.same_rupture(r, b, 0)
                if why:
                    return why
                return str(self.same_origin(r.getOrigin(), b.getOrigin()) or '')
            return r.writeGeoJson, snap, check, 'path'
        if kind == 'text':
            while True:
                r = self.rupture(ch, 'quad')
                ref = r.getReference()
                # a reference is one line of text without '#' and outer blanks
                if ref == ref.strip() and '#' not in ref and len(ref.splitlines()) <= 1:
                    break
            snap = lambda: (repr(quads(r)), r.getReference())

            def check(path):
                if isinstance(path, str):
                    b = self.factory.get_rupture(r.getOrigin(), path, new_format=False)
                else:
                    b = self.factory.get_rupture(r.getOrigin(), path, new_format=False)
                return self.same_rupture(r, b, 3e-3, 2.5e-4) or self.digits(r, path)
            return r.writeTextFile, snap, check, 'text'
        if kind == 'event':
            ev = self.event(ch)
            if ch.chance(0.3):
                ev['event_type'] = ch.pick(['ACTUAL', 'SCENARIO'])
            if ch.chance(0.4):
                ev['reference'] = ch.pick(TEXTS)
            snap = lambda: repr(sorted(ev.items()))

            def save(path):
                msg = self.origin.write_event_file(ev, path)
                if msg is not None:
                    raise OSError(msg)

            def check(path):
                b = self.origin.read_event_file(path)
                if not isinstance(path, str):
                    path.seek(0)
                kind = ElementTree.parse(path).getroot().get('event_type')
                if kind != ev.get('event_type', 'ACTUAL'):
                    return f"event_type: {kind!r} for {ev.get('event_type')!r}"
                for k in ('id', 'netid', 'network', 'locstring', 'mech', 'reference', 'productcode'):
                    want = ev.get(k)
                    if k == 'productcode' and want is None and isinstance(path, str):
                        want = ev['id']
                    if b.get(k) != want:
                        return f'{k}: {str(b.get(k))[:60]!r} for {str(want)[:60]!r}'
                for k, tol in (('lat', 6e-5), ('lon', 6e-5), ('depth', 0.0501), ('mag', 0.0501)):
                    if abs(b[k] - ev[k]) > tol:
                        return f'{k}: {b[k]} for {ev[k]}'
                if tuple(b['time'].timetuple())[:6] != tuple(ev['time'].timetuple())[:6]:
                    return f"time: {tuple(b['time'].timetuple())[:6]} for {tuple(ev['time'].timetuple())[:6]}"
                return ''
            return save, snap, check, 'bytes'
        c = self.cities(ch)
        snap = lambda: (list(c._dataframe.columns), list(map(str, c._dataframe.dtypes)), list(c._dataframe.index),
                        repr(c._dataframe.values.tolist()))

        def check(path):
            a, b = c.getDataFrame(), self.Cities.fromCSV(path).getDataFrame()
            if list(a.columns) != list(b.columns):
                return f'columns {list(b.columns)} for {list(a.columns)}'
            if len(a) != len(b):
                return f'{len(b)} rows for {len(a)}'
            for col in a.columns:
                for x, y in zip(a[col].tolist(), b[col].tolist()):
                    if not (near(x, y, 1e-9) if isinstance(x, float) and isinstance(y, (int, float)) else x == y):
                        return f'{col}: {y!r} for {x!r}'
            return ''
        return c.save, snap, check, 'csv'

    def run(self, sim):
        work.TAG[0] = 0
        ch = sim.ch
        sim.frag = 0
        sim.short_io = ch.pick([0, 0, 0.3])
        d = os.path.join(sim.top, 'out dir' if ch.chance(0.2) else 'out')
        fs.makedirs(d)
        used = set()
        res = []
        kinds = ['point', 'quad', 'edge', 'text', 'event', 'cities']
        for rep in range(ch.weighted([(3, 1), (2, 2), (1, 3)])):
            par = 1 if ch.chance(0.85) else 2
            jobs = []
            shared = None
            for p in range(par):
                kind = ch.pick(kinds)
                if shared is not None and ch.chance(0.5):
                    save, snap, check, how, kind = shared
                else:
                    save, snap, check, how = self.make(ch, kind)
                shared = (save, snap, check, how, kind)
                stream = None
                nm = work.name(ch, used=() if par == 1 else used)
                used.add(nm)
                target = path = os.path.join(d, nm)
                if how != 'path' and ch.chance(0.2):
                    real = io.BytesIO() if how == 'bytes' else io.StringIO()
                    stream = target = Broken(sim, real, ch.draw(12) if ch.chance(0.4) else None)
                elif ch.chance(0.35):
                    fs.writefile(path, ch.pick([b'old\n', b'x' * 200000, b'', b'{"a": 1}\n' * 3000]))
                jobs.append(dict(kind=kind, save=save, snap=snap, check=check, target=target, path=path, stream=stream, before=snap()))
            sim.plan, sim.disk_full = {}, False
            sim.counts.clear()
            sim.plan_faults(FAULTS, p_none=0.45)
            fired0 = dict(sim.fired)
            if par == 1:
                rs = [sim.run_one(lambda j=jobs[0]: j['save'](j['target']))]
            else:
                rs = sim.run_many([(f'w{i}', lambda j=j: j['save'](j['target'])) for i, j in enumerate(jobs)])
            fired = sim.fired != fired0
            sim.plan, sim.disk_full = {}, False
            for j, (st, val) in zip(jobs, rs):
                sim.log('RESULT', j['kind'], st, type(val).__name__)
                res.append((j['kind'], st, j['stream'] is not None))
                if j['snap']() != j['before']:
                    raise Violation('input-changed', j['kind'])
                if st == 'ok':
                    self.verify(sim, j)
                    continue
                if not fired:
                    raise Violation('unexpected-exception', f"{j['kind']}: {describe(val)}")
                # the disk has room again: the same object can be saved
                if j['stream'] is not None:
                    j['stream'] = j['target'] = Broken(sim, type(j['stream'].real)(), None)
                st, val = sim.run_one(lambda: j['save'](j['target']))
                if st != 'ok':
                    raise Violation('unexpected-exception', f"{j['kind']} after the fault: {describe(val)}")
                self.verify(sim, j, ' (second attempt)')
        return dict(nontrivial=True, sample=res, state=res)

    def verify(self, sim, j, note=''):
        src = j['path']
        if j['stream'] is not None:
            if j['stream'].real.closed:
                raise Violation('stream-closed', j['kind'])
            src = type(j['stream'].real)(j['stream'].real.getvalue())
        st, why = sim.run_one(lambda: j['check'](src))
        if st != 'ok':
            raise Violation('not-readable', f"{j['kind']}{note}: {describe(why)}")
        if why:
            raise Violation('wrong-content', f"{j['kind']}{note}: {why}")


SCENARIOS = {'C24': C24}
