"""C25: computational objects shared by threads that are preempted at any line."""
import copy
import datetime
import importlib
import importlib.abc
import importlib.util
import io
import math
import sys

from sim import fs, lines
from sim.core import Violation
from .base import Scenario, describe


def fake_adjustment(magnitude, depth, ar=1.0, mechanism=None, mag_scaling=None, n_repi=13, min_repi=0.1, max_repi=1000,
                    nxny=7, n_theta=19, n_dip=4, min_dip=0, max_dip=1.5, n_eps=5, trunc=2, **kw):
    """Stand-in for ps2ff's (third party, a second per call): any function of its arguments."""
    import numpy as np
    repi = np.linspace(min_repi, max_repi, n_repi)
    k = magnitude * 0.1 + depth * 0.01 + ar + min_dip + 0.1 * max_dip + 0.01 * len(str(mechanism)) + 0.001 * len(str(mag_scaling))
    return repi, repi * 0.9 / (1 + 0.01 * k), repi + k, repi * 0.01 + k, repi * 0.02 + k


class Fresh(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Imports the repository's modules from code compiled once, so that they
    can be imported anew (nothing cached, nothing left over) in two milliseconds."""
    KEEP = ('impactutils', 'impactutils._version')

    def __init__(self):
        self.code, self.where = {}, {}

    def find_spec(self, name, path=None, target=None):
        if not name.startswith('impactutils'):
            return None
        if name not in self.code:
            sys.meta_path.remove(self)
            try:
                sp = importlib.util.find_spec(name)
            finally:
                sys.meta_path.insert(0, self)
            if sp is None or sp.origin is None or not hasattr(sp.loader, 'get_code'):
                return None
            self.code[name] = sp.loader.get_code(name)
            self.where[name] = (sp.origin, sp.submodule_search_locations)
        origin, sub = self.where[name]
        return importlib.util.spec_from_file_location(name, origin, loader=self, submodule_search_locations=sub)

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        exec(self.code[mod.__name__], mod.__dict__)

    def forget(self):
        for k in list(sys.modules):
            if k.startswith('impactutils') and k not in self.KEEP:
                del sys.modules[k]


class C25(Scenario):
    datetime = False
    preload = ('numpy', 'pandas', 'matplotlib.colors', 'openquake.hazardlib.geo', 'openquake.hazardlib.gsim.base', 'ps2ff.run',
               'openquake.hazardlib.gsim.abrahamson_2014', 'openquake.hazardlib.gsim.boore_2014')

    def setup(self):
        import warnings
        warnings.simplefilter('ignore')
        import logging
        logging.disable(logging.CRITICAL)
        self.seams()
        import ps2ff.run
        ps2ff.run.single_event_adjustment = fake_adjustment
        import numpy
        import pandas
        from openquake.hazardlib.gsim.abrahamson_2014 import AbrahamsonEtAl2014
        from openquake.hazardlib.gsim.boore_2014 import BooreEtAl2014
        self.np, self.pd, self.gmpes = numpy, pandas, [AbrahamsonEtAl2014(), BooreEtAl2014()]
        self.finder = Fresh()
        sys.meta_path.insert(0, self.finder)
        self.bind()

    def bind(self):
        """The repository, newly imported: as in a process that called nothing yet."""
        self.finder.forget()
        from impactutils.colors.cpalette import ColorPalette
        from impactutils.mapping import compass
        from impactutils.mapping.city import Cities
        from impactutils.rupture import distance, factory, origin, utils
        from impactutils.rupture.edge_rupture import EdgeRupture
        from impactutils.rupture.point_rupture import PointRupture
        from impactutils.rupture.quad_rupture import QuadRupture
        from impactutils.textformat import text
        from impactutils.time import timeutils
        from impactutils.time.ancient_time import HistoricTime
        from impactutils.vectorutils import ecef
        from impactutils.vectorutils.vector import Vector
        self.ColorPalette, self.Cities, self.compass = ColorPalette, Cities, compass
        self.distance, self.origin, self.utils, self.factory = distance, origin, utils, factory
        self.Edge, self.Point, self.Quad = EdgeRupture, PointRupture, QuadRupture
        self.text, self.timeutils, self.HT, self.ecef, self.Vector = text, timeutils, HistoricTime, ecef, Vector

    # -- shared objects: drawn once, buildable any number of times ----------
    RUP = dict(lat=[34.0, -20.0], lon=[-118.0, 20.0], edepth=[10.0, 30.0], mag=[6.0, 7.5], mech=['ALL', 'RS', 'SS'], n=[1, 2, 3],
               step=[0.1, 0.06], ang=[0.3, 1.5, 4.0], z=[0.0, 3.0], w=[5.0, 12.0], dip=[90.0, 40.0], groups=[None, 'one'],
               flip=[0, 0, 1, 2, 5, 6, 7], mesh=[2.0, 3.0, 5.0, 1.7], wave=[0.1, -0.2, 0.0],
               region=[None, 'Active Shallow Crust', 'Stable Shallow Crust', 'other'])

    def spec(self, ch, like=None):
        kind = ch.weighted([(3, 'quad'), (4, 'edge'), (2, 'point'), (2, 'palette'), (2, 'cities'), (1, 'plain'), (1, 'zones')])
        if like is not None:
            kind = like['kind']
        lat = lon = par = None
        if kind in ('quad', 'edge', 'point'):
            if like is not None:      # the same but for one thing
                par = dict(like['par'])
                k = ch.pick(sorted(self.RUP))
                par[k] = ch.pick(self.RUP[k])
            else:
                par = {k: ch.pick(v) for k, v in self.RUP.items()}
            build = lambda: self.rupture(kind, par)
            lat, lon = par['lat'], par['lon']
        elif kind == 'palette':
            pre = ch.pick(['mmi', 'pop', 'shaketopo'])
            log = ch.chance(0.3)

            def build():
                if log:
                    return self.ColorPalette('x', [0.0, 1.0], [1.0, 3.0], [(0, 0, 0), (10, 20, 30)], [(10, 20, 30), (255, 200, 100)],
                                             is_log=True)
                return self.ColorPalette.fromPreset(pre)
        elif kind == 'cities':
            n = ch.pick([1, 5, 30])
            rows = [(ch.pick(['Golden', 'Los Angeles', 'Boulder', 'Angeles']) + str(i), 34 + ch.draw(100) / 37.0, -118 + ch.draw(100) / 37.0,
                     ch.pick([10, 5000, 200000])) for i in range(n)]

            def build():
                return self.Cities(self.pd.DataFrame(rows, columns=['name', 'lat', 'lon', 'pop']))
            lat, lon = 34.5, -117.0
        elif kind == 'zones':
            cells = bytes(ch.draw(4) for _ in range(12))
            tif = 'z' + ''.join(map(str, cells)) + '.tif'

            def build():
                from PIL import Image
                b = io.BytesIO()
                Image.frombytes('L', (4, 3), cells).save(b, 'TIFF')
                fs.writefile(tif, b.getvalue())
                fs.writefile('zones.json', b'{"America/New_York": 0, "Asia/Tokyo": 1, "Europe/London": 2, "Pacific/Chatham": 3}')
                return self.timeutils.TimeConversion(
                    tiff=tif, raster_shape=(3, 4), resolution=(90.0, 60.0), timezone_coding='zones.json', extents={
                        'Upper Left': (-180.0, 90.0), 'Lower Left': (-180.0, -90.0), 'Upper Right': (180.0, 90.0),
                        'Lower Right': (180.0, -90.0)})
        else:
            build = lambda: self.timeutils.ElapsedTime()
        return dict(kind=kind, build=build, lat=lat, lon=lon, par=par)

    def rupture(self, kind, par):
        ev = dict(id='x', netid='us', network='', lat=par['lat'], lon=par['lon'], depth=par['edepth'], mag=par['mag'],
                  time=self.HT(2016, 1, 2, 3, 4, 5), locstring='l', mech=par['mech'])
        o = self.origin.Origin(ev)
        if kind == 'point':
            if par['region']:
                o._tectonic_region = par['region']
            return self.Point(o)
        n, z, w = par['n'], par['z'], par['w']
        dx, dy = par['step'] * math.sin(par['ang']), par['step'] * math.cos(par['ang'])
        x0 = [ev['lon'] + i * dx for i in range(n)]
        y0 = [ev['lat'] + i * dy for i in range(n)]
        x1 = [ev['lon'] + (i + 1) * dx for i in range(n)]
        y1 = [ev['lat'] + (i + 1) * dy for i in range(n)]
        if kind == 'quad':
            for i in range(n):      # traces drawn against the general direction
                if par['flip'] >> i & 1 and not par['groups']:
                    x0[i], y0[i], x1[i], y1[i] = x1[i], y1[i], x0[i], y0[i]
            return self.Quad.fromTrace(x0, y0, x1, y1, [z] * n, [w] * n, [par['dip']] * n, o,
                                       group_index=[0] * n if par['groups'] else None, reference='r')
        tx, ty = x0 + [x1[-1]], y0 + [y1[-1]]
        return self.Edge.fromArrays(tx, ty, [z + 0.7 + par['wave'] * i for i in range(n + 1)], [v + 0.03 for v in tx],
                                    [v - 0.01 for v in ty], [z + w + i for i in range(n + 1)], o, mesh_dx=par['mesh'], reference='r')

    def sites(self, ch, sp, shared):
        """Arrays one caller (or several) passes in."""
        np = self.np
        if shared and ch.chance(0.3):       # the same places at another depth
            la, lo, de = ch.pick(shared)
            return la, lo, de + ch.pick([0.7, 3.0])
        shape = ch.pick([(1,), (3,), (2, 2), (5,)])
        n = int(np.prod(shape))
        f = lambda c, s: np.array([c + s * (ch.draw(41) - 20) / 20.0 for _ in range(n)]).reshape(shape)
        out = [f(sp['lat'], 0.4), f(sp['lon'], 0.4) + ch.pick([0.0, 0.0, 0.0, 360.0]), f(0.0, 0.0) + ch.pick([0.0, 0.0, 1.5, -0.8])]
        how = ch.draw(8)
        if how == 1:
            out = [np.asfortranarray(a) for a in out]
        elif how == 2:
            out = [np.repeat(a, 2, axis=0)[::2] for a in out]
        for a in out:
            a.setflags(write=how != 3)      # as from a file opened for reading
        return tuple(out)

    def call(self, ch, sp, shared, focus):
        """(label, function of the object, arrays it is given)"""
        np = self.np
        k = sp['kind']
        if k in ('quad', 'edge', 'point'):
            if shared and ch.chance(0.5):
                la, lo, de = ch.pick(shared)
            else:
                la, lo, de = self.sites(ch, sp, shared)
                shared.append((la, lo, de))
            arrs = (la, lo, de)
            m = ch.weighted([(2, 'Rrup'), (2, 'Rjb'), (2, 'GC2'), (1, 'Rhyp'), (1, 'Repi'), (4, 'get_distance'), (1, 'context'),
                             (4, 'attrs'), (1, 'rctx'), (2, 'own')])
            m = focus.setdefault(k, m) if focus is not None else m
            if m in ('Rrup', 'Rjb', 'GC2', 'Rhyp', 'Repi'):
                return m, lambda r: getattr(r, 'compute' + m)(lo, la, de), arrs
            if m == 'get_distance':
                ms = ch.subset(['repi', 'rhypo', 'rjb', 'rrup', 'rx', 'ry', 'ry0', 'U', 'T', 'rvolc'], 0.3) or ['rrup']
                dx = ch.pick([1.0, 2.5, 4.0])
                return m, lambda r: self.distance.get_distance(ms, la, lo, de, r, dx=dx), arrs + (ms,)
            if m == 'context':
                gm = ch.pick([self.gmpes[0], self.gmpes[1], self.gmpes])
                return m, lambda r: self.context(self.distance.Distance(gm, lo, la, de, rupture=r)), arrs
            if m == 'rctx':
                return m, lambda r: r.getRuptureContext([]), ()
            if m == 'own' and k == 'quad':
                a, b = sp['lat'] + ch.draw(5) / 200.0, sp['lon'] + ch.draw(5) / 200.0
                w = ch.pick(['depth', 'slip', 'lens', 'widths', 'arrays', 'mesh', 'text', 'take', 'deps', 'vecs', 'asmesh', 'file',
                             'unit', 'dict'])
                w = focus.setdefault('own', w) if focus is not None else w
                if ch.chance(0.2):
                    return self.make(ch, sp)
                return 'own-' + w, {
                    'depth': lambda r: r.getDepthAtPoint(a, b),
                    'slip': lambda r: [self.utils.get_quad_slip(q, 30.0).getTuple() for q in r.getQuadrilaterals()],
                    'lens': lambda r: (r.getIndividualTopLengths(), r.getNumGroups(), r.getNumQuads()),
                    'widths': lambda r: r.getIndividualWidths(),
                    'arrays': lambda r: self.take(r.getRuptureAsArrays()),
                    'deps': lambda r: self.take([r.getDeps()]),
                    'vecs': lambda r: [(self.utils.is_quad(q)[0], self.utils.get_quad_normal(q).getTuple(),
                                        self.utils.get_quad_strike_vector(q).getTuple(), self.utils.get_quad_length(q),
                                        self.utils.get_quad_down_dip_vector(q).getTuple(), self.utils.get_quad_width(q),
                                        self.utils.get_vertical_vector(q).getTuple()) for q in r.getQuadrilaterals()],
                    'asmesh': lambda r: (lambda m: self.take([m.lons, m.lats, m.depths]))(r.getRuptureAsMesh()),
                    'file': self.written,
                    'unit': lambda r: [f(r.getStrike(), r.getDip(), 30.0).getTuple() for f in (
                        self.utils.get_local_unit_slip_vector, self.utils.get_local_unit_slip_vector_DS,
                        self.utils.get_local_unit_slip_vector_SS)],
                    'dict': lambda r: self.distance.get_distance(
                        ['rrup'], *self.three(r), self.factory.rupture_from_dict_and_origin(copy.deepcopy(r._geojson), r.getOrigin())),
                    'take': lambda r: self.take_quads(r.getQuadrilaterals()),
                    'mesh': lambda r: self.utils.get_quad_mesh(r.getQuadrilaterals()[0], 2.0),
                    'text': lambda r: [(q[0].x, q[2].y, self.utils.get_quad_dip(q)) for q in r.getQuadrilaterals()],
                }[w], ()
            g = ch.pick(['Length', 'Width', 'Area', 'Strike', 'Dip', 'DepthToTop', 'Quadrilaterals', 'Reference', 'Origin'])
            g = focus.setdefault('get', g) if focus is not None else g
            if g == 'Origin':
                return g, lambda r: (lambda h: (h.longitude, h.latitude, h.depth))(r.getOrigin().getHypo()), ()
            if ch.chance(0.2):
                return 'coords', lambda r: self.take((r.lats, r.lons, r.depths)), ()
            return g, lambda r: getattr(r, 'get' + g)(), ()
        if k == 'palette':
            fmt = ch.pick(['mlab', '255', 'hex', 'array', 'preset'])
            fmt = focus.setdefault(k, fmt) if focus is not None else fmt
            if fmt in ('mlab', 'array') and ch.chance(0.6):
                v = np.array([[0.5 + ch.draw(20) / 2.0 for _ in range(3)] for _ in range(2)])
                if ch.chance(0.2):
                    v[0][0] = np.nan
                return fmt, lambda p: p.getDataColor(v, fmt), (v,)
            x = ch.pick([0.5, 1.0, 2.7, 9.0, 50.0, 1e6])
            if fmt == 'preset':
                pre = ch.pick(['mmi', 'pop', 'shaketopo'])
                return 'preset', lambda p: self.ColorPalette.fromPreset(pre).getDataColor(x), ()
            if ch.chance(0.2):
                return 'range', lambda p: (p.vmin, p.vmax, p.cmap(0.3), self.ColorPalette.getPresets()), ()
            return fmt, lambda p: p.getDataColor(x, fmt if fmt != 'array' else 'mlab'), ()
        if k == 'cities':
            m = ch.pick(['bounds', 'radius', 'pop', 'name', 'chain', 'get', 'frame', 'arrays'])
            m = focus.setdefault(k, m) if focus is not None else m
            a, b = 34 + ch.draw(30) / 10.0, -118 + ch.draw(30) / 10.0
            rad = ch.pick([1.0, 40.0, 200.0])
            return 'city-' + m, {
                'bounds': lambda c: c.limitByBounds((b - 1, b + 1, a - 1, a + 1)).getDataFrame(),
                'radius': lambda c: c.limitByRadius(a, b, rad).getDataFrame(),
                'pop': lambda c: c.limitByPopulation(1000).getDataFrame(),
                'name': lambda c: c.limitByName('Angeles').getDataFrame(),
                'chain': lambda c: c.limitByRadius(a, b, 300.0).limitByPopulation(100).limitByBounds((b - 2, b + 2, a - 2, a + 2)).getDataFrame(),
                'get': lambda c: (c.getCities(), c.getBounds(), len(c), c.getColumns(), c.len(), str(c)),
                'frame': lambda c: self.scribble(c.getDataFrame()),
                'arrays': lambda c: self.take(c.getCities()),
            }[m], ()
        if k == 'zones':
            a, b = ch.draw(190) - 95.0, ch.draw(370) - 185.0
            how = ch.pick(['floor', 'ceil', 'round'])
            t = datetime.datetime(1990 + ch.draw(40), 1 + ch.draw(12), 1 + ch.draw(28), ch.draw(24))
            m = ch.pick(['code', 'local', 'utc', 'raster'])
            m = focus.setdefault(k, m) if focus is not None else m
            return 'zone-' + m, {
                'code': lambda z: z.get_timezone_code(a, b, how),
                'local': lambda z: str(z.to_localtime(t, a, b)),
                'utc': lambda z: str(z.to_utctime(t, a, b)),
                'raster': lambda z: z.read_tiff(),
            }[m], ()
        m = ch.pick(['roman', 'text', 'elapsed', 'elapsed', 'compass', 'ecef', 'vector', 'time', 'mech'])
        m = focus.setdefault(k, m) if focus is not None else m
        n = 1 + ch.draw(3999)
        v = np.array([1.0 + ch.draw(80), 2.0, 3.0 + ch.draw(9)])
        return m, {
            'roman': lambda _: self.text.dec_to_roman(min(n, 3999)),
            'text': lambda _: (self.text.commify(n * 12345), self.text.pop_round(n * 77), self.text.pop_round_short(n * 999),
                               self.text.dollar_round(n * 1e5, digits=1 + n % 3, mode=['short', 'long'][n % 2]),
                               self.text.round_to_nearest(n, 100), self.text.floor_to_nearest(n, 0.25),
                               self.text.ceil_to_nearest(n, 0.5), self.text.set_num_precision(n * 7.77, 1 + n % 3, 'float')),
            'elapsed': lambda e: e.getElapsedString(self.HT(2000, 1, 1), self.HT(2001 + n % 9, 1 + n % 12, 3, n % 24)),
            'compass': lambda _: (self.compass.get_compass_dir_azimuth(n % 360, resolution='meteorological'),
                                  self.compass.get_compass_dir(1.0, 2.0, 3.0 + n % 7, 1.0)),
            'ecef': lambda _: (self.ecef.latlon2ecef(v, v, v), self.ecef.ecef2latlon(v * 1e6, v * 1e6, v * 1e6)),
            'vector': lambda _: (lambda a, b: (a.cross(b).getTuple(), a.dot(b), a.norm().getTuple(), (a + b).mag(), a.distance(b)))(
                self.Vector(1.0, n, 3.0), self.Vector(2.0, -1.0, n)),
            'mech': lambda _: (lambda o: (o.setMechanism(['RS', 'NM', 'SS', 'ALL'][n % 4], rake=[None, 200.0, -300.0, 30.0][n // 4 % 4],
                                                                  dip=[None, 0, 45.5][n // 16 % 3]), o.dip, o.rake, o.mech))(
                self.origin.Origin(dict(id='x', netid='us', network='', lat=1.0, lon=2.0, depth=n / 99.0, mag=6.0, locstring='', mech='RS',
                                        time=self.HT(2016, 1, 2, 3, 4, 5)))),
            'time': lambda _: (self.HT(1 + n % 2000, 3, 1, 4).strftime('%Y-%m-%dT%H:%M:%S'), self.utils.rake_to_mech(float(n % 360) - 180)),
        }[m], (v,) if m == 'ecef' else ()

    def make(self, ch, sp):
        """A rupture made by one caller, from his arrays."""
        np = self.np
        n = 1 + ch.draw(3)
        arr = lambda lo, step: np.array([lo + step * i + ch.draw(5) / 100.0 for i in range(n)])
        if ch.chance(0.5):
            arrs = [arr(sp['lon'], 0.3), arr(sp['lat'], 0.3), arr(1.0, 0.5), arr(2.0, 0.0), arr(1.0, 0.0), arr(20.0, 3.0), arr(9.0, 1.0),
                    arr(40.0, 5.0), arr(50.0, 3.0)]
            f = lambda r: self.Quad.fromOrientation(*arrs, r.getOrigin())
        else:
            x, y, z = arr(sp['lon'], 0.1), arr(sp['lat'], 0.1), arr(0.0, 0.0) * 0
            arrs = [x, y, z, x + 0.1, y + 0.1, z, x + 0.12, y + 0.08, z + 10.0, x + 0.02, y - 0.02, z + 10.0]
            if ch.chance(0.5):
                arrs += [list(range(n))]
            g = dict(group_index=arrs[12]) if len(arrs) > 12 else {}
            f = lambda r: self.Quad.fromVertices(*arrs[:12], r.getOrigin(), **g)
        if ch.chance(0.3):
            for a in arrs:
                if isinstance(a, np.ndarray):
                    a.setflags(write=False)

        def do(r):
            q = f(r)
            return (q.getStrike(), q.getDip(), q.getLength(), q.getWidth(), self.take_quads(q.getQuadrilaterals()), q.lons,
                    q.computeRrup(arrs[0] + 0.2, arrs[1] - 0.1, arrs[2] * 0))
        return 'make', do, tuple(arrs)

    def context(self, d):
        """A caller that goes on to work on the context it was given."""
        c = d.getDistanceContext()
        out = {k: self.np.array(v) if isinstance(v, self.np.ndarray) else v for k, v in c.__dict__.items()}
        c.rjb[...] = -1.0
        if not self.same(self.norm(out), self.norm(d.getDistanceContext())):
            self.bad.append('distance context')
        return out

    @staticmethod
    def written(r):
        f = io.StringIO()
        r.writeTextFile(f)
        return f.getvalue()

    def three(self, r):
        np = self.np
        return np.array([r.lats[0] + 0.2]), np.array([r.lons[0] - 0.1]), np.array([0.0])

    def take(self, arrs):
        out = [self.np.array(a) for a in arrs]
        for a in arrs:
            if isinstance(a, self.np.ndarray):
                a[...] = 7.0
        return out

    def take_quads(self, quads):
        out = self.norm(quads)
        for q in quads:
            for p in q:
                p.depth += 1.0
        quads.pop()
        return out

    def scribble(self, df):
        """A caller that goes on to work on the copy it was given."""
        out = df.copy()
        df['mine'] = 1
        df['lat'] = 0.0
        df.drop(df.index[1:], inplace=True)
        return out

    # -- comparison --------------------------------------------------------
    def norm(self, x):
        np = self.np
        if isinstance(x, np.ndarray):
            return ('array', x.shape, [self.norm(v) for v in x.ravel().tolist()])
        if isinstance(x, self.pd.DataFrame):
            return ('frame', list(x.columns), list(x.index), [[self.norm(v) for v in r] for r in x.values.tolist()])
        if isinstance(x, dict):
            return ('dict', sorted((str(k), self.norm(v)) for k, v in x.items()))
        if isinstance(x, (list, tuple)):
            return ('seq', [self.norm(v) for v in x])
        if isinstance(x, (np.floating, np.integer)):
            return float(x)
        if hasattr(x, 'longitude'):
            return ('pt', [x.longitude, x.latitude, x.depth])
        if isinstance(x, (bool, int, float, str, complex)) or x is None:
            return x
        if type(x).__name__ in ('RuptureContext', 'DistancesContext'):
            return self.norm(x.__dict__)
        if isinstance(x, BaseException):
            return ('raised', type(x).__name__, str(x))
        return ('obj', type(x).__name__)

    def same(self, a, b):
        if isinstance(a, float) and isinstance(b, (int, float)):
            return a == b or (a != a and b != b) or abs(a - b) <= 1e-7 * abs(a) + 1e-9
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        return a == b

    def run(self, sim):
        ch = sim.ch
        sim.tick_cost = 0.0
        self.bad = []
        lines.PREEMPT[0] = 0
        specs = []
        for _ in range(ch.weighted([(3, 1), (4, 2), (1, 3)])):
            specs.append(self.spec(ch, specs[0] if specs and ch.chance(0.7) else None))
        twins = {s['kind'] for s in specs if [x['kind'] for x in specs].count(s['kind']) > 1}
        focus = {} if ch.chance(0.4) else None
        shared = [[] for _ in specs]
        nthr = ch.weighted([(3, 2), (2, 3), (1, 4), (1, 1)])
        progs = []
        for t in range(nthr):
            p = []
            for _ in range(ch.weighted([(4, 1), (3, 2), (1, 4)])):
                i = ch.draw(len(specs))
                label, fn, arrs = self.call(ch, specs[i], shared[i], focus)
                p.append(dict(i=i, label=label, fn=fn, arrs=arrs, before=[self.snap(a) for a in arrs]))
                if specs[i]['kind'] in twins and ch.chance(0.5):      # the same of its near-identical sibling
                    j = ch.pick([j for j, s in enumerate(specs) if j != i and s['kind'] == specs[i]['kind']])
                    p.append(dict(p[-1], i=j))
            progs.append(p)

        def outcome(fn):
            st, v = sim.run_one(fn)
            return self.norm(v) if st == 'ok' else ('raised', type(v).__name__, str(v))

        for p in progs:
            for c in p:
                self.bind()
                c['want'] = outcome(lambda: c['fn'](specs[c['i']]['build']()))
        self.bind()
        objs = [s['build']() for s in specs]

        def body(p):
            out = []
            for c in p:
                sim.log('CALL', specs[c['i']]['kind'], c['i'], c['label'])
                try:
                    v = c['raw'] = c['fn'](objs[c['i']])
                    out.append(self.norm(v))
                except Exception as e:
                    out.append(('raised', type(e).__name__, str(e)))
            return out

        lines.reset(2 ** (1 + ch.draw(9)))
        try:
            rs = sim.run_many([(f't{k}', lambda p=p: body(p)) for k, p in enumerate(progs)])
        finally:
            lines.PREEMPT[0] = 0
        sim.log('SCHEDULE', sim.switches, sim.sched_hash.hexdigest())
        seen = []
        for p, (st, val) in zip(progs, rs):
            if st != 'ok':
                raise Violation('unexpected-exception', describe(val) if isinstance(val, BaseException) else st)
            for c, got in zip(p, val):
                if got[0] == 'raised' if isinstance(got, tuple) else False:
                    sim.probe(f"raised:{specs[c['i']]['kind']}.{c['label']}:{got[1]}")
                seen.append((specs[c['i']]['kind'], c['label'], str(got)[:6] == "('rais"))
                self.check(c, got, specs, 'at the same time')
                if 'raw' in c:      # what was handed out stays what it was
                    self.check(c, self.norm(c['raw']), specs, 'when read later')
        # and once more, after all of it
        for p in progs:
            for c in p:
                self.check(c, outcome(lambda: c['fn'](objs[c['i']])), specs, 'afterwards')
        return dict(nontrivial=nthr > 1 and sim.switches > 0, sample=seen, state=seen)

    def snap(self, a):
        return (a.tobytes(), a.shape) if isinstance(a, self.np.ndarray) else repr(a)

    def check(self, c, got, specs, when):
        who = f"{specs[c['i']]['kind']}.{c['label']}"
        if self.bad:
            raise Violation('not-a-copy', self.bad[0])
        for a, b in zip(c['arrs'], c['before']):
            if self.snap(a) != b:
                raise Violation('input-changed', who)
        if not self.same(c['want'], got):
            raise Violation('different-result', f"{who} {when}: {str(got)[:150]} instead of {str(c['want'])[:150]}")


SCENARIOS = {'C25': C25}
