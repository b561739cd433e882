"""C20-C23: HDF5 containers against a dictionary model, with crashes after
close, interleaved containers, unstorable values and storage errors."""
import copy
import datetime
import json
import os

from sim import fs, h5
from sim.core import Violation
from . import work
from .base import Scenario, describe


class Opaque:
    """A value nothing can store; same text in every process."""
    def __repr__(self):
        return '<opaque>'


WRITES = ['h5.create', 'h5.group', 'h5.attr', 'h5.link', 'h5.write']
NAMES = ['n', 'config', 'info.json', 'rupture', 'a b', 'na\u00efve', 'x-1', 'SA(1.0)', 'dictionaries', 'mean', 'k2', 'A',
         'arrays', 'time_columns', '$x', 'back\\', "q'", 'imts', 'list_1', 'string_1', '0', 'zz', 'a_b', 'N', 'n ', 'config2', 'con']
GROUPS = [(), (), ('g',), ('g', 'h'), ('g2',), ('h',), ('g', 'h', 'i'), ('n',), ('imts', 'Larger'),
          ('a b',), ('a_b',), ('G',), ('g', 'H'), ('g', 'h', 'i', 'j', 'k'), ('g ',), ('g', ' h'), ('z', 'h', 'i', 'j', 'k', 'l', 'm')]
TEXTS = ['', 'text', 'na\u00efve \u6771\u4eac', ' lead', 'trail ', 'two\nlines\r\n', '"q"', '{"a": 1}', '[1]', 'null', '\t', '\\', 'x' * 300,
         '\U0001f30b', '0', 'y' * 70000]
META = ['units', 'nx', 'xmin', 'digits', 'na me', 'gr\u00f6\u00dfe', 'NAME', 'a.b']


def text(ch):
    t = ch.pick(TEXTS) if ch.chance(0.6) else ch.data(6).hex()
    return t


def jval(ch, depth=2):
    k = ch.draw(10)
    if k == 0:
        return ch.int_log(30)
    if k == 1:
        return text(ch)
    if k == 2:
        return ch.pick([0.0, -1.5, 1e-300, 1.7976931348623157e308, 0.1, 3.141592653589793, -0.0, 1e16])
    if k == 3:
        return ch.chance(0.5)
    if k == 4:
        return None
    if k == 5:
        return -ch.int_log(62)
    if depth and k in (6, 7):
        return [jval(ch, depth - 1) for _ in range(ch.draw(4))]
    if depth:
        return jdict(ch, depth - 1)
    return ch.pick(['yes', 2 ** 70, 'nan', 'a/b'])


def jdict(ch, depth=2):
    return {ch.pick(['a', 'b', 'key', '', 'na\u00efve', 'x y', 'type', '1', '/', ' lead', 'trail ', 'Key', 'z', '_internal', 'x_y']): jval(ch, depth) for _ in range(ch.draw(4))}


def array(ch, np, scalar=True):
    k = ch.draw(9)
    shape = ch.pick([(3,), (1,), (4, 3), (0,), (2, 3, 2), (1, 5), (40, 30), ()] if scalar else [(3,), (1,), (4, 3), (7, 2), (2, 3, 2)])
    rng = np.random.RandomState(ch.draw(1 << 16))
    n = int(np.prod(shape))
    if k <= 2:
        a = rng.standard_normal(n)
        if ch.chance(0.3) and n:
            a[0] = np.nan
            a[-1] = np.inf
    elif k == 3:
        a = rng.standard_normal(n).astype('f4')
    elif k == 4:
        a = rng.randint(-10 ** 6, 10 ** 6, n)
    elif k == 5:
        a = rng.randint(0, 255, n).astype('u1')
    elif k == 6:
        a = rng.randint(0, 2, n).astype(bool)
    elif k == 7:
        a = np.array([b'id%d' % rng.randint(0, 10 ** 5) for _ in range(n)], dtype='S8')
    else:
        a = rng.randint(-9, 9, n).astype('>i4')
    a = a.reshape(shape)
    if a.ndim == 2 and ch.chance(0.25):
        a = a.T if ch.chance(0.5) else a[::-1]
    return a


def metadata(ch, np):
    if ch.chance(0.3):
        return None
    m = {}
    for _ in range(ch.draw(4)):
        k = ch.pick(META)
        v = ch.draw(9)
        m[k] = (ch.int_log(31) if v == 0 else ch.pick([0.5, -118.25, 1e-9, float('nan')]) if v == 1 else ch.pick(TEXTS[:8] + TEXTS[9:]) if v in (2, 3)
                else ch.chance(0.5) if v == 4 else [1.5, 2.5] if v == 5 else np.arange(1 + ch.draw(4)) if v == 6
                else -7 if v == 7 else 'degrees')
    return m


TEXTLIKE = ['001', '12', '1.50', '2020-01-01', 'NaN', 'null', 'True', '', '1e5', 'x', 'na\u00efve', 'a b', 'q"q', "it's", '/', '-7']
FCOLS = ['lat', 'lon', 'depth', 'label', 'n', 'ok', 'origin', 'second', 'whole', 'code', 'date', 'updated_at', 'timestamp', '1', 'modified']


def stamp(rng, pd):
    t = pd.Timestamp(1990 + int(rng.randint(0, 50)), 1 + int(rng.randint(0, 12)), 1 + int(rng.randint(0, 28)),
                     int(rng.randint(0, 24)), int(rng.randint(0, 60)), int(rng.randint(0, 60)), int(rng.randint(0, 10 ** 6)))
    return t + pd.Timedelta(int(rng.randint(0, 1000)), 'ns') if rng.randint(0, 3) == 0 else t


def frame(ch, np, pd):
    n = 1 + ch.draw(12)
    rng = np.random.RandomState(ch.draw(1 << 16))
    d = {}
    for c in ch.subset(FCOLS, 0.3) or ['lat']:
        if c in ('lat', 'lon', 'depth'):
            d[c] = rng.randint(-6400, 6400, n) / 64.0 if ch.chance(0.5) else rng.standard_normal(n) * 10.0 ** ch.pick([0, 2, -9, 300, -300])
            if ch.chance(0.2) and n > 1:
                d[c][0] = np.nan
            if c == 'depth' and ch.chance(0.05):
                d[c][-1] = np.inf
            if c == 'lon' and ch.chance(0.2):
                with np.errstate(over='ignore', under='ignore'):
                    d[c] = d[c].astype('f4')
            if c == 'depth' and ch.chance(0.1):         # a text among the numbers
                d[c] = [float(v) for v in rng.standard_normal(n)]
                d[c][ch.draw(n)] = 'deep'
        elif c == 'label':
            d[c] = ['s' + ch.pick(TEXTLIKE) + str(i) for i in range(n)]
        elif c == 'whole':
            d[c] = rng.randint(-50, 50, n).astype('f8')
        elif c == 'code':
            d[c] = [ch.pick(TEXTLIKE) for _ in range(n)] if ch.chance(0.5) else [ch.pick(TEXTLIKE[:4])] * n
        elif c in ('n', '1'):
            d[c] = rng.randint(-1000, 10 ** 9, n)
        elif c in ('date', 'updated_at', 'timestamp', 'modified'):
            k = ch.draw(3)
            d[c] = (rng.randint(0, 2 * 10 ** 9, n) if k == 0 else [ch.pick(['2020-01-01', '20200101', 'noon', '7']) for _ in range(n)] if k == 1
                    else [stamp(rng, pd) for _ in range(n)])
        elif c == 'ok':
            d[c] = [bool(x) for x in rng.randint(0, 2, n)]
        else:
            d[c] = [stamp(rng, pd) for _ in range(n)]
            if c == 'second' and ch.chance(0.4):        # with a time zone, to the microsecond
                z = ch.pick(['UTC', 'Asia/Tokyo'])
                d[c] = [t.floor('us').tz_localize(z) for t in d[c]]
    f = pd.DataFrame(d)
    k = ch.draw(8)
    if k == 1:
        f.index = [int(i) for i in rng.permutation(n)]
    elif k == 2:
        f.index = [str(i) for i in rng.permutation(n)]
    elif k == 3:
        f.index = ['%03d' % (i * 7 % 1000) for i in rng.permutation(n)]
    elif k == 4:
        f.index = [5 * int(i) - 20 for i in rng.permutation(n)]
    elif k == 5:
        try:
            f = f.sort_values(f.columns[0], kind='stable', ascending=False)
        except TypeError:                               # texts and numbers
            pass
    elif k == 6:
        f.index = [float(v) * 10.0 ** ch.pick([0, -9, 200]) for v in rng.standard_normal(n)]
    elif k == 7:
        ts = [stamp(rng, pd) for _ in range(n)]
        if ch.chance(0.4):
            z = ch.pick(['UTC', 'Asia/Tokyo'])
            ts = [t.floor('us').tz_localize(z) for t in ts]
        f.index = pd.DatetimeIndex(ts)
    return f


class Refused(Exception):
    pass


class Eq:
    def __init__(self, np, pd):
        self.np, self.pd = np, pd

    def json(self, a, b):
        # also the order of the keys, as collections.OrderedDict is a documented value
        return json.dumps(a) == json.dumps(b) and type(a) is type(b)

    def array(self, a, b):
        np = self.np
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind == 'S':
            if b.dtype.kind in 'OSU':
                return [x for x in a.ravel()] == [x.encode() if isinstance(x, str) else x for x in b.ravel()]
            return False
        if a.dtype != b.dtype and not (a.ndim == 0 and a.dtype.newbyteorder('=') == b.dtype.newbyteorder('=')):
            return False
        return bool(np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'))

    def meta(self, a, b):
        a = a or {}
        if set(a) != set(b):
            return False
        for k in a:
            x, y = a[k], b[k]
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    return False
                continue
            x, y = self.np.asarray(x), self.np.asarray(y)
            if x.shape != y.shape or x.dtype.kind != y.dtype.kind:
                return False
            if not self.np.array_equal(x, y, equal_nan=x.dtype.kind == 'f'):
                return False
        return True

    def frame(self, a, b):
        if list(a.columns) != list(b.columns) or len(a) != len(b):
            return False
        if a.index.tolist() != b.index.tolist():        # labels, their types and the order of the rows
            return False
        for c in a.columns:
            x, y = a[c], b[c]
            if x.dtype.kind == 'M':
                if y.dtype.kind != 'M' or x.tolist() != y.tolist():
                    return False
            elif x.dtype.kind == 'f':
                if y.dtype.kind != 'f' or not self.np.array_equal(x.values, y.values, equal_nan=True):
                    return False
            elif [(type(i), i) for i in x.tolist()] != [(type(i), i) for i in y.tolist()]:
                return False
        return True

    def __call__(self, kind, a, b):
        try:
            if kind == 'array':
                return self.array(a[0], b[0]) and self.meta(a[1], b[1])
            if kind == 'dataframe':
                return self.frame(a, b)
            if kind == 'string':
                return a == b and isinstance(b, str)
            return self.json(a, b)
        except (TypeError, ValueError, KeyError, IndexError, AttributeError):
            return False


class Box:
    """One container file with its model."""

    def __init__(self, path, obj):
        self.path, self.obj = path, obj
        self.m = {}             # (kind, path tuple) -> value
        self.unknown = set()
        self.groups = set()     # (kind, prefix) ever used as group
        self.dtype = None
        self.imts = {}          # (comp, imt) -> (kind, values)
        self.imt_unknown = set()
        self.gen = 0


class HdfBase(Scenario):
    datetime = False
    preload = ('numpy', 'pandas', 'h5py')
    faults = False
    FLAT = {'dict': 'Dictionary', 'list': 'List', 'array': 'Array', 'string': 'String', 'dataframe': 'DataFrame'}
    TREE = {'dict': 'Dictionary', 'array': 'Array', 'string': 'String'}
    PLURAL = {'dict': 'getDictionaries', 'list': 'getLists', 'array': 'getArrays', 'string': 'getStrings',
              'dataframe': 'getDataFrames'}

    def setup(self):
        import numpy
        import pandas
        self.np, self.pd = numpy, pandas
        self.seams()
        h5.install()
        from impactutils.io.container import HDFContainer
        from impactutils.io import smcontainers
        self.flatcls, self.treecls = HDFContainer, smcontainers.HDFContainerBase
        self.smcls = smcontainers.ShakeMapOutputContainer
        self.eq = Eq(numpy, pandas)

    def cleanup(self):
        h5.reset()

    # -- adapter -------------------------------------------------------------
    def kinds(self, b):
        return self.FLAT if isinstance(b.obj, self.flatcls) else self.TREE

    def api(self, b, verb, kind, path):
        f = getattr(b.obj, verb + (self.FLAT[kind]))
        if isinstance(b.obj, self.flatcls):
            return lambda *a, **k: f(path[-1], *a, **k)
        def call(*a, **k):
            groups = list(path[:-1])
            try:
                return f(groups, path[-1], *a, **k)
            finally:
                # the caller goes on to use its list of groups
                if groups != list(path[:-1]):
                    raise Violation('argument-changed', f'{verb} {kind} {path}: groups are now {groups}')
        return call

    def set(self, b, kind, path, val, comp=True):
        f = self.api(b, 'set', kind, path)
        if kind == 'array':
            f(val[0], val[1], comp) if self.pos else f(val[0], metadata=val[1], compression=comp)
        else:
            f(val)

    def value(self, ch, kind):
        np = self.np
        if kind == 'dict':
            return jdict(ch)
        if kind == 'list':
            return [jval(ch, 1) for _ in range(ch.draw(5))]
        if kind == 'string':
            return text(ch)
        if kind == 'array':
            return array(ch, np), metadata(ch, np)
        return frame(ch, np, self.pd)

    def bad(self, ch, kind):
        """A value that cannot be stored (value, compression)."""
        np, pd = self.np, self.pd
        if kind in ('dict', 'list'):
            loop = {}
            loop['x'] = loop
            if kind == 'dict' and ch.chance(0.15):
                return {'ok': 1, ch.pick([(1, 2), b'k', frozenset()]): 3}, True
            v = ch.pick([Opaque(), {1, 2}, b'bytes', np.arange(3), datetime.datetime(2020, 1, 1), loop, 1j, np.float32(1)])
            return ({'ok': 1, 'bad': v} if ch.chance(0.7) else {'a': {'b': [1, v]}}) if kind == 'dict' else [1, v], True
        if kind == 'string':
            return ch.pick(['a\0b', '\0', 'end\0', None, 5, b'bytes', '\udc80', ['x']]), True
        if kind == 'array':
            ok = array(ch, np, False)
            v = ch.draw(9)
            if v == 0:
                return (np.array(['a', 'b']), None), True
            if v == 1:
                return (np.array([Opaque(), 1], dtype=object), None), True
            if v == 2:
                return (np.array(3.5), {'a': 1}), True
            if v == 3:
                return (None, None), True
            if v == 4:
                return (np.array(['2020-01-01'], dtype='datetime64[s]'), {'a': 1}), False
            m = {'units': 'cm/s', 'n': 3}
            m[ch.pick(META)] = ch.pick([None, {'a': 1}, 'nul\0', [1, 'a'], Opaque(), datetime.datetime(2020, 1, 1), 2 ** 80])
            if ch.chance(0.2):
                m = 7
            return (ok, m), ch.chance(0.5)
        return ch.pick([None, 5, [1, 2], {'a': [1]}, pd.DataFrame({pd.Timestamp(2020, 1, 1): [pd.Timestamp(2020, 1, 2)]})]), True

    def altered(self, kind, val, got):
        """A value of doubtful kind was accepted: is it another one now?"""
        np = self.np
        if kind == 'dataframe':
            return not isinstance(val, self.pd.DataFrame)

        def same(a, b):
            if isinstance(a, dict):
                return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
            if isinstance(a, (list, tuple, np.ndarray)):
                return isinstance(b, (list, tuple, np.ndarray)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
            if isinstance(a, np.bytes_):
                a = bytes(a)
            if isinstance(b, bytes) and isinstance(a, str):
                b = b.decode()
            return bool(a == b)
        try:
            if kind == 'array':
                if val[0] is None or isinstance(val[1], int):
                    return True
                return not (np.shape(val[0]) == np.shape(got[0]) and same(np.asarray(val[0]).ravel(), np.asarray(got[0]).ravel())
                            and set(val[1] or {}) == set(got[1]) and all(same(v, got[1][k]) for k, v in (val[1] or {}).items()))
            return not same(val, got)
        except Exception:
            return True

    # -- model ---------------------------------------------------------------
    def related(self, b, kind, path):
        """'above': an entry is a proper prefix; 'below': path is a live group; 'ghost': emptied group."""
        for (k, p) in b.m:
            if k == kind and p != path:
                if path[:len(p)] == p:
                    return 'above'
                if p[:len(path)] == path:
                    return 'below'
        if (kind, path) in b.groups:
            return 'ghost'
        return None

    def touches_unknown(self, b, kind, path):
        return any(k == kind and (p[:len(path)] == path or path[:len(p)] == p) for k, p in b.unknown)

    def listing(self, b, kind, got, why):
        want = {p: v for (k, p), v in b.m.items() if k == kind}
        hid = {p for (k, p) in b.unknown if k == kind}
        names = {'/'.join(p) for p in want}
        for kk, (g, arrs) in self.hidden(b).items():
            if kk == kind:
                names |= arrs
        hidn = {'/'.join(p) for p in hid}
        extra = [x for x in got if x not in names and not any(x == h or x.startswith(h + '/') or h.startswith(x + '/') for h in hidn)
                 and not self.tolerated(b, kind, x)]
        miss = names - set(got)
        if extra or miss or len(set(got)) != len(got):
            raise Violation('wrong-listing', f'{why}: {kind}: unexpected {sorted(extra)[:3]} missing {sorted(miss)[:3]}')
        return want

    def verify(self, sim, b, why, kinds=None):
        """All getters and listings against the model."""
        for kind in (kinds or self.kinds(b)):
            try:
                got = getattr(b.obj, self.PLURAL[kind])()
            except Exception as e:
                raise Violation('listing-failed', f'{why}: {kind}: {describe(e)}')
            want = self.listing(b, kind, got, why)
            for p, v in want.items():
                try:
                    x = self.api(b, 'get', kind, p)()
                except Exception as e:
                    raise Violation('entry-lost', f'{why}: {kind} {p}: {describe(e)}')
                if not self.eq(kind, v, x):
                    raise Violation('wrong-value', f'{why}: {kind} {p}: stored {str(v)[:120]!r} got {str(x)[:120]!r}')

    def hidden(self, b):
        return {}

    def tolerated(self, b, kind, x):
        return False

    # -- history ---------------------------------------------------------------
    def open_box(self, sim, ch, i, cls):
        path = os.path.join(os.getcwd(), f'c{i}.h5')
        f0 = dict(sim.fired)
        if ch.chance(0.1):
            st, v = sim.run_one(lambda: cls.load(path))
            if st == 'ok' or os.path.exists(path) and sim.fired == f0:
                raise Violation('missing-file-loaded', 'load() of a file that does not exist')
        if ch.chance(0.15):
            # what an existing file holds is gone
            old = self.older(sim, ch, path, cls)
        st, obj = sim.run_one(lambda: cls.create(path))
        if st != 'ok':
            if sim.fired:
                return None
            raise Violation('unexpected-exception', describe(obj))
        b = Box(path, obj)
        self.verify(sim, b, 'after create')
        return b

    def older(self, sim, ch, path, cls):
        if ch.chance(0.4):
            return fs.writefile(path, ch.pick([b'', b'not an HDF file', b'\x89HDF\r\n\x1a\n' + b'x' * 100]))
        st, obj = sim.run_one(lambda: cls.create(path))
        if st != 'ok':
            return
        b = Box(path, obj)
        for kind in self.kinds(b):
            if kind in ('dict', 'string'):
                sim.run_one(lambda: self.api(b, 'set', kind, ('n',))({'old': 1} if kind == 'dict' else 'old'))
        sim.run_one(b.obj.close)

    def reopen(self, sim, ch, b, cls):
        """Close; maybe crash; load.  False if the box is finished."""
        f0 = dict(sim.fired)
        st, v = sim.run_one(b.obj.close)
        if sim.fired != f0:
            if st == 'ok':
                raise Violation('error-swallowed', 'close() returned although the file could not be written')
            return False
        if st != 'ok':
            raise Violation('unexpected-exception', 'close: ' + describe(v))
        data = fs.readfile(b.path)
        if ch.chance(0.3):
            old = b.obj
            st, v = sim.run_one(lambda: old.getArrays())
            if st == 'ok' and v:
                raise Violation('usable-after-close', repr(v)[:100])
        crash = ch.chance(0.5)
        if crash:
            sim.note_fault('crash:after-close')
            b.gen += 1
            b.path = b.path.rsplit('.', 1)[0] + f'r{b.gen}.h5'
            fs.writefile(b.path, data)
            f0 = dict(sim.fired)
        f0 = dict(sim.fired)
        st, v = sim.run_one(lambda: cls.load(b.path))
        if st != 'ok':
            for _ in range(6):
                if st == 'ok' or sim.fired == f0:
                    break
                f0 = dict(sim.fired)
                st, v = sim.run_one(lambda: cls.load(b.path))
            if st != 'ok':
                raise Violation('reload-failed', describe(v))
        b.obj = v
        sim.log('REOPEN', crash, len(b.m))
        self.verify(sim, b, 'after crash and reload' if crash else 'after reload')
        return True

    def mutate(self, kind, v):
        """The caller goes on to change what it handed in or got."""
        try:
            if kind in ('dict',):
                v['mutated'] = [1]
                for x in v.values():
                    if isinstance(x, list):
                        x.append('mutated')
                    elif isinstance(x, dict):
                        x['mutated'] = 1
            elif kind == 'list':
                for x in v:
                    if isinstance(x, (list,)):
                        x.append('mutated')
                v.append('mutated')
            elif kind == 'array':
                a, m = v
                if isinstance(m, dict):
                    m['mutated'] = 1
                if getattr(a, 'flags', None) is not None and a.flags.writeable:
                    a[...] = a.dtype.type(1)
            elif kind == 'dataframe':
                v.iloc[0, 0] = v.iloc[-1, -1]
                v.drop(v.index[1:], inplace=True)
        except Exception:
            pass

    def path(self, ch, b):
        nm = ch.pick(NAMES[:4]) if ch.chance(0.6) else ch.pick(NAMES)
        if isinstance(b.obj, self.flatcls):
            return (nm,)
        return ch.pick(GROUPS) + (nm,)

    def arm(self, sim, ch, cats):
        """Sometimes let one of the next storage operations fail."""
        reads = cats == ['h5.read']
        if self.faults and ch.chance(0.5 if reads else 0.25):
            c = ch.pick(cats)
            sim.plan.setdefault(c, {})[sim.counts.get(c, 0) + (0 if reads and ch.chance(0.6) else ch.draw(4))] = ch.pick(h5.CATS[c])
            return True

    def disarm(self, sim, armed):
        if armed:
            for c in h5.CATS:
                n = sim.counts.get(c, 0)
                for k in [k for k in sim.plan.get(c, {}) if n <= k < n + 4]:
                    del sim.plan[c][k]

    def step(self, sim, ch, b):
        kinds = sorted(self.kinds(b))
        kind = ch.pick(kinds)
        op = ch.weighted([(6, 'set'), (3, 'get'), (3, 'drop')] + ([(4, 'bad'), (3, 'list')] if self.faults else [(1, 'bad')]))
        if op == 'list':
            f0 = dict(sim.fired)
            armed = self.arm(sim, ch, ['h5.read'])
            st, got = sim.run_one(getattr(b.obj, self.PLURAL[kind]))
            self.disarm(sim, armed)
            sim.log('LIST', kind, st)
            if st == 'ok':
                self.listing(b, kind, got, 'listing')
            elif sim.fired == f0:
                raise Violation('listing-failed', f'{kind}: {describe(got)}')
            return
        mine = sorted(p for k, p in b.m if k == kind)
        if op in ('get', 'drop') and mine and ch.chance(0.7):
            path = ch.pick(mine)
            if len(path) > 1 and ch.chance(0.08):       # the name of a group
                path = path[:1 + ch.draw(len(path) - 1)]
        elif op in ('set', 'bad') and mine and ch.chance(0.2):
            path = ch.pick(mine)
        else:
            path = self.path(ch, b)
        if self.touches_unknown(b, kind, path):
            return
        key = (kind, path)
        rel = self.related(b, kind, path)
        f0 = dict(sim.fired)
        exists = key in b.m
        self.pos = ch.chance(0.5)
        if op == 'set' or op == 'bad':
            if op == 'set':
                val = self.value(ch, kind)
                comp = ch.chance(0.7) and not (kind == 'array' and val[0].ndim == 0)
            else:
                val, comp = self.bad(ch, kind)
            keep = copy.deepcopy(val) if op == 'set' else None
            armed = self.arm(sim, ch, WRITES)
            st, v = sim.run_one(lambda: self.set(b, kind, path, val, comp))
            self.disarm(sim, armed)
            sim.log('OP', op, kind, path, st, type(v).__name__ if st != 'ok' else '')
            if op == 'set' and kind != 'string' and not self.same_input(kind, val, keep):
                raise Violation('input-changed', f'{kind} {path}')
            for i in range(1, len(path)):
                b.groups.add((kind, path[:i]))
            fault = sim.fired != f0
            if st == 'ok':
                if exists or rel in ('above', 'below'):
                    raise Violation('duplicate-accepted', f'{op} {kind} {path} although it is taken')
                if op == 'bad':
                    if not fault:
                        st, got = sim.run_one(lambda: self.api(b, 'get', kind, path)())
                        if st != 'ok' or self.altered(kind, val, got):
                            raise Violation('unstorable-accepted', f'{kind} {path}: {str(val)[:100]} gives {str(got)[:100]}')
                        st = 'ok'
                    b.unknown.add(key)
                else:
                    b.m[key] = keep
                    self.mutate(kind, val)
            elif fault:
                if not exists and rel not in ('above', 'below'):
                    b.unknown.add(key)
            elif op == 'set' and not exists and rel is None:
                raise Violation('store-refused', f'{kind} {path} {str(keep)[:100]}: {describe(v)}')
            if st != 'ok' or fault or ch.chance(0.3):
                self.verify(sim, b, f'after {op} {kind} {path} {st}')
            elif op == 'set':
                self.verify(sim, b, f'after {op} {kind} {path}', [kind])
        elif op == 'get':
            armed = self.arm(sim, ch, ['h5.read'])
            st, v = sim.run_one(lambda: self.api(b, 'get', kind, path)())
            self.disarm(sim, armed)
            sim.log('OP', op, kind, path, st)
            if exists:
                if st == 'ok':
                    if not self.eq(kind, b.m[key], v):
                        raise Violation('wrong-value', f'get {kind} {path}: stored {str(b.m[key])[:120]!r} got {str(v)[:120]!r}')
                    self.mutate(kind, v)
                elif sim.fired == f0:
                    raise Violation('entry-lost', f'get {kind} {path}: {describe(v)}')
            elif st == 'ok':
                raise Violation('missing-returned', f'get {kind} {path} gave {str(v)[:100]!r}')
        else:
            armed = self.arm(sim, ch, ['h5.delete', 'h5.delete', 'h5.read'])
            st, v = sim.run_one(lambda: self.api(b, 'drop', kind, path)())
            self.disarm(sim, armed)
            sim.log('OP', op, kind, path, st)
            fault = sim.fired != f0
            if st == 'ok':
                if not exists:
                    raise Violation('missing-dropped', f'drop {kind} {path} returned')
                del b.m[key]
            elif fault:
                b.m.pop(key, None)
                b.unknown.add(key)
            elif exists:
                raise Violation('drop-refused', f'{kind} {path}: {describe(v)}')
            self.verify(sim, b, f'after drop {kind} {path} {st}')

    def same_input(self, kind, val, keep):
        return self.eq(kind, keep, (val[0], val[1] or {}) if kind == 'array' else val)

    def classes(self, ch):
        raise NotImplementedError

    def run(self, sim):
        ch = sim.ch
        h5.reset()
        self.pos = False
        if self.faults:
            sim.plan_faults(h5.CATS, p_none=0.45, maxn=2)
        boxes, clss = [], []
        for i in range(ch.weighted([(3, 1), (1, 2)])):
            cls = self.classes(ch)
            b = self.open_box(sim, ch, i, cls)
            if b is not None:
                boxes.append(b)
                b.cls = cls
        n = 3 + ch.draw(12)
        for k in range(n):
            if not boxes:
                break
            b = ch.pick(boxes)
            if k and ch.chance(0.12):
                if not self.reopen(sim, ch, b, b.cls):
                    boxes.remove(b)
                continue
            self.step(sim, ch, b)
        sim.plan = {}
        tot = sum(len(b.m) + len(b.imts) for b in boxes)
        for b in boxes:
            self.verify(sim, b, 'at the end')
            self.reopen(sim, ch, b, b.cls)
        return dict(nontrivial=tot > 0, sample=[[f'{k} {"/".join(p)}' for k, p in sorted(b.m)] + sorted(map(str, b.imts)) for b in boxes],
                    state=[sorted({k for k, p in b.m} | {str(len(b.m))}) for b in boxes])


class C20(HdfBase):
    def classes(self, ch):
        return self.flatcls


class C21(HdfBase):
    def classes(self, ch):
        return self.treecls


IMTS = ['PGA', 'MMI', 'SA(1.0)', 'PG', 'mean', 'PSA 0.3', 'PGAx', 'pga']
COMPS = ['Larger', 'rotd50', 'GREATER_OF_TWO_HORIZONTAL', 'imts']
SINGLES = {'config': ('setConfig', 'getConfig', 'config'), 'rupture': ('setRuptureDict', 'getRuptureDict', 'rupture'),
           'station': ('setStationDict', 'getStationDict', 'stations_dict'),
           'history': ('setVersionHistory', 'getVersionHistory', 'version_history'),
           'metadata': ('setMetadata', 'getMetadata', 'info.json')}


class ShakeMap(HdfBase):
    """ShakeMapOutputContainer histories."""

    def classes(self, ch):
        return self.smcls

    def hidden(self, b):
        if not isinstance(b.obj, self.smcls):
            return {}
        arrs = set()
        for (c, i), (kind, v) in b.imts.items():
            arrs |= {f'imts/{c}/{i}/{k}' for k in v if not k.endswith('_metadata')}
        return {'array': (None, arrs)}

    def tolerated(self, b, kind, x):
        if not isinstance(b.obj, self.smcls):
            return False
        if kind == 'dict':
            # how the data type is recorded is not part of the contract, and the singles have their own check
            return x == 'file_data_type' or x in [s[2] for s in SINGLES.values()]
        if kind == 'array' and x.startswith('imts/'):
            return any(x.startswith(f'imts/{c}/{i}') or f'imts/{c}/{i}'.startswith(x) for c, i in b.imt_unknown)
        return False

    def path(self, ch, b):
        p = super().path(ch, b)
        if isinstance(b.obj, self.smcls) and (p[0] in ('imts', 'file_data_type') or p[0] in [s[2] for s in SINGLES.values()]):
            return ('vs30',) + p[1:]
        return p

    def values(self, ch, kind):
        np = self.np
        n = 1 + ch.draw(6)
        rng = np.random.RandomState(ch.draw(1 << 16))
        shape = (n,) if kind == 'points' or ch.chance(0.3) else (n, 1 + ch.draw(4))
        v = {'mean': rng.standard_normal(shape), 'std': rng.standard_normal(shape),
             'mean_metadata': metadata(ch, np), 'std_metadata': metadata(ch, np)}
        if ch.chance(0.3):
            v['mean'].flat[0] = np.nan
        if kind == 'points':
            v['lons'] = rng.uniform(-180, 360, n)
            v['lats'] = rng.uniform(-90, 90, n)
            v['ids'] = np.array([b'ST%d' % rng.randint(0, 9999) for _ in range(n)], dtype='S10')
        return v

    def call_imt(self, b, kind, imt, comp, v):
        if kind == 'grid':
            return b.obj.setIMTGrids(imt, v['mean'], v['mean_metadata'], v['std'], v['std_metadata'], comp)
        return b.obj.setIMTArrays(imt, v['lons'], v['lats'], v['ids'], v['mean'], v['mean_metadata'], v['std'],
                                  v['std_metadata'], comp)

    def same_imt(self, v, got):
        if not isinstance(got, dict) or set(got) != set(v):
            return False
        return all(self.eq.meta(v[k], got[k]) if k.endswith('_metadata') else self.eq.array(v[k], got[k]) for k in v)

    def verify(self, sim, b, why, kinds=None):
        super().verify(sim, b, why, kinds)
        if not isinstance(b.obj, self.smcls):
            return
        try:
            dt = b.obj.getDataType()
            pairs = b.obj.getIMTs()
            comps = b.obj.getComponents()
        except Exception as e:
            raise Violation('listing-failed', f'{why}: {describe(e)}')
        if dt != b.dtype:
            raise Violation('wrong-data-type', f'{why}: {dt!r} instead of {b.dtype!r}')
        want = {f'{c}/{i}' for c, i in b.imts}
        unk = {f'{c}/{i}' for c, i in b.imt_unknown}
        if len(set(pairs)) != len(pairs) or set(pairs) - unk != want:
            raise Violation('wrong-listing', f'{why}: measures {sorted(pairs)} instead of {sorted(want)}')
        if kinds is not None and sim.ch.chance(0.6):
            return
        wc, uc = {c for c, i in b.imts}, {c for c, i in b.imt_unknown}
        if len(set(comps)) != len(comps) or not wc <= set(comps) <= wc | uc:
            raise Violation('wrong-listing', f'{why}: components {sorted(comps)} instead of {sorted(wc)}')
        for c in wc:
            got = b.obj.getIMTs(c)
            w = {i for cc, i in b.imts if cc == c}
            if set(got) - {i for cc, i in b.imt_unknown if cc == c} != w or len(set(got)) != len(got):
                raise Violation('wrong-listing', f'{why}: measures of {c}: {sorted(got)} instead of {sorted(w)}')
        for i in sorted({i for c, i in b.imts} | {sim.ch.pick(IMTS)}):
            got = b.obj.getComponents(i)
            w = {c for c, ii in b.imts if ii == i}
            if set(got) - {c for c, ii in b.imt_unknown if ii == i} != w or len(set(got)) != len(got):
                raise Violation('wrong-listing', f'{why}: components of {i}: {sorted(got)} instead of {sorted(w)}')
        for (c, i), (kind, v) in b.imts.items():
            get, other = (b.obj.getIMTGrids, b.obj.getIMTArrays) if kind == 'grid' else (b.obj.getIMTArrays, b.obj.getIMTGrids)
            try:
                got = get(i, c)
            except Exception as e:
                raise Violation('entry-lost', f'{why}: {c}/{i}: {describe(e)}')
            if not self.same_imt(v, got):
                raise Violation('wrong-value', f'{why}: {c}/{i}: stored {str(v)[:150]} got {str(got)[:150]}')
            try:
                other(i, c)
            except Exception:
                continue
            raise Violation('wrong-kind-returned', f'{why}: {c}/{i}')
        for s, (_, getter, key) in SINGLES.items():
            if ('single', (s,)) in b.unknown:
                continue
            try:
                got = getattr(b.obj, getter)()
            except Exception as e:
                got = e
            if ('single', (s,)) in b.m:
                if isinstance(got, Exception):
                    raise Violation('entry-lost', f'{why}: {s}: {describe(got)}')
                if not self.eq.json(b.m['single', (s,)], got):
                    raise Violation('wrong-value', f'{why}: {s}: set {str(b.m["single", (s,)])[:120]} got {str(got)[:120]}')
            elif not isinstance(got, Exception) and not (s == 'history' and got == {}):
                raise Violation('missing-returned', f'{why}: {s} gave {str(got)[:100]}')

    def step(self, sim, ch, b):
        if not isinstance(b.obj, self.smcls):
            return super().step(sim, ch, b)
        what = ch.weighted([(6, 'imt'), (4, 'single'), (2, 'generic'), (2, 'dropimt'), (5 if self.faults else 2, 'get')])
        if what == 'generic':
            return super().step(sim, ch, b)
        return getattr(self, what)(sim, ch, b)

    def imt(self, sim, ch, b):
        np = self.np
        kind = (b.dtype if b.dtype and ch.chance(0.75) else ch.pick(['grid', 'points']))
        imt, comp = ch.pick(IMTS[:3]) if ch.chance(0.6) else ch.pick(IMTS), ch.pick(COMPS[:2]) if ch.chance(0.7) else ch.pick(COMPS)
        if (comp, imt) in b.imt_unknown:
            return
        v = self.values(ch, kind)
        bad = ch.chance(0.35 if self.faults else 0.1)
        if bad:
            k = ch.draw(8)
            if k == 0:
                v[ch.pick(['mean_metadata', 'std_metadata'])] = {'a': 1, 'bad': ch.pick([None, {'x': 1}, 'nul\0', Opaque()])}
            elif k == 1:
                v['std'] = np.array(['a'] * v['std'].size).reshape(v['std'].shape)
            elif k == 2:
                v['std'] = None
            elif k == 3 and kind == 'points':
                v[ch.pick(['lons', 'lats', 'ids', 'std', 'mean'])] = np.zeros(v['mean'].size + 1)
            elif k == 4 and kind == 'points':
                v['ids'] = np.array(['x'] * v['mean'].size)
            elif k == 5:
                v['mean'] = None
            elif k == 6 and kind == 'points':
                x = ch.pick(['lons', 'lats', 'ids', 'std', 'mean'])
                v[x] = v[x].reshape(-1, 1)
            else:
                v['mean'] = np.array([Opaque()] * v['mean'].size, dtype=object).reshape(v['mean'].shape)
        keep = copy.deepcopy(v)
        f0 = dict(sim.fired)
        exists = (comp, imt) in b.imts
        armed = self.arm(sim, ch, WRITES)
        st, r = sim.run_one(lambda: self.call_imt(b, kind, imt, comp, v))
        self.disarm(sim, armed)
        fault = sim.fired != f0
        sim.log('IMT', kind, comp, imt, 'bad' if bad else '', st, type(r).__name__ if st != 'ok' else '')
        wrong = b.dtype is not None and b.dtype != kind
        if st == 'ok':
            if wrong:
                raise Violation('other-kind-accepted', f'{kind} layer in a {b.dtype} file')
            if exists:
                raise Violation('duplicate-accepted', f'{comp}/{imt}')
            if bad:
                if v['std'] is None or v['mean'] is None:
                    raise Violation('unstorable-accepted', f'{comp}/{imt} {str(v)[:100]}')
                if kind == 'points' and len({v[x].shape for x in ('lons', 'lats', 'ids', 'mean', 'std')}) > 1:
                    raise Violation('mismatch-accepted', f'{comp}/{imt} {[(x, v[x].shape) for x in ("lons", "lats", "ids", "mean", "std")]}')
                if not fault:
                    fn = b.obj.getIMTGrids if kind == 'grid' else b.obj.getIMTArrays
                    st, got = sim.run_one(lambda: fn(imt, comp))
                    if st != 'ok' or any(self.altered('array', (v[x], v.get(x + '_metadata')), (got[x], got.get(x + '_metadata', {})))
                                         for x in v if not x.endswith('_metadata')):
                        raise Violation('unstorable-accepted', f'{comp}/{imt} {str(v)[:100]} gives {str(got)[:100]}')
                b.imt_unknown.add((comp, imt))
            else:
                b.imts[comp, imt] = (kind, keep)
                v['mean'][...] = 0
                for k in ('mean_metadata', 'std_metadata'):
                    if v[k]:
                        v[k]['mutated'] = 1
            b.dtype = kind
        elif fault:
            if not exists:
                b.imt_unknown.add((comp, imt))
            if b.dtype is None:
                plan, sim.plan = sim.plan, {}
                st2, d = sim.run_one(b.obj.getDataType)
                sim.plan = plan
                if st2 == 'ok' and d in (None, kind):
                    b.dtype = d
        elif not (wrong or exists or bad):
            raise Violation('store-refused', f'{kind} {comp}/{imt}: {describe(r)}')
        self.verify(sim, b, f'after {kind} {comp}/{imt} {st}', ['array'] if st == 'ok' else None)

    def dropimt(self, sim, ch, b):
        imt = ch.pick(IMTS) if ch.chance(0.3) or not b.imts else ch.pick(sorted(b.imts))[1]
        if any(i == imt for c, i in b.imt_unknown):
            return
        f0 = dict(sim.fired)
        mine = [k for k in b.imts if k[1] == imt]
        armed = self.arm(sim, ch, ['h5.delete', 'h5.delete', 'h5.read'])
        st, r = sim.run_one(lambda: b.obj.dropIMT(imt))
        self.disarm(sim, armed)
        sim.log('DROPIMT', imt, len(mine), st)
        if st == 'ok':
            for k in mine:
                del b.imts[k]
        elif sim.fired != f0:
            for k in mine:
                del b.imts[k]
                b.imt_unknown.add(k)
        elif mine:
            raise Violation('drop-refused', f'{imt}: {describe(r)}')
        self.verify(sim, b, f'after drop of {imt} {st}')

    def single(self, sim, ch, b):
        s = ch.pick(sorted(SINGLES))
        setter, getter, key = SINGLES[s]
        if ('single', (s,)) in b.unknown:
            return
        bad = ch.chance(0.4 if self.faults else 0.1)
        if bad:
            v, _ = self.bad(ch, 'dict')
            if s in ('rupture', 'station') and ch.chance(0.5):
                v = ch.pick([None, [1], 'text', 5])
        else:
            v = jdict(ch)
        keep = copy.deepcopy(v) if not bad else None
        f0 = dict(sim.fired)
        armed = self.arm(sim, ch, WRITES + ['h5.delete', 'h5.read'])
        st, r = sim.run_one(lambda: getattr(b.obj, setter)(v))
        self.disarm(sim, armed)
        fault = sim.fired != f0
        sim.log('SINGLE', s, 'bad' if bad else '', st)
        k = ('single', (s,))
        if st == 'ok':
            if bad:
                if s in ('rupture', 'station') and not isinstance(v, dict):
                    raise Violation('wrong-type-accepted', f'{s}: {v!r}')
                if not fault:
                    st, got = sim.run_one(getattr(b.obj, getter))
                    if st != 'ok' or self.altered('dict', v, got):
                        raise Violation('unstorable-accepted', f'{s}: {str(v)[:100]} gives {str(got)[:100]}')
                b.m.pop(k, None)
                b.unknown.add(k)
            else:
                b.m[k] = keep
                self.mutate('dict', v)
        elif fault:
            b.m.pop(k, None)
            b.unknown.add(k)
        elif not bad:
            raise Violation('store-refused', f'{s}: {describe(r)}')
        self.verify(sim, b, f'after {s} {"(unstorable) " if bad else ""}{st}', ['dict'] if st == 'ok' else None)

    def get(self, sim, ch, b):
        what = ch.weighted([(3, 'imt'), (2, 'single'), (1, 'type'), (1, 'lists')])
        if what != 'imt':
            return self.look(sim, ch, b, what)
        if not b.imts:
            kind = ch.pick(['grid', 'points'])
            fn = b.obj.getIMTGrids if kind == 'grid' else b.obj.getIMTArrays
            st, r = sim.run_one(lambda: fn(ch.pick(IMTS), 'Larger'))
            if st == 'ok' and not b.imt_unknown:
                raise Violation('missing-returned', str(r)[:100])
            return
        c, i = ch.pick(sorted(b.imts))
        kind, v = b.imts[c, i]
        fn = b.obj.getIMTGrids if kind == 'grid' else b.obj.getIMTArrays
        f0 = dict(sim.fired)
        armed = self.arm(sim, ch, ['h5.read'])
        st, r = sim.run_one(lambda: fn(i, c))
        self.disarm(sim, armed)
        if st != 'ok':
            if sim.fired == f0:
                raise Violation('entry-lost', f'{c}/{i}: {describe(r)}')
            return
        if not self.same_imt(v, r):
            raise Violation('wrong-value', f'{c}/{i}: stored {str(v)[:150]} got {str(r)[:150]}')
        r['mean'][...] = 0
        r['mean_metadata']['mutated'] = 1

    def look(self, sim, ch, b, what):
        """Reads that may meet a storage error: the truth or an error."""
        have = sorted(p[0] for k, p in b.m if k == 'single')
        s, imt, comp = ch.pick(have if have and ch.chance(0.8) else sorted(SINGLES)), ch.pick(IMTS[:3]), ch.pick(COMPS[:2])
        name = {'single': SINGLES[s][1], 'type': 'getDataType'}.get(what) or ch.pick(['getIMTs', 'getComponents'])
        arg = ch.pick([None, comp if name == 'getIMTs' else imt]) if what == 'lists' else None
        if arg is not None and not any(arg in k for k in b.imts):
            arg = None
        f0 = dict(sim.fired)
        fn = getattr(b.obj, name)
        armed = self.arm(sim, ch, ['h5.read'])
        st, got = sim.run_one(fn if arg is None else lambda: fn(arg))
        self.disarm(sim, armed)
        fault = sim.fired != f0
        sim.log('LOOK', name, arg, st)
        if what == 'single':
            k = ('single', (s,))
            if k in b.unknown:
                return
            if st == 'ok':
                if k in b.m:
                    if not self.eq.json(b.m[k], got):
                        raise Violation('wrong-value', f'{s}: set {str(b.m[k])[:120]} got {str(got)[:120]}')
                elif not (s == 'history' and got == {}):
                    raise Violation('missing-returned', f'{s} gave {str(got)[:100]}')
            elif k in b.m and not fault:
                raise Violation('entry-lost', f'{s}: {describe(got)}')
            return
        if st != 'ok':
            if not fault:
                raise Violation('listing-failed', f'{name}: {describe(got)}')
            return
        if what == 'type':
            if got != b.dtype:
                raise Violation('wrong-data-type', f'{got!r} instead of {b.dtype!r}')
            return

        def of(keys):
            if name == 'getIMTs':
                return {i if arg else f'{c}/{i}' for c, i in keys if arg in (None, c)}
            return {c for c, i in keys if arg in (None, i)}
        want, unk = of(b.imts), of(b.imt_unknown)
        if len(set(got)) != len(got) or not want <= set(got) <= want | unk:
            raise Violation('wrong-listing', f'{name}({arg or ""}) gave {sorted(got)} instead of {sorted(want)}')


class C23(ShakeMap):
    pass


class C22(ShakeMap):
    faults = True

    def classes(self, ch):
        return ch.pick([self.smcls, self.treecls, self.flatcls])


SCENARIOS = {'C20': C20, 'C21': C21, 'C22': C22, 'C23': C23}
