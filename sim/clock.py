"""Clock seam: time.* and datetime read the simulator's virtual clock."""
import datetime as _dtmod
import time as _time

from . import core


class O:
    pass


def _sim():
    s = core.CURRENT
    if s is None or not s.active or (s.cur is None):
        return None
    return s


def wall(s):
    t = s.now + s.skew
    r = getattr(s, 'clock_res', 0)
    return t - t % r if r else t


def install(patch_datetime=True):
    for n in ('time', 'time_ns', 'sleep', 'monotonic', 'monotonic_ns', 'perf_counter',
              'gmtime', 'localtime', 'strftime', 'ctime', 'asctime'):
        setattr(O, n, getattr(_time, n))

    def t_time():
        s = _sim()
        return O.time() if s is None else wall(s)

    def t_time_ns():
        s = _sim()
        return O.time_ns() if s is None else int(wall(s) * 1e9)

    def t_sleep(x):
        s = _sim()
        if s is None:
            return O.sleep(x)
        s.sleep(x)

    def t_mono():
        s = _sim()
        return O.monotonic() if s is None else s.now - s.start + 1000.0

    def t_mono_ns():
        s = _sim()
        return O.monotonic_ns() if s is None else int((s.now - s.start + 1000.0) * 1e9)

    def t_perf():
        s = _sim()
        return O.perf_counter() if s is None else s.now - s.start + 1000.0

    def t_gm(x=None):
        s = _sim()
        return O.gmtime(x) if s is None or x is not None else O.gmtime(wall(s))

    def t_loc(x=None):
        s = _sim()
        return O.localtime(x) if s is None or x is not None else O.localtime(wall(s))

    def t_strftime(fmt, t=None):
        s = _sim()
        if t is not None:
            return O.strftime(fmt, t)
        return O.strftime(fmt) if s is None else O.strftime(fmt, O.localtime(wall(s)))

    _time.time, _time.time_ns, _time.sleep = t_time, t_time_ns, t_sleep
    _time.monotonic, _time.monotonic_ns, _time.perf_counter = t_mono, t_mono_ns, t_perf
    _time.gmtime, _time.localtime, _time.strftime = t_gm, t_loc, t_strftime

    if not patch_datetime:
        return
    real = _dtmod.datetime
    O.datetime = real

    class Meta(type):
        def __instancecheck__(cls, obj):
            if cls is SimDatetime:
                return isinstance(obj, real)
            return type.__instancecheck__(cls, obj)

        def __subclasscheck__(cls, sub):
            if cls is SimDatetime:
                return issubclass(sub, real)
            return type.__subclasscheck__(cls, sub)

    class SimDatetime(real, metaclass=Meta):
        @classmethod
        def utcnow(cls):
            s = _sim()
            if s is None:
                return real.utcnow()
            b = real.fromtimestamp(wall(s), _dtmod.timezone.utc)
            return cls(b.year, b.month, b.day, b.hour, b.minute, b.second, b.microsecond)

        @classmethod
        def now(cls, tz=None):
            s = _sim()
            if s is None:
                return real.now(tz)
            if tz is not None:
                return cls.fromtimestamp(wall(s), tz)
            # naive local time of a host that is not on UTC
            off = getattr(s, 'utc_offset', 0)
            b = real.fromtimestamp(wall(s) + off, _dtmod.timezone.utc)
            return cls(b.year, b.month, b.day, b.hour, b.minute, b.second, b.microsecond)

        @classmethod
        def today(cls):
            return cls.now()

    SimDatetime.__name__ = 'datetime'
    SimDatetime.__qualname__ = 'datetime'
    SimDatetime.__module__ = 'datetime'
    _dtmod.datetime = SimDatetime
