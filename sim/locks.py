"""Lock seam: locks that the code under test creates block in the simulator.

A real lock held across a yield point would stop every simulated thread.
Locks made by other code (standard library, third party) are never held across
a yield point of the repository and stay real.
"""
import sys
import threading

from . import core

PREFIX = None


class O:
    Lock = threading.Lock
    RLock = threading.RLock


class SimLock:
    """Lock or RLock; outside a simulation there is one thread only."""

    def __init__(self, reentrant):
        self._re = reentrant
        self._owner = None
        self._n = 0

    def _me(self):
        s = core.CURRENT
        if s is None or not s.active or s.cur is None:
            return None, 'main'
        return s, s.cur

    def acquire(self, blocking=True, timeout=-1):
        s, me = self._me()
        if s is not None and s.multi:
            s.point('lock')
        free = lambda: self._owner is None or (self._re and self._owner is me)
        if not free():
            if not blocking:
                return False
            if s is None:
                raise RuntimeError('deadlock: lock is held')
            if not s.block(free, timeout=None if timeout is None or timeout < 0 else timeout, what='lock'):
                return False
        self._owner = me
        self._n += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._n -= 1
        if self._n == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        raise TypeError('cannot pickle lock objects')

    def __reduce__(self):
        raise TypeError('cannot pickle lock objects')


def install(prefix):
    global PREFIX
    PREFIX = prefix.rstrip('/') + '/'

    def make(reentrant, real):
        def factory(*a, **kw):
            f = sys._getframe(1)
            if f.f_code.co_filename.startswith(PREFIX):
                return SimLock(reentrant)
            return real(*a, **kw)
        return factory

    threading.Lock = make(False, O.Lock)
    threading.RLock = make(True, O.RLock)
