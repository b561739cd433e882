"""Storage seam of the HDF5 containers.

The containers run on the real h5py/HDF5 library and real files in the scratch
root.  Every h5py call that changes or reads the file is a yield point and may
be given a planned fault: an OSError before the operation, or after it has
already taken effect (an error at flush time).  Files outside the scratch root
are never opened for writing.
"""
import errno

from . import core, fs

CATS = {'h5.create': ['ENOSPC', 'EIO', 'late'], 'h5.group': ['ENOSPC', 'EIO', 'late'], 'h5.attr': ['ENOSPC', 'late'],
        'h5.link': ['EIO', 'late'], 'h5.delete': ['EIO', 'late'], 'h5.write': ['ENOSPC', 'late'], 'h5.read': ['EIO'],
        'h5.close': ['late', 'EIO'], 'h5.open': ['EIO']}
FILES = []
_done = []


def reset():
    for f in FILES:
        try:
            f.close()
        except Exception:
            pass
    FILES.clear()


def _wrap(cls, name, cat):
    orig = getattr(cls, name)

    def call(self, *a, **k):
        s = fs.sim_active()
        if s is None:
            return orig(self, *a, **k)
        s.point(cat)
        f = s.fault(cat)
        if f in ('ENOSPC', 'EIO'):
            n = getattr(errno, f)
            raise OSError(n, f'{name}: simulated {f}')
        r = orig(self, *a, **k)
        if f == 'late':
            raise OSError(errno.EIO, f'{name}: simulated error on writing back')
        return r
    call.__name__ = name
    setattr(cls, name, call)


def install():
    if _done:
        return
    _done.append(1)
    import h5py
    G, D, A, F = h5py.Group, h5py.Dataset, h5py.AttributeManager, h5py.File
    _wrap(G, 'create_dataset', 'h5.create')
    _wrap(G, 'create_group', 'h5.group')
    _wrap(G, '__setitem__', 'h5.link')
    _wrap(G, '__delitem__', 'h5.delete')
    _wrap(G, 'move', 'h5.link')
    _wrap(G, 'copy', 'h5.create')
    _wrap(A, '__setitem__', 'h5.attr')
    _wrap(A, 'modify', 'h5.attr')
    _wrap(A, '__getitem__', 'h5.read')
    _wrap(D, '__setitem__', 'h5.write')
    _wrap(D, '__getitem__', 'h5.read')
    _wrap(G, '__getitem__', 'h5.read')
    _wrap(G, '__iter__', 'h5.read')
    _wrap(F, 'close', 'h5.close')
    init = F.__init__

    def opened(self, name, mode='r', *a, **k):
        s = fs.sim_active()
        if s is None or isinstance(name, h5py._objects.ObjectID):
            return init(self, name, mode, *a, **k)
        s.point('h5.open')
        if isinstance(name, (str, bytes)) or hasattr(name, '__fspath__'):
            if mode != 'r' and not fs.under(name):
                s.fail('outside-scratch', f'opens {name!r} with mode {mode}')
        else:
            s.unsupported('h5py file object')
        if s.fault('h5.open'):
            raise OSError(errno.EIO, 'unable to open file (simulated)')
        init(self, name, mode, *a, **k)
        FILES.append(self)
    F.__init__ = opened
