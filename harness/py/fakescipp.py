"""Stand-in for the parts of `scipp.core` that scipp/coords uses, so that the
unmodified Python code can run without the compiled extension.  Variables are
symbolic: a term, dimension labels, and whether they are binned.  Metadata
dicts, shallow copies and bins behave like the real ones as far as ownership
is concerned (shallow copies have their own dicts and alignment flags; the
events of a binned array live in a buffer that copies share)."""
import sys
import types
import os


class DimensionError(RuntimeError):
    pass


class VariableError(RuntimeError):
    pass


class FakeGap(AttributeError):
    """The code under test uses something this stand-in does not have."""


class _Gap:
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise FakeGap(f'{type(self).__name__}.{name}')


class _Bins(_Gap):
    def __init__(self, owner):
        self._o = owner

    @property
    def coords(self):
        return self._o.data.buffer.coords_for(self._o)

    @property
    def constituents(self):
        d = self._o.data
        b = Variable('begin', d.dims, idx=d.idx)
        return {'begin': b, 'end': b, 'dim': 'event', 'data': d.buffer.shallow()}

    @property
    def aligned(self):
        return self._o.aligned


class Buffer(_Gap):
    def __init__(self, coords):
        self.coords = coords

    def shallow(self):
        return Buffer(self.coords.clone())

    def deep(self):
        b = self.shallow()
        for v in b.coords._d.values():
            v[0] = v[0].copy()
        return b

    def coords_for(self, owner):
        self.coords.idx = owner.data.idx
        return self.coords


class Variable(_Gap):
    def __init__(self, term, dims, binned=False, idx='dense'):
        self.term, self.dims, self.binned, self.idx = term, tuple(dims), binned, idx

    @property
    def bins(self):
        return self if self.binned else None

    def copy(self, deep=True):
        return Variable(self.term, self.dims, self.binned)  # new contiguous indices

    def rename(self, m):
        return Variable(self.term, [m.get(d, d) for d in self.dims], self.binned, self.idx)

    rename_dims = rename


class Coords(_Gap):
    def __init__(self):
        self._d = {}
        self.idx = None  # bin indices which binned coords must have

    def clone(self):
        c = Coords()
        c._d = {k: list(v) for k, v in self._d.items()}
        return c

    def __contains__(self, k):
        return k in self._d

    def __getitem__(self, k):
        if k not in self._d:
            raise KeyError(k)
        return self._d[k][0]

    def get(self, k, default=None):
        return self._d[k][0] if k in self._d else default

    def __setitem__(self, k, v):
        if not isinstance(v, Variable):
            raise TypeError(f'coord {k} is {v!r}')
        if self.idx is not None and v.idx != self.idx:
            raise VariableError('mismatching bin indices')
        self._d[k] = [v, True]

    def set_aligned(self, k, aligned):
        if k not in self._d:
            raise KeyError(k)
        self._d[k][1] = bool(aligned)

    def is_aligned(self, k):
        return self._d[k][1]

    def pop(self, k, *default):
        if k in self._d:
            return self._d.pop(k)[0]
        if default:
            return default[0]
        raise KeyError(k)

    def __delitem__(self, k):
        del self._d[k]

    def __iter__(self):
        return iter(list(self._d))

    def __len__(self):
        return len(self._d)

    def keys(self):
        return list(self._d)

    def items(self):
        return [(k, v[0]) for k, v in self._d.items()]

    def update(self, other):
        for k, v in dict(other).items():
            self[k] = v

    def snapshot(self):
        return {k: (v[0].term, v[0].dims, v[1]) for k, v in self._d.items()}


class Data(_Gap):
    def __init__(self, dims, buffer=None, idx='dense'):
        self.dims, self.buffer, self.idx = tuple(dims), buffer, idx

    @property
    def bins(self):
        return None if self.buffer is None else _Bins(types.SimpleNamespace(data=self))

    def copy(self, deep=True):
        return Data(self.dims, None if self.buffer is None else self.buffer.deep())


class DataArray(_Gap):
    def __init__(self, data, coords=None, masks=None, name=''):
        self.data = data
        self.coords = Coords()
        for k, v in (coords.items() if coords is not None else ()):
            self.coords[k] = v

    @property
    def dims(self):
        return self.data.dims

    @property
    def bins(self):
        return None if self.data.buffer is None else _Bins(self)

    def copy(self, deep=True):
        da = DataArray.__new__(DataArray)
        da.data = Data(self.data.dims, self.data.buffer, self.data.idx)
        if deep:
            da.data = self.data.copy()
        da.coords = self.coords.clone()
        return da

    def rename_dims(self, m=None, **kw):
        m = {**(m or {}), **kw}
        new = [m.get(d, d) for d in self.dims]
        if len(set(new)) != len(new):
            raise DimensionError('duplicate dims')
        da = self.copy(deep=False)
        da.data.dims = tuple(new)
        for v in da.coords._d.values():
            v[0] = v[0].rename(m)
        if da.data.buffer is not None:
            da.data.buffer = da.data.buffer.shallow()
            for v in da.data.buffer.coords._d.values():
                v[0] = v[0].rename(m)
        return da

    def assign_coords(self, c=None, **kw):
        da = self.copy(deep=False)
        da.coords.update({**(c or {}), **kw})
        return da

    def drop_coords(self, *names):
        da = self.copy(deep=False)
        for n in [n for x in names for n in ([x] if isinstance(x, str) else x)]:
            da.coords.pop(n)
        return da


class Dataset(_Gap):
    def __init__(self, data=None, coords=None):
        self._items = dict(data or {})
        self._coords = coords
        self.on_item = None

    def __len__(self):
        return len(self._items)

    def __iter__(self):
        return iter(self._items)

    def keys(self):
        return list(self._items)

    def items(self):
        return [(k, self[k]) for k in self._items]

    def values(self):
        return [self[k] for k in self._items]

    def __getitem__(self, k):
        if self.on_item:
            self.on_item(k)
        return self._items[k]

    @property
    def coords(self):
        return self._coords if not self._items else next(iter(self._items.values())).coords

    @property
    def sizes(self):
        return {d: 2 for d in self.dims}

    @property
    def dims(self):
        return self._dims if not self._items else next(iter(self._items.values())).dims


def empty(*, sizes=None, dims=None, **kw):
    return Data(tuple(sizes) if sizes is not None else tuple(dims or ()))


def bins(*, data, begin=None, end=None, dim=None, **kw):
    return Data(begin.dims, data, begin.idx)


class _Core(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        t = type(name, (), {})
        setattr(self, name, t)
        return t


def install(src):
    """Makes `import scipp.coords...` load the real modules below `src`."""
    def pkg(name, path, cls=types.ModuleType):
        m = cls(name)
        m.__path__ = [path]
        sys.modules[name] = m
        return m
    root = pkg('scipp', src)
    core = pkg('scipp.core', os.path.join(src, 'core', 'none'), _Core)
    g = globals()
    for n in ('DimensionError', 'VariableError', 'Variable', 'DataArray', 'Dataset', 'Coords', 'empty', 'bins'):
        setattr(core, n, g[n])
    root.core = core
    pkg('scipp.utils', os.path.join(src, 'utils'))
    log = types.ModuleType('scipp.logging')
    import logging
    log.get_logger = lambda: logging.getLogger('scipp')
    sys.modules['scipp.logging'] = log
    root.logging = log
    for n in ('DimensionError', 'VariableError', 'Variable', 'DataArray', 'Dataset'):
        setattr(root, n, g[n])
