"""Snapshots, deep comparison and digests of the values crossing the public boundary."""
import hashlib

import numpy as np
import pandas as pd


class Snap:
    """Plain copy of the public state of an object of the package."""

    def __init__(self, kind, **kw):
        self.__dict__.update(kw)
        self._kind = kind

    def get(self, name, default=None):
        return self.__dict__.get(name, default)


CASC = ('p01', 'p10', 'pxx', 'wxx', 'threshold', 'percentile')
STATS = ('temp', 'wind', 'precip', 'hum', 'glob')


def _kind(x):
    for c in type(x).__mro__:
        if c.__name__ in ('Station', 'StationStatistics', 'CascadeStatistics') and c.__module__.startswith('melodist'):
            return c.__name__
    return None


def snap(x):
    if isinstance(x, (pd.DataFrame, pd.Series)):
        c = x.copy(deep=True)
        c.index = x.index.copy()
        if isinstance(x, pd.DataFrame):
            c.columns = x.columns.copy()
        return c
    if isinstance(x, pd.Index):
        return x.copy()
    if isinstance(x, np.ndarray):
        return x.copy()
    k = _kind(x)
    if k == 'CascadeStatistics':
        return Snap(k, **{n: snap(getattr(x, n)) for n in CASC})
    if k == 'StationStatistics':
        return Snap(k, data=snap(x.data), **{n: snap(dict(getattr(x, n))) for n in STATS})
    if k == 'Station':
        return Snap(k, id=x.id, name=x.name, lon=x.lon, lat=x.lat, timezone=x.timezone,
                    data_daily=snap(x.data_daily), data_disagg=snap(x.data_disagg),
                    sun_times=snap(x.sun_times), statistics=snap(x.statistics))
    if isinstance(x, dict):
        return {a: snap(b) for a, b in x.items()}
    if isinstance(x, list):
        return [snap(a) for a in x]
    if isinstance(x, tuple):
        return tuple(snap(a) for a in x)
    return x


def index_seconds(idx):
    """Time stamps as integer microseconds, whatever the resolution of the index."""
    return pd.DatetimeIndex(idx).values.astype('datetime64[us]').astype('int64')


def _same_array(a, b, tol=0.0):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        for u, v in zip(a.ravel(), b.ravel()):
            if u is v:
                continue
            try:
                if u != u and v != v:
                    continue
            except Exception:
                pass
            if not u == v:
                return False
        return True
    if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
        if tol:
            return bool(np.all((np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol * (1 + np.abs(a))) | (a == b)))
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))


def diff(a, b, path='', tol=0.0, names=True):
    """Returns None if both snapshots are the same, else a text naming the first difference."""
    if isinstance(a, Snap) or isinstance(b, Snap):
        if not (isinstance(a, Snap) and isinstance(b, Snap)):
            return '%s: %s vs %s' % (path, type(a).__name__, type(b).__name__)
        return diff(a.__dict__, b.__dict__, path, tol, names)
    if isinstance(a, (pd.DataFrame, pd.Series)):
        if type(a) is not type(b):
            return '%s: %s vs %s' % (path, type(a).__name__, type(b).__name__)
        if len(a.index) != len(b.index) or not a.index.equals(b.index):
            return '%s: index differs' % path
        if names and list(a.index.names) != list(b.index.names):
            return '%s: index name %r vs %r' % (path, list(a.index.names), list(b.index.names))
        if isinstance(a, pd.DataFrame):
            if list(a.columns) != list(b.columns):
                return '%s: columns %r vs %r' % (path, list(a.columns), list(b.columns))
            if names and list(a.columns.names) != list(b.columns.names):
                return '%s: columns name differs' % path
            for i, c in enumerate(a.columns):
                if not _same_array(a.iloc[:, i].to_numpy(), b.iloc[:, i].to_numpy(), tol):
                    return '%s: values of column %r differ' % (path, c)
            return None
        return None if _same_array(a.to_numpy(), b.to_numpy(), tol) else '%s: values differ' % path
    if isinstance(a, pd.Index):
        if not isinstance(b, pd.Index) or not a.equals(b) or (names and list(a.names) != list(b.names)):
            return '%s: index differs' % path
        return None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return None if _same_array(a, b, tol) else '%s: array differs' % path
    if isinstance(a, dict):
        if not isinstance(b, dict) or list(map(str, a)) != list(map(str, b)):
            return '%s: keys differ' % path
        for k in a:
            d = diff(a[k], b[k], '%s.%s' % (path, k), tol, names)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return '%s: length differs' % path
        for i, (u, v) in enumerate(zip(a, b)):
            d = diff(u, v, '%s[%d]' % (path, i), tol, names)
            if d:
                return d
        return None
    if a is b:
        return None
    try:
        if a != a and b != b:
            return None
        if tol and isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return None if abs(a - b) <= tol * (1 + abs(a)) else '%s: %r vs %r' % (path, a, b)
        return None if bool(a == b) else '%s: %r vs %r' % (path, a, b)
    except Exception:
        return '%s: not comparable' % path


def _feed(h, x):
    if isinstance(x, Snap):
        h.update(b'S' + x._kind.encode())
        _feed(h, {k: v for k, v in x.__dict__.items() if k != '_kind'})
    elif isinstance(x, pd.DataFrame):
        h.update(b'F')
        _feed(h, x.index)
        for i, c in enumerate(x.columns):
            h.update(repr(c).encode())
            _feed(h, x.iloc[:, i].to_numpy())
    elif isinstance(x, pd.Series):
        h.update(b's')
        _feed(h, x.index)
        _feed(h, x.to_numpy())
    elif isinstance(x, pd.DatetimeIndex):
        h.update(b'I' + index_seconds(x).tobytes())
    elif isinstance(x, pd.Index):
        h.update(b'i' + repr(list(x)).encode())
    elif isinstance(x, np.ndarray):
        h.update(b'A' + repr(x.shape).encode())
        h.update(repr(x.tolist()).encode() if x.dtype == object else np.ascontiguousarray(x).tobytes())
    elif isinstance(x, dict):
        h.update(b'D')
        for k in x:
            h.update(repr(k).encode())
            _feed(h, x[k])
    elif isinstance(x, (list, tuple)):
        h.update(b'L%d' % len(x))
        for a in x:
            _feed(h, a)
    else:
        k = _kind(x)
        if k:
            _feed(h, snap(x))
        else:
            h.update(repr(x).encode())


def digest(x):
    h = hashlib.blake2b(digest_size=10)
    _feed(h, x)
    return h.hexdigest()
