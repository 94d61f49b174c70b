"""Exact, comparable description of pandas/numpy/melodist objects."""
import numpy as np
import pandas as pd


def snap(v):
    if isinstance(v, pd.DataFrame):
        return ('frame', [snap(c) for c in v.columns], list(map(str, v.columns.names)), snap(v.index),
                [str(t) for t in v.dtypes], [snap(v.iloc[:, k].to_numpy()) for k in range(v.shape[1])],
                repr(v.attrs))
    if isinstance(v, pd.Series):
        return ('series', str(v.name), snap(v.index), str(v.dtype), snap(v.to_numpy()), repr(v.attrs))
    if isinstance(v, pd.DatetimeIndex):
        return ('dates', str(v.name), str(v.freq), v.as_unit('ns').asi8.tobytes())
    if isinstance(v, pd.Index):
        return ('index', [str(n) for n in v.names], repr(list(v)))
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ('objects', repr(v.tolist()))
        return ('array', v.shape, str(v.dtype), v.tobytes())
    if isinstance(v, dict):
        return ('dict', [(repr(k), snap(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [snap(x) for x in v])
    if type(v).__name__ == 'CascadeStatistics':
        return ('cascade', snap({k: v.__dict__[k] for k in sorted(v.__dict__)}))
    if type(v).__name__ == 'StationStatistics':
        return ('statistics', snap(v.data), [(k, snap(dict(getattr(v, k))))
                                             for k in ('wind', 'precip', 'hum', 'temp', 'glob')])
    if type(v).__name__ == 'Station':
        return ('station', snap(v.data_daily), snap(v.data_disagg), snap(v.statistics), snap(v.sun_times),
                repr((v.id, v.name, v.lon, v.lat, v.timezone)))
    return ('value', repr(v))


def where(a, b, path=''):
    """Path of the first difference of two descriptions."""
    if a == b:
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for k, (x, y) in enumerate(zip(a, b)):
            d = where(x, y, '%s/%s' % (path, x[0] if isinstance(x, tuple) and x and isinstance(x[0], str)
                                       else k))
            if d:
                return d
    return '%s: %s -> %s' % (path, str(a)[:120], str(b)[:120])
