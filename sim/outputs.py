"""Independent readers for what a run leaves on disk."""
import gzip
import itertools
import json
import os
import struct

import numpy as np

_count = itertools.count()
PCR_SIG = b'RUU CROSS SYSTEM MAP FORMAT'


def read_pcr(data):
    if len(data) < 256 or data[:27] != PCR_SIG:
        return ('bad', f'no complete PCRaster header ({len(data)} bytes)')
    cr, = struct.unpack_from('<H', data, 66)
    rows, cols = struct.unpack_from('<II', data, 100)
    dt = {0x5A: '<f4', 0xDB: '<f8', 0x00: '<u1', 0x04: '<i1', 0x26: '<i4'}.get(cr)
    if dt is None or not 0 < rows < 10000 or not 0 < cols < 10000:
        return ('bad', f'broken PCRaster header cr={cr} rows={rows} cols={cols}')
    n = rows * cols * np.dtype(dt).itemsize
    if len(data) < 256 + n:
        return ('bad', f'cut off: {len(data)} of {256 + n} bytes')
    a = np.frombuffer(data, dt, rows * cols, 256).reshape(rows, cols).astype('f8')
    return ('pcr', a)


def read_nc(path):
    from netCDF4 import Dataset
    # from memory, under a name never used before: the library keeps broken files open, and simulated processes, which are
    # forked later, would inherit that
    try:
        with open(path, 'rb') as f:
            data = f.read()
        d = Dataset(f'mem{next(_count)}', memory=data)
    except BaseException as e:
        return ('bad', f'not readable as netCDF: {type(e).__name__}')
    try:
        d.set_auto_maskandscale(False)
        out = {'dims': {k: len(v) for k, v in d.dimensions.items()}, 'vars': {}, 'attrs': {k: _attr(d.getncattr(k)) for k in d.ncattrs() if k != 'history'}}
        for k, v in d.variables.items():
            out['vars'][k] = {'data': np.array(v[:]), 'attrs': {a: _attr(v.getncattr(a)) for a in v.ncattrs()}, 'dims': tuple(v.dimensions)}
        return ('nc', out)
    except BaseException as e:
        return ('bad', f'netCDF content not readable: {type(e).__name__}: {e}')
    finally:
        try:
            d.close()
        except BaseException:
            pass


def _attr(v):
    return np.asarray(v).tolist() if isinstance(v, (np.generic, np.ndarray)) else v


def read_dir(path):
    out = {}
    if not os.path.isdir(path):
        return out
    for n in sorted(os.listdir(path)):
        p = os.path.join(path, n)
        if os.path.isdir(p):
            continue
        if n.endswith('.nc'):
            out[n] = read_nc(p)
        elif n.endswith('.aux.xml'):
            continue
        else:
            with open(p, 'rb') as f:
                out[n] = read_pcr(f.read())
    return out


def same(a, b, rtol=1e-6):
    """first difference between two output sets, or None"""
    if sorted(a) != sorted(b):
        return f'files {sorted(a)} instead of {sorted(b)}'
    for n in sorted(a):
        x, y = a[n], b[n]
        if x[0] != y[0]:
            return f'{n}: {x[1] if x[0] == "bad" else x[0]} instead of {y[1] if y[0] == "bad" else y[0]}'
        if x[0] == 'pcr':
            d = diff(x[1], y[1], rtol)
            if d:
                return f'{n}: {d}'
        elif x[0] == 'nc':
            if x[1]['dims'] != y[1]['dims'] or x[1]['attrs'] != y[1]['attrs']:
                return f'{n}: dimensions or attributes differ'
            if sorted(x[1]['vars']) != sorted(y[1]['vars']):
                return f'{n}: variables {sorted(x[1]["vars"])} instead of {sorted(y[1]["vars"])}'
            for k in sorted(x[1]['vars']):
                u, v = x[1]['vars'][k], y[1]['vars'][k]
                if repr(u['attrs']) != repr(v['attrs']) or u['dims'] != v['dims'] or u['data'].dtype != v['data'].dtype:
                    return f'{n}:{k}: attributes {u["attrs"]} instead of {v["attrs"]}'
                d = diff(u['data'], v['data'], rtol)
                if d:
                    return f'{n}:{k}: {d}'
    return None


def diff(x, y, rtol=1e-6):
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return f'shape {x.shape} instead of {y.shape}'
    if x.dtype.kind not in 'fiu' or y.dtype.kind not in 'fiu':
        return None if np.array_equal(x, y) else 'values differ'
    ok = np.isclose(x.astype('f8'), y.astype('f8'), rtol=rtol, atol=1e-6 if rtol else 0, equal_nan=True)
    if ok.all():
        return None
    i = tuple(int(q) for q in np.argwhere(~ok)[0])
    return f'{int((~ok).sum())} of {ok.size} values differ, first at {i}: {x[i]!r} instead of {y[i]!r}'


# ------------------------------------------------------------------------------------------ tables
def load_table(path):
    """('ok', array) or ('bad', reason); reads the whole file, so a cut gzip stream is noticed"""
    import io
    try:
        if path.endswith('.gz'):
            with gzip.open(path) as f:
                data = f.read()
        else:
            with open(path, 'rb') as f:
                data = f.read()
        b = io.BytesIO(data)
        a = np.load(b, allow_pickle=False)
        return ('ok', a)
    except BaseException as e:
        return ('bad', f'{type(e).__name__}: {e}')


def table_diff(a, b):
    if a.dtype.names != b.dtype.names:
        return f'fields {a.dtype.names} instead of {b.dtype.names}'
    if a.dtype.names:
        for n in a.dtype.names:
            d = diff(a[n], b[n], 1e-6 if a[n].dtype.kind == 'f' else 0)
            if d:
                return f'{n}: {d}'
        return None
    return diff(a, b, 0)


def read_json(path):
    """None if absent, ('ok', doc) or ('bad', reason)"""
    try:
        with open(path, 'rb') as f:
            data = f.read()
    except FileNotFoundError:
        return None
    try:
        d = json.loads(data.decode('utf-8'))
    except ValueError as e:
        return ('bad', f'{len(data)} bytes, not a JSON document: {e}')
    if not isinstance(d, dict):
        return ('bad', f'not an object but {type(d).__name__}')
    return ('ok', d)
