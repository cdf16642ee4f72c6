"""Small executable reference model of a conversion, written from the documentation.

It never imports pyg2p.  Input: the decoded messages of the world's GRIB files
(decoded with eccodes right after they were written), the target maps of the
world spec, and a job.  Output: the values every owed map must hold, with a
tolerance and an ambiguity mask (cells where two source points are equally near).
"""
import re

import numpy as np

R_SPHERE = None  # radius comes with the decoded grid


class NoMessages(Exception):
    pass


class Undefined(Exception):
    """the model does not cover this job"""


CONV = {  # conversion id -> (function, cut negative)
    ('2t', 'k2c'): (lambda x: x - 273.15, False),
    ('2t', 'k2c_cut'): (lambda x: x - 285.0, True),
    ('2t', 'id'): (lambda x: x, False),
    ('tp', 'm2mm'): (lambda x: x * 1000, True),
    ('t', 'k2c'): (lambda x: x - 273.15, False),
    ('ssr', 'wm2'): (lambda x: x / 3600, False),
}

GEM = {  # gem formula -> function of geopotential
    '(z/9.81)*0.0065': lambda z: (z / 9.81) * 0.0065,
    'z/9.81': lambda z: z / 9.81,
    'z/9.81+10': lambda z: z / 9.81 + 10,
}
CORR = {  # correction formula -> function of value, gem, dem
    'p+gem-dem*0.0065': lambda p, gem, dem: p + gem - dem * 0.0065,
    'p+(gem-dem)*0.0065': lambda p, gem, dem: p + (gem - dem) * 0.0065,
    'p-0.5*(gem-dem)*0.0065': lambda p, gem, dem: p - 0.5 * (gem - dem) * 0.0065,
}


# ----------------------------------------------------------------------------------------- selection
def asked(j, k):
    """a selector of the request: the command line wins over the document"""
    v = j.get('c_' + k)
    return v if v is not None else j.get(k)


def matches(m, j):
    for jk, mk in (('level', 'level'), ('dataTime', 'time'), ('dataDate', 'date'), ('pert', 'pert')):
        if asked(j, jk) is not None and m.get(mk) != asked(j, jk):
            return False
    return True


def select(msgs, j, start, end):
    names = {j['param'], j['param'].upper(), j['param'] + 'var'}

    def keep(m, s0):
        if m['sn'] not in names or not matches(m, j):
            return False
        if start == end:
            return m['s0'] == start and m['s1'] == end
        return m['s0'] >= s0 and m['s1'] <= end
    out = [m for m in msgs if keep(m, start)]
    if not out and start > 0 and start != end:
        out = [m for m in msgs if keep(m, 0)]
    return sorted(out, key=lambda m: (m['s1'], m['s0']))


def values_of(sel, fn):
    vals = {}
    for m in sel:
        vals[(m['s0'], m['s1'])] = np.ma.masked_array(fn(m['values']), m['mask'] if m['mask'] is not None else False)
    if len({e for _, e in vals}) != len(vals) or len(vals) != len(sel):
        raise Undefined('two messages end at the same step')
    return vals


def series(msgs, j, msgs2=None):
    """ordered list of (start, end, values ma, which grid: 0 or 1) of the final, not yet interpolated values"""
    names = {j['param']}

    def about(ms):
        return [m for m in ms if m['sn'] in names and matches(m, j)]
    info = about(msgs)
    if not info:
        raise NoMessages
    gend = max(m['s1'] for m in info)
    if msgs2 is not None:
        gend = max([gend] + [m['s1'] for m in about(msgs2)])
    ends = sorted(m['s1'] for m in info)
    instep = ends[1] - ends[0] if len(ends) > 1 else ends[0] - min(m['s0'] for m in info)
    tstart, tend = asked(j, 'tstart'), asked(j, 'tend')
    tstart = j.get('c_start') if j.get('c_start') is not None else tstart
    tend = j.get('c_end') if j.get('c_end') is not None else tend
    start, end = tstart or 0, gend if tend is None else tend
    a = j.get('aggr')
    ustart = start
    if a and instep != 0:
        ustart = max(0, start - a['step'])
    sel = select(msgs, j, ustart, end)
    if not sel:
        raise NoMessages
    if msgs2 is not None:
        sel2 = select(msgs2, j, ustart, end)
    else:
        sel2 = [m for m in sel if m['grid']['nj'] != sel[0]['grid']['nj']]
        sel = [m for m in sel if m['grid']['nj'] == sel[0]['grid']['nj']]
    fn, cut = (lambda x: x), False
    if j.get('conv'):
        fn, cut = CONV[(j['param'], j['conv'])]
    vals, vals2 = values_of(sel, fn), values_of(sel2, fn)
    change = min((e for _, e in vals2), default=None)
    if change is not None and change not in {e for _, e in vals}:
        raise Undefined('the two resolutions have no step in common')
    if a:
        unit = int(j.get('unitTime', 24))
        kind = info_kind(info)
        out = [(s, e, v, 0) for s, e, v in aggregate({e: v for (_, e), v in vals.items()}, a, start, change or end, instep, unit, kind)]
        if change is not None and end >= change + a['step']:
            kind = (sel + sel2)[1 if len(sel) + len(sel2) > 1 else 0]['st']
            more = aggregate({e: v for (_, e), v in vals2.items()}, a, change + a['step'], end, instep, unit, kind)
        else:
            more = []
    else:
        out = [(s, e, v, 0) for (s, e), v in vals.items()]
        more = [(s, e, v) for (s, e), v in vals2.items()]
    have = {e for _, e, _, _ in out}
    out += [(s, e, v, 1) for s, e, v in more if e not in have]
    if cut:
        out = [(s, e, np.ma.where(v < 0, 0, v) if np.ma.isMaskedArray(v) else np.where(v < 0, 0, v), g) for s, e, v, g in out]
    return sorted(out, key=lambda t: t[1]), min(sel, key=lambda m: (m['s1'], m['s0']))


def info_kind(info):
    return sorted(info, key=lambda m: (m['s1'], m['s0']))[-1]['st']


def aggregate(by, a, start, end, instep, unit, kind):
    step = a['step']
    n = len(next(iter(by.values())))
    steps = sorted(by)
    zeros = np.ma.masked_array(np.zeros(n), False)

    def later(i):
        c = [s for s in steps if s >= i]
        if not c:
            raise Undefined('no later message')
        return by[c[0]]

    def at(i):
        """what has accumulated until step i"""
        if i in by:
            return by[i]
        if i == 0:
            return zeros
        if i < 0:
            raise Undefined('before the run')
        b = [s for s in steps if s < i]
        lo, vlo = (b[-1], by[b[-1]]) if b else (0, zeros)
        vhi = later(i)
        hi = [s for s in steps if s >= i][0]
        return vlo + (vhi - vlo) * ((i - lo) / (hi - lo))
    out = []
    if a['type'] == 'accumulation':
        for i in range(start or step, end + 1, step):
            prev = zeros if i - step == 0 and a.get('zero') else at(i - step)
            out.append((i - step, i, (at(i) - prev) * unit / step))
        return out
    if kind == 'accum':
        raise Undefined('not implemented for accumulated values')
    if a['type'] == 'average':
        first = start if start == 0 else start - step
        last = end - step
        if step < 2 or (start == 0 and (end + 1) % step == 0):
            raise Undefined
        for i in range(first, last + 1, step):
            acc = zeros.copy()
            if a.get('half'):
                inner = [s for s in steps if i <= s <= i + step]
                gaps = {q - p for p, q in zip(inner, inner[1:])}
                used = [by[s] for s in inner]
                if len(inner) < 2 or inner[0] != i or inner[-1] != i + step or len(gaps) != 1:
                    raise Undefined('half weights on unevenly spaced messages')
                dt = gaps.pop()
                for s in inner:
                    acc = acc + by[s] * (dt / 2 if s in (i, i + step) else dt)
            else:
                used = [later(k) for k in range(i + 1, i + step + 1)]
                for v in used:
                    acc = acc + v
            m = np.zeros(n, bool)
            for v in used:
                m |= np.ma.getmaskarray(v)
            out.append((i, i + step, np.ma.masked_array(np.ma.getdata(acc) / step, m)))
        return out
    first = start - step if start - step > 0 else start
    if kind == 'avg':
        first = start + instep
    for i in range(first, end + 1, step):
        if i in by:
            v = by[i]
        elif i == 0:
            v = zeros
        else:
            v = later(i)
        out.append((i, i, v))
    return out


# ----------------------------------------------------------------------------------------- interpolation
def xyz(lon, lat, r):
    lo, la = np.radians(np.asarray(lon)), np.radians(np.asarray(lat))
    return np.stack([r * np.cos(lo) * np.cos(la), r * np.sin(lo) * np.cos(la), r * np.sin(la)], -1).astype('f8')


class Inter:
    """interpolation of one source grid to one target by brute force"""

    def __init__(self, grid, target, mode, nowhere=None):
        slat, slon, r, nj = grid['lats'], grid['lons'], grid['radius'], grid['nj']
        tlat, tlon = target[0], target[1]
        self.shape = tlat.shape
        self.mode = mode
        src = xyz(slon, slat, r)
        tgt = xyz(tlon.ravel().astype('f8'), tlat.ravel().astype('f8'), r)
        d = np.sqrt(((tgt[:, None, :] - src[None, :, :]) ** 2).sum(-1))
        order = np.argsort(d, axis=1, kind='stable')[:, :5]
        self.i = order
        self.d = np.take_along_axis(d, order, 1)
        slack = 4.0      # metres: single precision coordinates
        # on a source point: that one alone counts, and whether its neighbours are missing is not defined
        self.on = d.min(1) < 50.0 if mode in ('invdist', 'grib_invdist') else np.zeros(len(d), bool)
        self.near = order[:, 0]
        self.around = np.argsort(d, axis=1, kind='stable')[:, :10]
        if mode in ('nearest', 'invdist'):
            if len(src) < 1000:
                dd = np.sqrt(((src[:, None, :] - src[None, :, :]) ** 2).sum(-1))
                two = np.sort(dd, axis=1)[:, 1]
            else:
                from scipy.spatial import cKDTree
                two = cKDTree(src).query(src, 2)[0][:, 1]
            bound = two.max() * (1 + 4.0 / nj)
            self.out = self.d[:, 0] > bound
            self.amb = np.abs(self.d[:, 0] - bound) < slack
        else:
            if grid['type'] != 'regular_ll':
                raise Undefined('a cell of another grid')
            if slon[grid['ni'] - 1] < slon[0] and grid['d'] * grid['ni'] < 359.99:
                raise Undefined('outside of such a grid the message library still finds points')
            # inside the area spanned by the source points
            latmin, latmax, lonmin, lonmax = slat.min(), slat.max(), 0, grid['d'] * (grid['ni'] - 1)
            around = grid['d'] * grid['ni'] > 359.99
            la, lo = tlat.ravel().astype('f8'), tlon.ravel().astype('f8')
            lo = (lo - slon[0] + 1) % 360 - 1 if not around else (lo - slon[0]) % 360
            lonmax = 361 if around else lonmax
            inside = (la <= latmax) & (la >= latmin) & (lo >= lonmin) & (lo <= lonmax)
            e = 1e-4
            self.amb = (np.abs(la - latmax) < e) | (np.abs(la - latmin) < e) | (np.abs(lo - lonmin) < e) | (np.abs(lo - lonmax) < e)
            self.out = ~inside
            if mode == 'grib_invdist':
                # the four corners of the surrounding cell
                step_la = grid['d']
                i0 = np.clip(np.floor((slat[0] - la) / step_la).astype(int), 0, grid['nj'] - 2)
                ni = grid['ni']
                j0 = np.clip(np.floor(lo / step_la).astype(int), 0, ni - (1 if around else 2))
                j1 = (j0 + 1) % ni
                c = np.stack([i0 * ni + j0, i0 * ni + j1, (i0 + 1) * ni + j0, (i0 + 1) * ni + j1], 1)
                self.i = c
                self.d = np.take_along_axis(d, c, 1)
                fa, fo = (slat[0] - la) / step_la, lo / step_la
                self.amb |= (np.abs(fa - np.round(fa)) < 1e-3) | (np.abs(fo - np.round(fo)) < 1e-3)
        if mode in ('nearest', 'grib_nearest'):
            self.amb |= (self.d[:, 1] - self.d[:, 0]) < slack
            self.k = 1
        elif mode == 'invdist':
            self.amb |= ((self.d[:, 4] - self.d[:, 3]) < slack) & ~self.on
            self.k = 4
        elif mode == 'grib_invdist':
            # (at the border, it depends on rounding whether the point is inside)
            self.amb &= ~self.on | np.isin(self.near, border(grid))
            self.k = 4
        else:
            raise Undefined(mode)
        if nowhere is not None:
            self.out |= nowhere.ravel()
            self.amb &= ~nowhere.ravel()

    def __call__(self, v):
        """returns value (nan where missing), tolerance, ambiguous"""
        data = np.ma.getdata(v)
        mask = np.ma.getmaskarray(v)
        amb = self.amb
        if self.k == 1:
            idx = self.i[:, 0]
            out = data[idx].astype('f8')
            out[mask[idx]] = np.nan
            tol = np.abs(data[idx]) * 1e-5 + 1e-5
        else:
            idx, d = self.i[:, :4], self.d[:, :4]
            w = 1 / np.maximum(d, 1e-3) ** 2 if self.mode == 'invdist' else 1 / np.maximum(d, 1e-3)
            w = w / w.sum(1, keepdims=True)
            out = (w * data[idx]).sum(1)
            out[mask[idx].any(1)] = np.nan
            out[self.on] = np.where(mask[self.near], np.nan, data[self.near])[self.on]
            amb = amb | self.on & ~mask[self.near] & mask[self.around].any(1)
            rng = data[idx].max(1) - data[idx].min(1)
            tol = rng * np.minimum(1, 30.0 / np.maximum(d.min(1), 1e-3)) + np.abs(out) * 2e-5 + 1e-4
            tol[self.on] = ((data[self.around].max(1) - data[self.around].min(1)) * 0.01 + np.abs(out) * 2e-5 + 1e-4)[self.on]
            if self.mode == 'grib_invdist':
                tol = tol + rng * 0.02   # the library measures distances on the sphere, not through it
        out[self.out] = np.nan
        return out.reshape(self.shape), np.nan_to_num(tol, nan=1.0).reshape(self.shape), amb.reshape(self.shape)


def border(grid):
    nj, ni = grid['nj'], grid['ni']
    k = np.arange(nj * ni).reshape(nj, ni)
    return np.concatenate([k[0], k[-1], k[:, 0], k[:, -1]])


# ----------------------------------------------------------------------------------------- outputs
def pcr_name(prefix, n):
    s = prefix + '0' * (11 - len(prefix) - len(str(n))) + str(n)
    return s[0:8] + '.' + s[8:11]


UNITS = {'s': 1 / 3600, 'm': 1 / 60, 'h': 1, '3h': 3, '6h': 6, '12h': 12, 'D': 24}
UNIT_NAMES = {'s': 'seconds', 'm': 'minutes', 'h': 'hours', '3h': '3h steps', '6h': '6h steps', '12h': '12h steps', 'D': 'days'}
UNIT_AFTER = {'k2c': 'C', 'k2c_cut': 'C', 'id': 'K', 'm2mm': 'mm', 'wm2': 'W'}
UNIT_BEFORE = {'2t': 'K', 't': 'K', 'tp': 'm', 'ssr': 'J m**-2'}


def field(m):
    return np.ma.masked_array(m['values'], m['mask'] if m['mask'] is not None else False)


def predict(j, msgs, target, clone_mask, dem=None, dem_mask=None, geos=(), msgs2=None, nowhere=None):
    """every owed output: {'kind', 'names', 'values', 'tol', 'amb', 'steps'}; geos: geopotential values and grid for each resolution"""
    ser, first = series(msgs, j, msgs2)
    grids = [first['grid']]
    for m in (msgs if msgs2 is None else msgs2):
        if m['sn'] == j['param'] and (msgs2 is not None or m['grid']['nj'] != first['grid']['nj']):
            grids.append(m['grid'])
            break
    inters, gems = {}, {}
    vals, tols, ambs = [], [], []
    for s, e, v, k in ser:
        if k not in inters:
            inters[k] = Inter(grids[k], target, j['mode'], nowhere)
            if j.get('corr'):
                gems[k] = Inter(geos[k][1], target, j['mode'], nowhere)(GEM[j['corr']['gem']](geos[k][0]))
        out, tol, amb = inters[k](v)
        if j.get('corr'):
            gem, gtol, gamb = gems[k]
            out = CORR[j['corr']['formula']](out, gem, dem.astype('f8'))
            out[dem_mask] = np.nan
            tol = tol + gtol * 1.1 + 1e-3
            amb = amb | gamb
        out = out.copy()
        out[clone_mask] = np.nan
        amb = amb & ~clone_mask
        vals.append(out)
        tols.append(tol)
        ambs.append(amb)
    res = {'steps': [(s, e) for s, e, _, _ in ser], 'values': vals, 'tol': tols, 'amb': ambs}
    prefix = j.get('prefix') or j.get('j_namePrefix') or j['param']
    fmap = j.get('fmap', 1)
    fmap = (j.get('j_fmap') or 1) if fmap == 1 else fmap
    ext = j.get('ext', 1)
    ext = (j.get('j_ext') or 1) if ext == 1 else ext
    fmt = j.get('fmt') or j.get('j_format') or 'pcraster'
    if fmt == 'pcraster':
        res['names'] = [pcr_name(prefix, fmap + i * ext) for i in range(len(ser))]
    else:
        res['names'] = [f"{prefix}_{(j.get('aggr') or {}).get('type')}.nc"]
    res['fmt'] = fmt
    res['prefix'] = prefix
    u = asked(j, 'outputStepUnits') or j.get('j_outputStepUnits')
    u = u if u in UNITS else 'h'
    res['times'] = [e / UNITS[u] for _, e in res['steps']]
    d, t = first['date'], first['time']
    res['time_units'] = f'{UNIT_NAMES[u]} since {d // 10000:04d}-{d // 100 % 100:02d}-{d % 100:02d} {t // 100:02d}:00:00'
    res['units'] = UNIT_AFTER.get(j.get('conv')) or UNIT_BEFORE[j['param']]

    def opt(k):
        return j.get('c_' + k) if j.get('c_' + k) is not None else j.get('j_' + k)
    res['scale'], res['offset'] = float(opt('scaleFactor') or 1), float(opt('offset') or 0)
    res['dtype'] = opt('valueFormat') or 'f8'
    for k, n in (('validMin', 'valid_min'), ('validMax', 'valid_max')):
        res[n] = (float(opt(k)) - res['offset']) / res['scale'] if opt(k) is not None else None
    return res


def compare(pred, outs):
    """differences between a prediction and outputs as read by outputs.read_dir; [] when none"""
    bad = []
    if sorted(pred['names']) != sorted(outs):
        return [f"files {sorted(outs)} instead of {sorted(pred['names'])}"]
    if pred['fmt'] == 'pcraster':
        for n, v, t, a, s in zip(pred['names'], pred['values'], pred['tol'], pred['amb'], pred['steps']):
            o = outs[n]
            if o[0] != 'pcr':
                bad.append(f'{n}: {o[1]}')
                continue
            bad += [f'{n} (step {s}): {x}' for x in cmp_field(o[1], v, t, a)]
    else:
        n = pred['names'][0]
        o = outs[n]
        if o[0] != 'nc':
            return [f'{n}: {o[1]}']
        var = o[1]['vars'].get(pred['prefix'])
        if var is None:
            return [f'{n}: variable {pred["prefix"]} missing']
        d = var['data'].astype('f8')
        at = var['attrs']
        dec = d * float(at.get('scale_factor', 1)) + float(at.get('add_offset', 0))
        dec[d == float(at['_FillValue'])] = np.nan
        if dec.shape[0] != len(pred['values']):
            return [f'{n}: {dec.shape[0]} time steps instead of {len(pred["values"])}']
        t = o[1]['vars']['time']
        if not np.allclose(t['data'], pred['times']):
            bad.append(f'{n}: times {t["data"].tolist()} instead of {pred["times"]}')
        for what, got, want in (('units of time', t['attrs'].get('units'), pred['time_units']), ('units', at.get('units'), pred['units']),
                                ('type', var['data'].dtype.str[1:], pred['dtype'])):
            if got != want:
                bad.append(f'{n}: {what}: {got!r} instead of {want!r}')
        for what, want in (('scale_factor', pred['scale']), ('add_offset', pred['offset']), ('valid_min', pred['valid_min']), ('valid_max', pred['valid_max'])):
            got = at.get(what)
            if (got is None) != (want is None) or want is not None and not np.isclose(float(got), want):
                bad.append(f'{n}: {what}: {got!r} instead of {want!r}')
        extra = abs(float(at.get('scale_factor', 1))) * (0.51 if var['data'].dtype.kind in 'iu' else 1e-6)
        for k, (v, t, a, s) in enumerate(zip(pred['values'], pred['tol'], pred['amb'], pred['steps'])):
            bad += [f'{n} (step {s}): {x}' for x in cmp_field(dec[k], v, t + extra, a)]
    return bad


def cmp_field(got, want, tol, amb):
    if got.shape != want.shape:
        return [f'shape {got.shape} instead of {want.shape}']
    got = got.astype('f8')
    gm, wm = np.isnan(got), np.isnan(want)
    d = (gm != wm) & ~amb
    if d.any():
        i = tuple(np.argwhere(d)[0])
        return [f'{int(d.sum())} cells missing/present differ, first {tuple(map(int, i))}: got {got[i]!r} want {want[i]!r}']
    both = ~gm & ~wm & ~amb
    e = np.zeros(got.shape)
    e[both] = np.abs(got[both] - want[both]) - tol[both]
    if (e > 0).any():
        i = np.unravel_index(np.argmax(e), e.shape)
        return [f'{int((e > 0).sum())} cells differ, worst {tuple(map(int, i))}: got {got[i]!r} want {want[i]!r} tol {tol[i]!r}']
    return []


def compare_any(pred, g, mv=-9999.):
    """against a golden result: outputs on disk, or the arrays of the array API"""
    if g['arrays'] is None:
        return compare(pred, g['out'])
    bad = []
    keys = [(k[0], k[1]) for k, _ in g['arrays']]
    if [k[1] for k in keys] != [s[1] for s in pred['steps']]:
        return [f'steps {keys} instead of {pred["steps"]}']
    for (k, a), v, t, am in zip(g['arrays'], pred['values'], pred['tol'], pred['amb']):
        a = np.asarray(a).astype('f8').copy()
        a[(a == mv) | (np.abs(a) > 1e30)] = np.nan
        bad += [f'step {k}: {x}' for x in cmp_field(a, v, t, am)]
    return bad
