"""Simulated world: input files, maps, configuration and jobs built from a JSON-able spec."""
import json
import os
import random

import numpy as np

SRC = '/repo/src'

PARAMS = {
    '2t': {'@description': 'Two metre temperature', '@shortName': '2t', '@unit': 'K',
           'Conversion': [{'@id': 'k2c', '@function': 'x=x-273.15', '@unit': 'C', '@cutOffNegative': False},
                          {'@id': 'k2c_cut', '@function': 'x=x-285.0', '@unit': 'C', '@cutOffNegative': True},
                          {'@id': 'id', '@function': 'x=x', '@unit': 'K'}]},
    'tp': {'@description': 'Total precipitation', '@shortName': 'tp', '@unit': 'm',
           'Conversion': {'@id': 'm2mm', '@function': 'x=x*1000', '@unit': 'mm', '@cutOffNegative': True}},
    't': {'@description': 'Temperature', '@shortName': 't', '@unit': 'K',
          'Conversion': [{'@id': 'k2c', '@function': 'x=x-273.15', '@unit': 'C'}]},
    'ssr': {'@description': 'Radiation', '@shortName': 'ssr', '@unit': 'J m**-2',
            'Conversion': {'@id': 'wm2', '@function': 'x=x/3600', '@unit': 'W', '@cutOffNegative': False}},
}


# ------------------------------------------------------------------------------------------ files
def region(r, g):
    """north, south, west and east of a place that source grid g covers"""
    if g.get('type') == 'reduced_gg':
        n, w = r.uniform(30, 70), r.choice((r.uniform(-10, 5), r.uniform(5, 300), r.uniform(-179, -30)))
        return n, n - r.uniform(8, 25), w, w + r.uniform(8, 30)
    la = g['lat0'] - g['d'] * np.arange(g['nj'])
    lo = g['lon0'] + g['d'] * np.arange(g['ni'])
    if g.get('type') == 'rotated_ll':
        lo, la = np.radians(np.meshgrid(lo, la))
        x, y, z = np.cos(lo) * np.cos(la), np.sin(lo) * np.cos(la), np.sin(la)
        t, o = -np.radians(90 + g['splat']), -np.radians(g['splon'])
        x, y, z = (np.cos(t) * np.cos(o) * x + np.sin(o) * y + np.sin(t) * np.cos(o) * z,
                   -np.cos(t) * np.sin(o) * x + np.cos(o) * y - np.sin(t) * np.sin(o) * z, -np.sin(t) * x + np.cos(t) * z)
        la, lo = np.degrees(np.arcsin(z)), np.degrees(np.arctan2(y, x))
    elif g.get('around'):      # all around the globe
        n, w = r.uniform(10, 75), r.choice((r.uniform(-175, 100), r.uniform(150, 200)))
        return n, n - r.uniform(20, 60), w, w + r.uniform(20, 70)
    return la.max(), la.min(), lo.min(), lo.max()


def _new_handle(g, m):
    import eccodes as ec
    ed = g.get('edition', 1)
    typ = g.get('type', 'regular_ll')
    if typ == 'reduced_gg':
        h = ec.codes_grib_new_from_samples(f'reduced_gg_pl_32_grib{ed}')
    else:
        h = ec.codes_grib_new_from_samples(f'{typ}_sfc_grib{ed}')
        s = ec.codes_set
        s(h, 'Ni', g['ni'])
        s(h, 'Nj', g['nj'])
        s(h, 'latitudeOfFirstGridPointInDegrees', g['lat0'])
        s(h, 'latitudeOfLastGridPointInDegrees', g['lat0'] - g['d'] * (g['nj'] - 1))
        s(h, 'longitudeOfFirstGridPointInDegrees', g['lon0'])
        s(h, 'longitudeOfLastGridPointInDegrees', g['lon0'] + g['d'] * (g['ni'] - 1))
        s(h, 'iDirectionIncrementInDegrees', g['d'])
        s(h, 'jDirectionIncrementInDegrees', g['d'])
        if typ == 'rotated_ll':
            s(h, 'latitudeOfSouthernPoleInDegrees', g.get('splat', -40.0))
            s(h, 'longitudeOfSouthernPoleInDegrees', g.get('splon', 10.0))
    return h


def message_values(m, n):
    rs = np.random.RandomState(m['seed'])
    kind = m['sn']
    if kind in ('2t', 't'):
        v = 270 + rs.rand(n) * 30
    elif kind == 'tp':
        v = (m['s1'] + m.get('base', 0)) * (0.001 * (0.2 + rs.rand(n)) + 0.0005)
    elif kind == 'ssr':
        v = (m['s1'] + m.get('base', 0)) * 3600. * (50 + 100 * rs.rand(n))
    else:
        v = rs.rand(n) * 9000
    mask = None
    if m.get('mask'):
        mask = np.random.RandomState(m['mask']).rand(n) < 0.08
    if m.get('const'):
        v = np.full(n, v[0])
    if m.get('nodata'):
        mask = np.ones(n, bool)
    return v, mask


def write_grib(path, grid, msgs):
    import eccodes as ec
    with open(path, 'wb') as f:
        for m in msgs:
            g = m.get('grid') or grid
            h = _new_handle(g, m)
            s = ec.codes_set
            st = m.get('st', 'instant')
            if m.get('pert') is not None:
                if g.get('edition', 1) == 2:
                    s(h, 'productDefinitionTemplateNumber', 11 if st != 'instant' else 1)
                else:
                    s(h, 'setLocalDefinition', 1)
                    s(h, 'localDefinitionNumber', 1)
                    s(h, 'type', 'pf')
                    s(h, 'stream', 'enfo')
                s(h, 'perturbationNumber', m['pert'])
                s(h, 'numberOfForecastsInEnsemble', 51)
            s(h, 'dataDate', m.get('date', 20200101))
            s(h, 'dataTime', m.get('time', 0))
            s(h, 'stepType', st)
            s(h, 'shortName', m['sn'])
            if m.get('level') is not None:
                s(h, 'typeOfLevel', 'isobaricInhPa')
                s(h, 'level', m['level'])
            if st != 'instant':
                s(h, 'startStep', m['s0'])
            s(h, 'endStep', m['s1'])
            n = ec.codes_get(h, 'numberOfValues') if g.get('type') == 'reduced_gg' else g['ni'] * g['nj']
            v, mask = message_values(m, n)
            if mask is not None:
                s(h, 'bitmapPresent', 1)
                v = v.copy()
                v[mask] = ec.codes_get(h, 'missingValue')
            s(h, 'bitsPerValue', m.get('bits', 16))
            ec.codes_set_values(h, v)
            ec.codes_write(h, f)
            ec.codes_release(h)


def write_pcr(path, arr, mv=-9999.):
    from osgeo import gdal
    drv = gdal.GetDriverByName('MEM')
    ds = drv.Create('', arr.shape[1], arr.shape[0], 1, gdal.GDT_Float32)
    ds.SetGeoTransform([0, 1, 0, 0, 0, -1])
    b = ds.GetRasterBand(1)
    b.SetNoDataValue(mv)
    b.WriteArray(arr.astype('f4'))
    ds.SetMetadataItem('PCRASTER_VALUESCALE', 'VS_SCALAR')
    o = gdal.GetDriverByName('PCRaster').CreateCopy(path, ds, 0, ['PCRASTER_VALUESCALE=VS_SCALAR'])
    assert o is not None
    o = None
    aux = path + '.aux.xml'
    if os.path.exists(aux):
        os.unlink(aux)


def write_ncmap(path, lats, lons, mask=None, values=None):
    from netCDF4 import Dataset
    with Dataset(path, 'w', format='NETCDF4_CLASSIC') as d:
        d.createDimension('lat', len(lats))
        d.createDimension('lon', len(lons))
        v = d.createVariable('lat', 'f8', ('lat',))
        v[:] = lats
        v = d.createVariable('lon', 'f8', ('lon',))
        v[:] = lons
        b = d.createVariable('Band1', 'f4', ('lat', 'lon'), fill_value=-9999.)
        a = np.ones((len(lats), len(lons)), 'f4') if values is None else values
        if mask is not None:
            a[mask] = -9999.
        b[:] = a


def map_arrays(m):
    """target coordinates, clone and dem arrays of a map set spec"""
    rs = np.random.RandomState(m['seed'])
    R, C = m['rows'], m['cols']
    la = m['lat0'] - m['dlat'] * np.arange(R)
    lo = m['lon0'] + m['dlon'] * np.arange(C)
    if m.get('warp'):      # same extremes, other rows in between
        la = la[0] + (la[-1] - la[0]) * np.linspace(0, 1, R) ** m['warp']
    if m.get('kind') == 'nc':
        lats = la[:, None] * np.ones((1, C))
        lons = lo[None, :] * np.ones((R, 1))
    else:
        lats = la[:, None] + (rs.rand(R, C) - 0.5) * 0.3 * m['dlat']
        lons = lo[None, :] + (rs.rand(R, C) - 0.5) * 0.3 * m['dlon']
        lats = lats.astype('f4')
        lons = lons.astype('f4')
    for i, jj, a, o in m.get('hits', ()):      # cells exactly on source points
        lats[i, jj], lons[i, jj] = a, o
    if m.get('flip'):      # same coordinates, other clone and elevations
        rs = np.random.RandomState(m['seed'] + 7919 * m['flip'])
    clone_mask = rs.rand(R, C) < m.get('clone_mv', 0.05)
    dem = (rs.rand(R, C) * 1500).astype('f4')
    dem_mask = rs.rand(R, C) < m.get('dem_mv', 0.03)
    return lats, lons, clone_mask, dem, dem_mask


def cdd_array(m):
    """correlation distances in km: around the spacing of the source (the target is somewhat denser)"""
    rs = np.random.RandomState(m['seed'] + 53)
    km = m.get('cdd_km', 100)
    return (km * (0.5 + 2.5 * rs.rand(m['rows'], m['cols']))).astype('f4')


def coord_mask(m):
    """cells of the target without coordinates"""
    return np.random.RandomState(m['seed'] + 31).rand(m['rows'], m['cols']) < m.get('coord_mv', 0)


def map_files(root, name, m):
    d = f'{root}/maps/{name}'
    if m.get('kind') == 'nc':
        return {'lat': f'{d}/ll.nc', 'lon': f'{d}/ll.nc', 'clone': f'{d}/ll.nc' if m.get('ncclone') else f'{d}/clone.map', 'dem': f'{d}/dem.map'}
    return {'lat': f'{d}/lat.map', 'lon': f'{d}/lon.map', 'clone': f'{d}/clone.map', 'dem': f'{d}/dem.map'}


def cdd_file(root, w, name):
    return f'{root}/maps/{name}/cdd.{w["cdd"]["file"]}'


def build(root, w):
    """Create every file of world spec w below root."""
    for d in ('home/.pyg2p', 'work/configuration/global', 'maps', 'in', 'cmd', 'tables', 'gtab', 'geo', 'ggeo', 'geo2', 'alt', 'out', 'in', 'in2'):
        os.makedirs(f'{root}/{d}', exist_ok=True)
    for name, m in w['maps'].items():
        os.makedirs(f'{root}/maps/{name}', exist_ok=True)
        lats, lons, cm, dem, dm = map_arrays(m)
        f = map_files(root, name, m)
        clone = np.where(cm, -9999., 1.)
        if m.get('kind') == 'nc':
            write_ncmap(f['lat'], lats[:, 0], lons[0, :], cm)
        else:
            cmv = coord_mask(m)
            write_pcr(f['lat'], np.where(cmv, -9999., lats))
            write_pcr(f['lon'], np.where(cmv, -9999., lons))
        if f['clone'].endswith('.map'):
            write_pcr(f['clone'], clone)
        write_pcr(f['dem'], np.where(dm, -9999., dem))
        if w.get('cdd'):
            if w['cdd']['file'] == 'nc':
                write_ncmap(cdd_file(root, w, name), m['lat0'] - m['dlat'] * np.arange(m['rows']), m['lon0'] + m['dlon'] * np.arange(m['cols']), values=cdd_array(m))
            else:
                write_pcr(cdd_file(root, w, name), cdd_array(m))
    for name, i in w['inputs'].items():
        p = inpath(root, w, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        msgs = i['msgs']
        if i.get('order'):
            msgs = [msgs[k] for k in i['order']]
        write_grib(p, i['grid'], msgs)
        if i.get('cutmsg') is not None:
            cut_message(p, *i['cutmsg'])
    for name, spec in (w.get('blobs') or {}).items():
        from .ftpsim import content
        with open(f'{root}/{name}', 'wb') as f:
            f.write(content(spec))
    g = f'{root}/work/configuration/global'
    dump(f'{g}/parameters.json', PARAMS)
    dump(f'{g}/global_conf.json', {'geopotentials': f'{root}/ggeo', 'intertables': f'{root}/gtab'})
    if w.get('global_geo') is not None:
        dump(f'{g}/geopotentials.json', w['global_geo'])
    if w.get('global_tables') is not None:
        dump(f'{g}/intertables.json', w['global_tables'])
    with open(f'{root}/home/.pyg2p/paths.conf', 'w') as f:
        f.write(f'# paths\nINTERTABLES={root}/tables\nGEOPOTENTIALS={root}/geo\nMAPS={root}/maps\n')
    for name, text in (w.get('confs') or {}).items():
        with open(f'{root}/home/.pyg2p/{name}', 'w') as f:
            f.write(text.replace('@ROOT@', root))
    for name, doc in (w.get('user') or {}).items():
        dump(f'{root}/home/.pyg2p/{name}', doc)
    for name, text in (w.get('raw') or {}).items():
        # documents no program can read
        with open(f'{root}/home/.pyg2p/{name}', 'w') as f:
            f.write(text)
    for name in w.get('links') or ():
        # kept elsewhere
        os.makedirs(f'{root}/home/dot', exist_ok=True)
        os.rename(f'{root}/home/.pyg2p/{name}', f'{root}/home/dot/{name}')
        os.symlink(f'../dot/{name}', f'{root}/home/.pyg2p/{name}')
    for name, mode in (w.get('chmod') or {}).items():
        os.chmod(f'{root}/home/.pyg2p/{name}', mode)
    for j in w['jobs'].values():
        if j['via'] in ('cli', 'command'):
            dump(f'{root}/cmd/{j["id"]}.json', command_json(root, w, j))


def cut_message(path, n, frac):
    """cuts a file inside its n-th message"""
    import eccodes as ec
    with open(path, 'rb') as f:
        at = []
        while True:
            h = ec.codes_grib_new_from_file(f)
            if h is None:
                break
            at.append((int(ec.codes_get(h, 'offset')), int(ec.codes_get(h, 'totalLength'))))
            ec.codes_release(h)
    o, size = at[n]
    with open(path, 'r+b') as f:
        f.truncate(o + min(size - 1, max(12, int(size * frac))))


def dump(path, doc):
    with open(path, 'w') as f:
        f.write(json.dumps(doc, sort_keys=True, indent=4))


# ------------------------------------------------------------------------------------------ jobs
def _paths(root, w, j):
    m = w['maps'][j['maps']]
    f = map_files(root, j['maps'], m)
    if j.get('usevars') == 'WHERE':
        f = {k: '{WHERE}/' + os.path.basename(v) for k, v in f.items()}
    elif j.get('usevars'):
        f = {k: v.replace(f'{root}/maps', '{MAPS}') for k, v in f.items()}
    if j.get('badmap'):
        f['clone'] = f['clone'] + '.missing'
    return f


def command_json(root, w, j):
    f = _paths(root, w, j)
    par = {'@shortName': j['param']}
    if j.get('conv'):
        par['@applyConversion'] = j['conv']
    for k in ('tstart', 'tend', 'level', 'dataTime', 'dataDate'):
        if j.get(k) is not None:
            par['@' + k] = str(j[k]) if not j.get('numbers') or k == 'level' else j[k]
    if j.get('corr'):
        par['@correctionFormula'] = j['corr']['formula']
        par['@gem'] = j['corr']['gem']
        par['@demMap'] = f['dem']
    inter = {'@mode': j['mode'], '@latMap': f['lat'], '@lonMap': f['lon']}
    for k, t in (('j_G', '@geopotentialDir'), ('j_N', '@intertableDir')):
        if j.get(k):
            inter[t] = f'{root}/{j[k]}'
    if j['mode'] == 'cdd':
        inter.update({'@cdd_map': cdd_file(root, w, j['maps']), '@cdd_mode': w['cdd']['mode']})
        if w['cdd'].get('options'):
            inter['@cdd_options'] = w['cdd']['options']
    if j.get('splits'):
        inter['@num_of_splits'] = j['splits']
    if j.get('bcast'):
        inter['@use_broadcasting'] = True
    out = {'@cloneMap': f['clone'], '@unitTime': str(j.get('unitTime', 24)), 'Interpolation': inter}
    if j.get('nounit') and j.get('unitTime') == 24:
        out.pop('@unitTime')
    for k in ('format', 'scaleFactor', 'offset', 'valueFormat', 'validMin', 'validMax', 'outputStepUnits', 'namePrefix', 'fmap', 'ext'):
        if j.get('j_' + k) is not None:
            out['@' + k] = j['j_' + k]
    doc = {'Execution': {'@name': j['id'], 'Parameter': par, 'OutMaps': out}}
    if j.get('aggr'):
        a = {'@step': str(j['aggr']['step']), '@type': j['aggr']['type']}
        if j['aggr'].get('half'):
            a['@halfweights'] = True
        if j['aggr'].get('zero'):
            a['@forceZeroArray'] = 'True'
        doc['Execution']['Aggregation'] = a
    return doc


def inpath(root, w, name):
    i = w['inputs'].get(name, {})
    return f'{root}/{i.get("dir", "in")}/{i.get("file", name)}'


def argv(root, w, j):
    a = ['-c', f'{root}/cmd/{j["id"]}.json', '-i', inpath(root, w, j['input']), '-o', f'{root}/out/{j["out"]}', '-l', j.get('loglevel', 'ERROR')]
    if j.get('input2'):
        a += ['-I', inpath(root, w, j['input2'])]
    if j.get('B'):
        a.append('-B')
    if j.get('X'):
        a.append('-X')
    if j.get('G'):
        a += ['-G', f'{root}/{j["G"]}']
    if j.get('N'):
        a += ['-N', f'{root}/{j["N"]}']
    if j.get('fmt'):
        a += ['-F', j['fmt']]
    if j.get('pert') is not None:
        a += ['-m', str(j['pert'])]
    if j.get('prefix'):
        a += ['-n', j['prefix']]
    if j.get('fmap'):
        a += ['-f', str(j['fmap'])]
    if j.get('ext'):
        a += ['-x', str(j['ext'])]
    if j.get('c_start') is not None:
        a += ['-s', str(j['c_start'])]
    if j.get('c_end') is not None:
        a += ['-e', str(j['c_end'])]
    for k, o in (('dataTime', '-T'), ('dataDate', '-D'), ('scaleFactor', '-S'), ('offset', '-O'), ('validMin', '-vm'), ('validMax', '-vM'),
                 ('valueFormat', '-vf'), ('outputStepUnits', '-U')):
        if j.get('c_' + k) is not None:
            a += [o, str(j['c_' + k])]
    return a


def api_dict(root, w, j):
    f = _paths(root, w, j)
    par = {'shortName': j['param']}
    if j.get('conv'):
        par['applyConversion'] = j['conv']
    for k in ('tstart', 'tend', 'dataTime', 'dataDate'):
        if j.get(k) is not None:
            par[k] = j[k]
    if j.get('level') is not None:
        par['level'] = str(j['level'])
    if j.get('corr'):
        par.update(correctionFormula=j['corr']['formula'], gem=j['corr']['gem'], demMap=f['dem'])
    inter = {'mode': j['mode'], 'latMap': f['lat'], 'lonMap': f['lon']}
    if j['mode'] == 'cdd':
        inter.update(cdd_map=cdd_file(root, w, j['maps']), cdd_mode=w['cdd']['mode'], cdd_options=w['cdd'].get('options'))
    if j.get('splits'):
        inter['num_of_splits'] = j['splits']
    if j.get('bcast'):
        inter['use_broadcasting'] = True
    d = {'loggerLevel': 'ERROR', 'inputFile': inpath(root, w, j['input']), 'fmap': 1, 'start': j.get('c_start'), 'end': j.get('c_end'),
         'perturbationNumber': j.get('pert'), 'intertableDir': f'{root}/{j.get("N") or "tables"}', 'geopotentialDir': f'{root}/{j.get("G") or j.get("j_G") or "geo"}',
         'createIntertable': bool(j.get('B')), 'interpolationParallel': bool(j.get('X')),
         'OutMaps': {'unitTime': str(j.get('unitTime', 24)), 'cloneMap': f['clone'], 'Interpolation': inter},
         'Parameter': par}
    if j.get('nounit') and j.get('unitTime') == 24:
        d['OutMaps'].pop('unitTime')
    for k in ('dataTime', 'dataDate'):
        if j.get('c_' + k) is not None:
            d[k] = j['c_' + k]
    if j.get('input2'):
        d['inputFile2'] = inpath(root, w, j['input2'])
    if j.get('aggr'):
        d['Aggregation'] = {'step': j['aggr']['step'], 'type': j['aggr']['type']}
        if j['aggr'].get('zero'):
            d['Aggregation']['forceZeroArray'] = 'True'
        if j['aggr'].get('half'):
            d['Aggregation']['halfweights'] = True
    if j.get('lean'):      # without what is optional
        for k in ('createIntertable', 'perturbationNumber', 'loggerLevel', 'geopotentialDir'):
            if d.get(k) is None or d[k] is False or k == 'loggerLevel' or (k == 'geopotentialDir' and d[k] == f'{root}/geo'):
                d.pop(k, None)
        if d['intertableDir'] == f'{root}/tables':
            d.pop('intertableDir')
    return d


# ------------------------------------------------------------------------------------------ generator
SCIPY_FAST = ('nearest', 'invdist')
SCIPY_SLOW = ('adw', 'cdd', 'bilinear', 'triangulation', 'bilinear_delaunay')
GRIB_MODES = ('grib_nearest', 'grib_invdist')


def gen_odd(r, ed=None):
    """other grids than a regular one in the east"""
    x = r.random()
    g = {'type': 'regular_ll', 'edition': ed or r.choice((1, 2)), 'd': r.choice((0.5, 1.0, 0.25))}
    if x < 0.4:        # over the meridian of Greenwich, or west of it
        g.update(ni=r.randint(6, 11), nj=r.randint(5, 9), lat0=float(r.randint(30, 60)), lon0=float(r.choice((r.randint(-9, -1), r.randint(-120, -10)))))
    elif x < 0.65:
        d = r.choice((20, 15))
        g.update(around=True, d=float(d), ni=360 // d, nj=160 // d + (d == 20), lat0=80.0, lon0=float(r.choice((0, -180))))
    elif x < 0.85:
        g.update(type='rotated_ll', ni=r.randint(6, 11), nj=r.randint(5, 9), lat0=float(r.randint(0, 6)), lon0=float(r.randint(-8, 4)),
                 splat=float(r.choice((-40, -35))), splon=float(r.choice((10, 0, -5))))
    else:
        g.update(type='reduced_gg', ni=6114, nj=64, lat0=87.8638, lon0=0.0, d=2.8125)
    return g


def gen_grid(r, ed=None):
    ni, nj = r.randint(6, 11), r.randint(5, 9)
    d = r.choice((0.5, 1.0, 0.25))
    # distinct (lon0, lon1, ni, nj) for every grid: see known finding on grids that differ in latitude only
    return {'type': 'regular_ll', 'ni': ni, 'nj': nj, 'lat0': float(r.randint(30, 60)), 'lon0': float(r.randint(1, 60)), 'd': d,
            'edition': ed or r.choice((1, 1, 2))}


def gridkey(g):
    return (g['lon0'], g['lon0'] + g['d'] * (g['ni'] - 1), g['ni'], g['nj'], g.get('type'))


def gen_maps(r, g, kind=None, rows=None):
    """target covering the grid with a small margin, at least 250 cells"""
    rows = rows or r.randint(14, 20)
    cols = r.randint(14, 20)
    while rows * cols < 256:
        cols += 1
    n, s, w, e = region(r, g)
    h, wd = n - s, e - w
    ext = r.choice((-0.05, 0.05, 0.12))
    return {'kind': kind or r.choice(('pcr', 'pcr', 'pcr', 'nc')), 'seed': r.randrange(1, 10**6), 'rows': rows, 'cols': cols,
            'lat0': n + h * ext, 'dlat': h * (1 + 2 * ext) / (rows - 1), 'lon0': w - wd * ext,
            'dlon': wd * (1 + 2 * ext) / (cols - 1), 'clone_mv': r.choice((0, 0.05, 0.2)), 'dem_mv': r.choice((0, 0.03)),
            'ncclone': r.random() < 0.5}


def mapkey(m):
    """the parts of a target that enter the table identifier, rounded the way pyg2p rounds"""
    lats, lons, *_ = map_arrays(m)
    if m.get('coord_mv'):
        c = coord_mask(m)
        lats, lons = lats[~c], lons[~c]
    # (the shape is not part of it: see known finding on targets with the same extremes)
    return (m.get('kind') == 'nc', f'{lats.min():.2f}', f'{lats.max():.2f}', f'{lons.min():.2f}', f'{lons.max():.2f}')


def gen_msgs(r, sn, steps, st, mask_p=0.25, pert=None, level=None, date=20200101, time=0, seedbase=None):
    out = []
    mk = r.randrange(1, 10**6) if r.random() < mask_p else None
    change = mk and r.random() < 0.3      # not the same values are missing in all messages
    for s in steps:
        m = {'sn': sn, 's0': 0, 's1': s, 'st': st, 'seed': (seedbase or r.randrange(1, 10**8)) + s, 'date': date, 'time': time}
        if st == 'instant':
            m['s0'] = s
        if st == 'accum' and s == 0:
            m['st'] = 'instant'
            m['s0'] = 0
        if mk:
            m['mask'] = mk if not change or r.random() < 0.5 else r.randrange(1, 10**6)
        if r.random() < 0.04:
            m['const'] = True
        if r.random() < 0.01:
            m['nodata'] = True
        if pert is not None:
            m['pert'] = pert
        if level is not None:
            m['level'] = level
        out.append(m)
    return out
