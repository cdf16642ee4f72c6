"""Preloads every third-party module pyg2p needs, but not pyg2p itself: simulated processes import it fresh."""
import importlib
import json
import os
import sys
import warnings

SRC = '/repo/src'
WANT = ('pyg2p.main', 'pyg2p.main.api', 'pyg2p.main.writers.pcr', 'pyg2p.main.writers.netcdf', 'pyg2p.main.manipulation.correction')


def preload():
    warnings.simplefilter('ignore')
    import scipy.spatial, scipy.optimize, numba, eccodes, netCDF4, numexpr, numpy  # noqa
    import dask.bag, dask.multiprocessing, dask.threaded, dask.diagnostics, dask.local  # noqa
    import concurrent.futures.process, concurrent.futures.thread, ftplib, gzip, tempfile, fcntl, shutil, pdb  # noqa
    from osgeo import gdal  # noqa
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        names = []
        try:
            os.dup2(os.open('/dev/null', os.O_WRONLY), 1)
            sys.path.insert(0, SRC)
            os.environ['HOME'] = '/nonexistent'
            for m in WANT:
                try:
                    importlib.import_module(m)
                except BaseException:
                    pass
            names = [m for m in sys.modules if not m.split('.')[0] in ('pyg2p', '__main__', 'sim')]
        finally:
            os.write(w, json.dumps(names).encode())
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        d = os.read(r, 65536)
        if not d:
            break
        data += d
    os.close(r)
    os.waitpid(pid, 0)
    for m in json.loads(data):
        if m not in sys.modules:
            try:
                importlib.import_module(m)
            except BaseException:
                pass
    warm_eccodes()
    import gc
    gc.collect()
    gc.freeze()


def warm_eccodes():
    """loads the library's definition files once, before any process is forked"""
    import eccodes as ec
    import shutil
    import tempfile
    d = tempfile.mkdtemp(prefix='warm', dir=os.environ.get('SIM_SCRATCH') or None)
    try:
        for ed in (1, 2):
            for st in ('instant', 'accum'):
                for pert in (None, 1):
                    h = ec.codes_grib_new_from_samples(f'regular_ll_sfc_grib{ed}')
                    if pert is not None:
                        if ed == 2:
                            ec.codes_set(h, 'productDefinitionTemplateNumber', 11 if st == 'accum' else 1)
                        else:
                            ec.codes_set(h, 'setLocalDefinition', 1)
                            ec.codes_set(h, 'localDefinitionNumber', 1)
                            ec.codes_set(h, 'type', 'pf')
                            ec.codes_set(h, 'stream', 'enfo')
                        ec.codes_set(h, 'perturbationNumber', 1)
                    ec.codes_set(h, 'stepType', st)
                    ec.codes_set(h, 'shortName', 'tp' if st == 'accum' else '2t')
                    ec.codes_set(h, 'endStep', 6)
                    p = f'{d}/w{ed}{st}{pert}'
                    with open(p, 'wb') as f:
                        ec.codes_write(h, f)
                    ec.codes_release(h)
                    ix = ec.codes_index_new_from_file(p, ['shortName'])
                    ec.codes_index_release(ix)
                    with open(p, 'rb') as f:
                        h = ec.codes_grib_new_from_file(f)
                    for k in ('shortName', 'units', 'stepType', 'stepUnits', 'levelType', 'missingValue', 'dataDate', 'dataTime', 'startStep',
                              'endStep', 'Nj', 'level', 'bitmapPresent', 'perturbationNumber', 'gridType', 'numberOfValues'):
                        try:
                            ec.codes_get(h, k, ktype=str)
                        except Exception:
                            pass
                    ec.codes_get_double_array(h, 'values')
                    ec.codes_get_double_array(h, 'latitudes')
                    try:
                        ec.codes_grib_find_nearest(h, 10.0, 10.0, npoints=4)
                    except Exception:
                        pass
                    ec.codes_release(h)
    finally:
        shutil.rmtree(d, ignore_errors=True)
