"""Programs that run inside a simulated process: the real pyg2p, imported fresh, with its
remaining sources of nondeterminism (process pools, worker threads, sockets) behind seams."""
import os
import pickle
import random
import struct
import sys
import types

from . import world as W

LEDGER = None


# ------------------------------------------------------------------------------------------ seams
class Ledger:
    """every message handle / index obtained from the message library, and how often it was released"""

    def __init__(self):
        self.live = {}
        self.dead = set()
        self.bad = []
        self.n = 0

    def take(self, kind, h):
        if h is not None:
            self.n += 1
            self.dead.discard((kind, h))
            self.live[(kind, h)] = self.n

    def drop(self, kind, h):
        if (kind, h) in self.live:
            del self.live[(kind, h)]
            self.dead.add((kind, h))
            return True
        self.bad.append((kind, 'twice' if (kind, h) in self.dead else 'unknown'))
        return False


def wrap_eccodes():
    global LEDGER
    import eccodes
    led = LEDGER = Ledger()

    def taker(name, kind):
        real = getattr(eccodes, name)

        def f(*a, **k):
            h = real(*a, **k)
            led.take(kind, h)
            return h
        f.__name__ = name
        setattr(eccodes, name, f)

    def dropper(name, kind):
        real = getattr(eccodes, name)

        def f(h):
            # a second release of a freed C pointer is undefined behaviour: record it, do not perform it
            if led.drop(kind, h):
                return real(h)
        f.__name__ = name
        setattr(eccodes, name, f)
    for n in ('codes_new_from_index', 'codes_new_from_file', 'codes_grib_new_from_file', 'codes_any_new_from_file', 'codes_clone',
              'codes_new_from_message', 'codes_grib_new_from_index'):
        if hasattr(eccodes, n):
            taker(n, 'handle')
    for n in ('codes_index_new_from_file', 'codes_index_read'):
        if hasattr(eccodes, n):
            taker(n, 'index')
    dropper('codes_release', 'handle')
    dropper('codes_index_release', 'index')


class _NullProgress:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def register(self):
        pass

    def unregister(self):
        pass


class SimPool:
    """ProcessPoolExecutor stand-in: each task runs in its own forked process, one at a time, in seeded order."""
    rng = None
    fail_at = None
    done = 0
    pending = []
    order = []

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        self._max_workers = SimPool.rng.randint(1, 8)
        self.ctx = mp_context.get_start_method() if mp_context is not None else 'fork'
        self.initializer = initializer

    def submit(self, fn, *a, **k):
        from concurrent.futures import Future
        f = Future()
        SimPool.pending.append((self, f, fn, a, k))
        return f

    @classmethod
    def step(cls):
        from concurrent.futures.process import BrokenProcessPool
        i = cls.rng.randrange(len(cls.pending))
        pool, f, fn, a, k = cls.pending.pop(i)
        cls.done += 1
        cls.order.append(i)
        f.set_running_or_notify_cancel()
        if pool.ctx != 'fork':
            # a freshly started interpreter has none of the parent's message handles
            f.set_exception(BrokenProcessPool('worker started without the parent\'s memory'))
            return
        if cls.fail_at is not None and cls.done == cls.fail_at:
            f.set_exception(BrokenProcessPool('worker killed'))
            return
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                try:
                    if pool.initializer is not None:
                        pool.initializer()
                    out = (True, fn(*a, **k))
                except BaseException as e:
                    out = (False, e)
                try:
                    data = pickle.dumps(out)
                except BaseException as e:
                    data = pickle.dumps((False, RuntimeError(repr(e))))
                v = memoryview(data)
                while v:
                    v = v[os.write(w, v):]
            finally:
                os._exit(0)
        os.close(w)
        chunks = []
        while True:
            d = os.read(r, 1 << 20)
            if not d:
                break
            chunks.append(d)
        os.close(r)
        os.waitpid(pid, 0)
        data = b''.join(chunks)
        if not data:
            f.set_exception(BrokenProcessPool('worker died'))
            return
        ok, val = pickle.loads(data)
        f.set_result(val) if ok else f.set_exception(val)

    def shutdown(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class SimThreads(SimPool):
    def __init__(self, max_workers=None, *a, **k):
        self._max_workers = SimPool.rng.randint(1, 8)
        self.ctx = 'thread'

    @classmethod
    def run1(cls, item):
        pool, f, fn, a, k = item
        f.set_running_or_notify_cancel()
        try:
            f.set_result(fn(*a, **k))
        except BaseException as e:
            f.set_exception(e)


def seam_dask(seed, fail_at=None):
    import dask
    import dask.diagnostics
    import dask.local
    import dask.multiprocessing
    import dask.threaded
    SimPool.rng = random.Random(seed)
    SimPool.fail_at = fail_at
    SimPool.done = 0
    SimPool.pending = []
    SimPool.order = []
    dask.diagnostics.ProgressBar = _NullProgress
    dask.multiprocessing.ProcessPoolExecutor = SimPool
    dask.threaded.ThreadPoolExecutor = SimThreads
    dask.config.set({'chunksize': SimPool.rng.choice((1, 2, 6))})

    def queue_get(q):
        while q.empty() and SimPool.pending:
            if SimPool.pending[0][0].ctx == 'thread':
                SimThreads.run1(SimPool.pending.pop(SimPool.rng.randrange(len(SimPool.pending))))
            else:
                SimPool.step()
        return q.get(timeout=20)
    dask.local.queue_get = queue_get


def seam_kdtree(seed):
    """KDTree.query(workers=-1): the real query on seeded slices in seeded order instead of real threads"""
    import numpy as np
    import scipy.spatial
    real = scipy.spatial.KDTree.query
    rng = random.Random(seed ^ 0x51ed)

    def query(self, x, k=1, eps=0, p=2, distance_upper_bound=np.inf, workers=1):
        x = np.asarray(x)
        if workers == 1 or x.ndim != 2 or len(x) < 8:
            return real(self, x, k=k, eps=eps, p=p, distance_upper_bound=distance_upper_bound, workers=1)
        cuts = sorted(rng.sample(range(1, len(x)), rng.randint(1, 6)))
        parts = list(zip([0] + cuts, cuts + [len(x)]))
        rng.shuffle(parts)
        res = {}
        for a, b in parts:
            res[a] = real(self, x[a:b], k=k, eps=eps, p=p, distance_upper_bound=distance_upper_bound, workers=1)
        ks = sorted(res)
        return np.concatenate([res[i][0] for i in ks]), np.concatenate([res[i][1] for i in ks])
    scipy.spatial.KDTree.query = query


def prepare(opts):
    """imports pyg2p from the working tree inside the simulated process"""
    if W.SRC not in sys.path:
        sys.path.insert(0, W.SRC)
    if opts.get('env'):
        import time
        os.environ.update(opts['env'])
        time.tzset()
    import logging
    logging.raiseExceptions = False
    wrap_eccodes()
    seam_dask(opts.get('dseed', 1), opts.get('fail_at'))
    seam_kdtree(opts.get('dseed', 1))
    import pyg2p.main
    assert os.path.abspath(pyg2p.main.__file__).startswith(W.SRC), pyg2p.main.__file__


def _ledger_report():
    import gc
    gc.collect()
    return {'live': len(LEDGER.live), 'kinds': sorted(k for k, _ in LEDGER.live), 'bad': list(LEDGER.bad), 'taken': LEDGER.n}


# ------------------------------------------------------------------------------------------ programs
def run_cli(argv):
    import pyg2p.main
    return pyg2p.main.pyg2p_exe(list(argv))


def run_command(argv):
    """the in-process command API"""
    from pyg2p.main.api import run_command as rc
    return rc('pyg2p ' + ' '.join(argv))


def run_api(d):
    from pyg2p.main.api import ApiContext, Pyg2pApi
    import numpy as np
    api = Pyg2pApi(ApiContext(d))
    out = api.execute()
    return [((k.start_step, k.end_step, k.resolution), np.array(v)) for k, v in out.items()]


def one(item):
    """run one step of a process' program; never raises"""
    kind = item[0]
    try:
        if kind == 'cli':
            return ('rc', run_cli(item[1]))
        if kind == 'command':
            return ('rc', run_command(item[1]))
        if kind == 'api':
            return ('arrays', run_api(item[1]))
        if kind == 'addgeo':
            from pyg2p.main.config import Configuration
            Configuration().add_geopotential(item[1])
            return ('rc', 0)
        if kind == 'rmgeo':
            from pyg2p.main.config import Configuration
            Configuration().remove_geopotential(item[1])
            return ('rc', 0)
        if kind == 'ftp':
            from . import ftpsim
            ftpsim.install(item[2])
            return ('rc', run_cli(item[1]))
        if kind == 'disk':
            disk_op(item[1])
            return ('rc', 0)
        raise RuntimeError(kind)
    except SystemExit as e:
        return ('rc', e.code if isinstance(e.code, int) else 1)
    except MemoryError:
        raise
    except BaseException as e:
        import traceback
        tb = traceback.format_exc()
        return ('exc', type(e).__name__, str(e)[:300], tb[-1500:])


def program(items, opts):
    """a simulated process: prepare, then run its items one after the other"""
    import gc
    from .engine import shim
    try:
        prepare(opts)
    except BaseException as e:
        # start-up itself failed (an injected fault while importing)
        import traceback
        return {'results': [('exc', type(e).__name__, str(e)[:300], traceback.format_exc()[-1500:])], 'ledger': [], 'fds': []}
    res, leds, fds = [], [], []
    s = shim()
    for n, it in enumerate(items):
        s.sim_mark(f'item{n}'.encode())
        res.append(one(it))
        sys.stdout.flush()
        if opts.get('ledger'):
            # a dead frame may keep objects alive through the exception that was stored
            gc.collect()
            leds.append(_ledger_report())
            fds.append([s.sim_open_path(i).decode() for i in range(s.sim_open_count())])
        s.sim_mark(f'end{n}:{"ok" if ok(res[-1]) else "fail"}'.encode())
    return {'results': res, 'ledger': leds, 'fds': fds, 'pool': list(SimPool.order)}


def ok(r):
    return (r[0] == 'rc' and not r[1]) or r[0] == 'arrays'


# ------------------------------------------------------------------------------------------ disk operations
def disk_op(op):
    """what a user or administrator may do to the disk between (or beside) runs"""
    import gzip
    import shutil
    k = op[0]
    if k == 'rm':
        for p in op[1:]:
            if os.path.exists(p):
                os.unlink(p)
    elif k == 'gunzip':
        for n in sorted(os.listdir(op[1])):
            if n.endswith('.npy.gz'):
                try:
                    with gzip.open(os.path.join(op[1], n)) as f:
                        d = f.read()
                except OSError:
                    continue
                with open(os.path.join(op[1], n[:-3]), 'wb') as g:
                    g.write(d)
                os.unlink(os.path.join(op[1], n))
    elif k == 'cut':
        os.truncate(op[1], int(os.path.getsize(op[1]) * op[2]))
    elif k == 'mvall':
        for n in sorted(os.listdir(op[1])):
            shutil.move(os.path.join(op[1], n), os.path.join(op[2], n))
    elif k == 'cpall':
        for n in sorted(os.listdir(op[1])):
            shutil.copy(os.path.join(op[1], n), os.path.join(op[2], n))
    elif k == 'rmall':
        for n in sorted(os.listdir(op[1])):
            os.unlink(os.path.join(op[1], n))
    elif k == 'rmhalf':
        for n in sorted(os.listdir(op[1]))[op[2]::2]:
            os.unlink(os.path.join(op[1], n))
    elif k == 'stripgz':
        # configuration entries registered without the .gz suffix (older versions)
        import json
        if not os.path.exists(op[1]):
            return
        with open(op[1]) as f:
            try:
                d = json.load(f)
            except ValueError:
                return
        for v in d.values():
            if isinstance(v, dict) and str(v.get('filename', '')).endswith('.gz'):
                v['filename'] = v['filename'][:-3]
        with open(op[1], 'w') as f:
            f.write(json.dumps(d, sort_keys=True, indent=4))
    elif k == 'toglobal':
        # move every user registration to the shared configuration
        import json
        if not os.path.exists(op[1]):
            return
        d = json.load(open(op[1]))
        e = {a: b for a, b in d.items() if isinstance(b, dict)}
        g = {}
        if os.path.exists(op[2]):
            g = json.load(open(op[2]))
        g.update(e)
        W.dump(op[2], g)
        W.dump(op[1], {a: b for a, b in d.items() if not isinstance(b, dict)})
    elif k == 'trunc':
        n = os.path.getsize(op[1])
        with open(op[1], 'r+b') as f:
            f.truncate(int(n * op[2]))
    elif k == 'copy':
        with open(op[1], 'rb') as f:
            d = f.read()
        with open(op[2], 'wb') as f:
            f.write(d)
    elif k == 'setdoc':
        # an entry of a document: added, replaced or (None) removed
        import json
        d = {}
        if os.path.exists(op[1]):
            with open(op[1]) as f:
                d = json.load(f)
        d.pop(op[2], None)
        if op[3] is not None:
            d[op[2]] = op[3]
        W.dump(op[1], d)
    elif k == 'write':
        with open(op[1], 'w') as f:
            f.write(op[2])
    elif k == 'replace':
        # as copy, under another inode
        with open(op[1], 'rb') as f:
            d = f.read()
        with open(op[2] + '.other', 'wb') as f:
            f.write(d)
        os.replace(op[2] + '.other', op[2])
    elif k in ('stash', 'unstash'):
        # every table and registration of the user, put away and back
        root, put = op[1], f'{op[1]}/stash{op[2]}'
        os.makedirs(put, exist_ok=True)
        u, t, reg = ('home/.pyg2p', 'tables', 'intertables.json')
        if k == 'unstash':
            for n in sorted(os.listdir(f'{root}/{t}')):
                if n not in os.listdir(put):
                    os.unlink(f'{root}/{t}/{n}')
            for n in sorted(os.listdir(put)):
                disk_op(['copy', f'{put}/{n}', f'{root}/{u}/{n}' if n == reg else f'{root}/{t}/{n}'])
        else:
            for n in sorted(os.listdir(f'{root}/{t}')):
                shutil.move(f'{root}/{t}/{n}', f'{put}/{n}')
            if os.path.exists(f'{root}/{u}/{reg}'):
                shutil.move(f'{root}/{u}/{reg}', f'{put}/{reg}')
    elif k == 'none':
        pass
    else:
        raise RuntimeError(k)
