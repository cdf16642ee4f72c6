"""Builds worlds, runs cases (phases of simulated processes), watches invariants while they run."""
import errno
import hashlib
import json
import os
import pickle
import shutil
import stat
import sys
import time

import numpy as np

from . import engine, model, nodes, outputs
from . import world as W

HarnessError = engine.HarnessError
DOCS = ('parameters.json', 'geopotentials.json', 'intertables.json', 'ftp.json')


def forked(fn, *a):
    """runs fn in a forked child (nothing it loads or leaks reaches the worker); returns its pickled result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                out = (True, fn(*a))
            except BaseException:
                import traceback
                out = (False, traceback.format_exc())
            v = memoryview(pickle.dumps(out))
            while v:
                v = v[os.write(w, v):]
        finally:
            os._exit(0)
    os.close(w)
    ch = []
    while True:
        d = os.read(r, 1 << 20)
        if not d:
            break
        ch.append(d)
    os.close(r)
    os.waitpid(pid, 0)
    if not ch:
        raise HarnessError('helper process died')
    ok, val = pickle.loads(b''.join(ch))
    if not ok:
        raise HarnessError(val)
    return val


def decode(path):
    """every message of a file as the message library sees it"""
    import eccodes as ec
    out = []
    with open(path, 'rb') as f:
        while True:
            h = ec.codes_grib_new_from_file(f)
            if h is None:
                break
            g = ec.codes_get
            v = ec.codes_get_double_array(h, 'values')
            mask = None
            if g(h, 'bitmapPresent'):
                mask = ec.codes_get_array(h, 'bitmap', int) == 0
            typ = g(h, 'gridType')
            m = {'sn': g(h, 'shortName'), 's0': g(h, 'startStep'), 's1': g(h, 'endStep'), 'st': g(h, 'stepType'), 'level': g(h, 'level'),
                 'date': g(h, 'dataDate'), 'time': g(h, 'dataTime'), 'values': v, 'mask': mask,
                 'pert': g(h, 'perturbationNumber') if ec.codes_is_defined(h, 'perturbationNumber') else None, 'type': typ}
            grid = {'lats': ec.codes_get_double_array(h, 'latitudes'), 'lons': ec.codes_get_double_array(h, 'longitudes'),
                    'radius': ec.codes_get_double(h, 'radius') if ec.codes_is_defined(h, 'radius') else 6371229.0, 'nj': g(h, 'Nj')}
            grid['type'] = typ
            if typ == 'regular_ll':
                grid['ni'] = g(h, 'Ni')
                grid['d'] = float(grid['lats'][0] - grid['lats'][grid['ni']]) if grid['nj'] > 1 else 1.0
            m['grid'] = grid
            out.append(m)
            ec.codes_release(h)
    return out


def _build(root, w):
    W.build(root, w)
    dec = {}
    for name, i in w['inputs'].items():
        if i.get('cutmsg') is not None:
            continue
        dec[name] = decode(W.inpath(root, w, name))
    return dec


class Result:
    def __init__(self):
        self.violations = []   # (tag, text)
        self.phases = []
        self.steps = 0
        self.faults = []
        self.trace = []

    def bad(self, tag, text):
        if len(self.violations) < 20:
            self.violations.append((tag, text))


class Runner:
    def __init__(self, wid, scratch):
        self.base = f'{scratch}/w{wid:02d}'
        self.live = f'{self.base}/r'
        self.tmpl = f'{self.base}/t'
        self.logs = f'{self.base}/l'
        for d in (self.base, self.logs):
            os.makedirs(d, exist_ok=True)
        self.world = None
        self.key = None
        self.stats = {'runs': 0, 'steps': 0, 'sim_ns': 0, 'faults': {}, 'switches': 0, 'processes': 0}
        self.shapes = set()
        self.partner = None

    # -- worlds
    def load(self, w):
        key = json.dumps(w, sort_keys=True)
        if key == self.key:
            return
        self.key = None
        for d in (self.live, self.tmpl):
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(self.live)
        self.dec = forked(_build, self.live, w)
        if os.path.isdir(self.tmpl):
            shutil.rmtree(self.tmpl)
        shutil.copytree(self.live, self.tmpl, symlinks=True)
        self.world, self.key = w, key
        self.gold = {}
        self.hashes = None

    def reset(self):
        shutil.rmtree(self.live)
        shutil.copytree(self.tmpl, self.live, symlinks=True)

    def input_hashes(self):
        """content of everything a run must never touch"""
        out = {}
        for d in ('in', 'in2', 'maps', 'cmd', 'work'):
            for dp, dn, fn in os.walk(f'{self.live}/{d}'):
                for n in sorted(fn):
                    p = os.path.join(dp, n)
                    with open(p, 'rb') as f:
                        out[p[len(self.live):]] = hashlib.sha1(f.read()).hexdigest()
        return out

    # -- items
    def item(self, it):
        root, w = self.live, self.world
        k = it[0]
        if k == 'job':
            j = dict(w['jobs'][it[1]])
            if len(it) > 2:
                j.update(it[2])
            if j['via'] == 'api':
                return ('api', W.api_dict(root, w, j))
            return (j['via'], W.argv(root, w, j))
        if k == 'cfg':
            return ('cli', [a.replace('@ROOT@', root) for a in it[1]])
        if k == 'addgeo':
            return ('addgeo', W.inpath(root, w, it[1]))
        if k == 'rmgeo':
            return it
        if k == 'ftp':
            return ('ftp', [a.replace('@ROOT@', root) for a in it[1]], it[2])
        if k == 'disk':
            return ('disk', [a.replace('@ROOT@', root) if isinstance(a, str) else a for a in it[1]])
        raise HarnessError(k)

    def outdir(self, it):
        j = dict(self.world['jobs'][it[1]])
        if len(it) > 2:
            j.update(it[2])
        return f'{self.live}/out/{j["out"]}'

    # -- golden: what the job does alone, undisturbed, on the initial files, in a fresh process
    def golden(self, jid, over=None):
        k = jid + json.dumps(over or {}, sort_keys=True)
        if k in self.gold:
            return self.gold[k]
        self.reset()
        swap = self.world['jobs'][jid].get('swap')
        if swap:
            nodes.disk_op(['copy', f'{self.live}/{swap[1]}', f'{self.live}/{swap[0]}'])
        o = dict(over or {})
        o.setdefault('B', True)
        it = ('job', jid, o)
        sim = engine.Sim(self.live, self.live + '/work', self.live + '/home', self.logs, engine.Policy(1, {'mode': 'seq'}))
        sim.spawn('gold', nodes.program, [self.item(it)], {})
        st = sim.run()
        n = sim.nodes['gold'].result
        self.count(sim)
        r = n['value']['results'][0] if n and n['kind'] == 'ok' else ('exc', n['kind'] if n else 'none', str(n), '')
        g = {'status': st, 'result': r, 'ok': st == 'done' and nodes.ok(r), 'out': outputs.read_dir(self.outdir(it)), 'arrays': r[1] if r[0] == 'arrays' else None}
        g['reg'] = self.registry()
        g['tables'] = {}
        for i, e in g['reg'].items():
            p = self.table_path(e)
            if p:
                t = outputs.load_table(p)
                g['tables'][i] = t[1] if t[0] == 'ok' else None
        g['trace'] = list(sim.trace)
        self.gold[k] = g
        return g

    def registry(self, doc=None):
        d = outputs.read_json(f'{self.live}/home/.pyg2p/intertables.json') if doc is None else doc
        if not d or d[0] != 'ok':
            return {}
        return {k: v for k, v in d[1].items() if isinstance(v, dict) and 'filename' in v}

    def table_path(self, e, dirs=('tables', 'gtab', 'alt')):
        for d in dirs:
            for s in ('', '.gz'):
                p = f'{self.live}/{d}/{e["filename"]}{s}'
                if os.path.isfile(p):
                    return p
        return None

    def predict(self, jid, over=None):
        """the reference model's answer for a job of the world"""
        w = self.world
        j = dict(w['jobs'][jid])
        if over:
            j.update(over)
        i = self.dec[j['input']]
        m = w['maps'][j['maps']]
        lats, lons, cm, dem, dm = W.map_arrays(m)
        i2 = self.dec[j['input2']] if j.get('input2') else None
        geos = []
        if j.get('corr'):
            from .gen import gridid
            grids = [w['inputs'][j['input']]['grid']]
            if i2 is not None:
                grids.append(w['inputs'][j['input2']]['grid'])
            grids += [m['grid'] for m in w['inputs'][j['input']]['msgs'] if m.get('grid')][:1]
            for g in grids:
                own = [m for m in i if m['sn'] in ('z', 'fis') and (m['grid']['nj'], m['grid'].get('ni', g['ni'])) == (g['nj'], g['ni'])]
                name = (w.get('user', {}).get('geopotentials.json', {}).get(gridid(g)) or (w.get('global_geo') or {}).get(gridid(g)))
                if name is None:
                    raise model.Undefined('no geopotential for one of the grids')
                name = self.geofile(name, j)
                if any(m['sn'] == 'orog' for m in self.dec[name]):
                    raise model.Undefined('which one of two fields is the geopotential')
                gm = [m for m in self.dec[name] if m['sn'] == 'z'][0] if not own else own[0]
                geos.append((model.field(gm), gm['grid']))
        if not i:
            raise model.NoMessages
        return model.predict(j, i, (lats, lons), cm, dem, dm, geos, i2, W.coord_mask(m))

    def geofile(self, file, j):
        """the input which job j finds under the name of a geopotential file"""
        for d in (j.get('G') or j.get('j_G'), 'geo', 'ggeo'):
            for n, i in self.world['inputs'].items():
                if d and i.get('dir') == d and i.get('file', n) == file:
                    return n
        raise KeyError(file)

    def collect(self, P):
        """registry and tables as they are after a phase"""
        P['reg'] = self.registry()
        P['files'] = sorted(n for n in os.listdir(f'{self.live}/tables') if n.endswith(('.npy', '.npy.gz')))
        P['tables'] = {}
        for i, e in P['reg'].items():
            p = self.table_path(e)
            t = outputs.load_table(p) if p else ('bad', None)
            P['tables'][i] = t[1] if t[0] == 'ok' else None
        P['docs'] = {d: outputs.read_json(f'{self.live}/home/.pyg2p/{d}') for d in DOCS}
        P['tabs'] = {}
        for d in ('tables', 'alt', 'gtab'):
            for n in sorted(os.listdir(f'{self.live}/{d}')):
                if n.endswith(('.npy', '.npy.gz')):
                    t = outputs.load_table(f'{self.live}/{d}/{n}')
                    P['tabs'][f'{d}/{n}'] = t[1] if t[0] == 'ok' else None

    # -- bookkeeping
    def count(self, sim):
        s = self.stats
        s['runs'] += 1
        s['steps'] += sim.step
        s['sim_ns'] += sim.now - engine.BASE_TIME
        s['switches'] += sim.switches
        s['processes'] += len(sim.nodes)
        for f in sim.faults_fired:
            k = f[4] if f[4] != 'fail' else f'fail:{errno.errorcode.get(f[5], f[5])}'
            k = f'{k}@{f[2]}' if f[2] != 'power' else 'power_loss'
            s['faults'][k] = s['faults'].get(k, 0) + 1
        self.shapes.add(sim.shape())

    # -- cases
    def run(self, case, watch=(), prop=None):
        """case: {'world', 'phases': [{'pre': [disk ops], 'nodes': [{'name','items','opts'}], 'plan'}], 'seed'}"""
        self.load(case['world'])
        self.reset()
        res = Result()
        res.mon = Monitor(self, res, watch)
        res.mon.case = case
        res.before = self.input_hashes() if 'contain' in watch else None
        for pi, ph in enumerate(case['phases']):
            for op in ph.get('pre', []):
                nodes.disk_op([a.replace('@ROOT@', self.live) if isinstance(a, str) else a for a in op])
            before = prop.snapshot(self, case, pi, 'before') if prop else None
            res.mon.phase(ph)
            pol = engine.Policy(case['seed'] * 1000 + pi, ph['plan'])
            sim = engine.Sim(self.live, self.live + '/work', self.live + '/home', self.logs, pol, on_step=res.mon.step)
            sim.seq += ph.get('pad', 0)
            for n in ph['nodes']:
                opts = dict(n.get('opts') or {})
                sim.spawn(n['name'], nodes.program, [self.item(i) for i in n['items']], opts, seed=n.get('seed', 1))
            status = sim.run()
            self.count(sim)
            P = {'status': status, 'nodes': {}, 'faults': list(sim.faults_fired), 'outside': list(sim.outside), 'picks': list(sim.picks),
                 'digest': sim.digest(), 'trace': sim.trace, 'out': {}, 'spec': ph, 'switches': sim.switches, 'shape': sim.shape()}
            for n in ph['nodes']:
                P['nodes'][n['name']] = sim.nodes[n['name']].result
            P['before'] = before
            P['after'] = prop.snapshot(self, case, pi, 'after') if prop else None
            if prop is not None and prop.collect:
                self.collect(P)
            for n in ph['nodes']:
                for it in n['items']:
                    if it[0] == 'job':
                        d = self.outdir(it)
                        P['out'].setdefault(os.path.basename(d), None)
            for d in P['out']:
                P['out'][d] = outputs.read_dir(f'{self.live}/out/{d}')
            res.phases.append(P)
            res.steps += sim.step
            res.faults += P['faults']
            if status != 'done':
                res.bad('stuck', f'phase {pi}: the run never ended ({status})')
                break
        if res.before is not None:
            after = self.input_hashes()
            for p in sorted(set(after) | set(res.before)):
                if after.get(p) != res.before.get(p):
                    res.bad('contain', f'{p} was {"created" if p not in res.before else "removed" if p not in after else "changed"}')
        return res


# ------------------------------------------------------------------------------------------ invariants during a run
class Monitor:
    """watch: subset of {'conf', 'tables', 'contain', 'geo'}"""

    def __init__(self, runner, res, watch):
        self.R, self.res, self.watch = runner, res, set(watch)
        self.root = runner.live
        self.req = {}
        self.tcache = {}
        self.seen = set()
        self.gone = {d: {} for d in DOCS}      # removals that were acknowledged

    def phase(self, ph):
        """what must survive: everything there is now"""
        self.ph = ph
        self.free = {d: set() for d in DOCS}
        self.items = {}
        self.create = set()
        self.B = False
        for n in ph['nodes']:
            for k, it in enumerate(n['items']):
                self.items[(n['name'], k)] = it
                if it[0] == 'rmgeo':
                    self.free['geopotentials.json'].add(it[1])
                if it[0] == 'cfg' and '-K' in it[1]:
                    self.free['intertables.json'].add('*gone')
        self.req = {}
        self.raw = {}         # what nobody can read is not to be touched
        self.link = {}
        self.mode = {}
        for d in DOCS:
            p = f'{self.root}/home/.pyg2p/{d}'
            x = outputs.read_json(p)
            if x is not None and x[0] == 'ok':
                self.req[d] = dict(x[1])
            elif x is not None:
                with open(p, 'rb') as f:
                    self.raw[d] = f.read()
            if x is not None:
                self.link[d] = os.path.realpath(p)
                self.mode[d] = os.stat(p).st_mode
        self.geo = self._geo()
        self.ggeo = self._ggeo()
        self.nb = set()       # running items that may create tables
        self.step_no = 0

    def _geo(self):
        """registered geopotential -> content"""
        out = {}
        for k, v in self.req.get('geopotentials.json', {}).items():
            if k == 'description':
                continue
            p = f'{self.root}/geo/{v}'
            if os.path.isfile(p):
                with open(p, 'rb') as f:
                    out[k] = (v, hashlib.sha1(f.read()).hexdigest())
        return out

    def step(self, sim, n, op, action):
        k, p, p2 = op.kind, op.path, op.path2
        if k == 'MARK':
            if p.startswith('end') and ':' in p:
                num, how = p[3:].split(':')
                self.done(n.name, int(num), how == 'ok')
            return
        if k not in engine.MUTATING and k != 'close':
            return
        where = f'after {op!r} ({engine.ACTION_NAMES[action] if isinstance(action, int) else action})'
        if 'conf' in self.watch and ('/.pyg2p/' in p or '/.pyg2p/' in (p2 or '')):
            self.check_conf(where)
        if 'tables' in self.watch and any(x in p or x in (p2 or '') for x in ('/tables/', '/gtab/', '/alt/', 'intertables.json')):
            self.check_tables(where)
        if 'geo' in self.watch and any(x in p or x in (p2 or '') for x in ('/geo/', 'geopotentials.json')):
            self.check_geo(where)
        if 'download' in self.watch and any(x in p or x in (p2 or '') for x in ('/tables/', '/geo/')):
            self.check_download(where)
        if 'contain' in self.watch and k in engine.MUTATING and action in (0, 2, 4, 5):
            self.check_contain(n, op)

    def power(self):
        pass

    def once(self, tag, key, text):
        if (tag, key) not in self.seen:
            self.seen.add((tag, key))
            self.res.bad(tag, text)

    # ---- configuration documents
    def check_conf(self, where):
        for d in DOCS:
            x = outputs.read_json(f'{self.root}/home/.pyg2p/{d}')
            if x is None:
                if d in self.req:
                    self.once('conf', d, f'{d} is gone {where}')
                continue
            p = f'{self.root}/home/.pyg2p/{d}'
            if d in self.link:
                if os.path.realpath(p) != self.link[d]:
                    self.once('conf', d, f'{d} was kept in {self.link[d][len(self.root):]}, it is no link to it any more {where}')
                elif os.stat(p).st_mode != self.mode[d]:
                    self.once('conf', d, f'{d}: permissions changed from {self.mode[d]:o} to {os.stat(p).st_mode:o} {where}')
            if d in self.raw:
                with open(p, 'rb') as f:
                    if f.read() != self.raw[d]:
                        self.once('conf', d, f'{d} could not be read, it was overwritten {where}')
                continue
            if x[0] == 'bad':
                self.once('conf', d, f'{d} is not a complete document: {x[1]} {where}')
                continue
            for key, val in self.req.get(d, {}).items():
                if key in x[1]:
                    v = x[1][key]
                    if d == 'intertables.json' and isinstance(val, dict) and isinstance(v, dict):
                        a, b = str(val.get('filename')), str(v.get('filename'))
                        if a.removesuffix('.gz') != b.removesuffix('.gz'):
                            self.once('conf', d, f'{d}: entry {key} now names {b} instead of {a} {where}')
                    elif v != val:
                        self.once('conf', d, f'{d}: entry {key} changed from {val!r} to {v!r} {where}')
                elif d == 'geopotentials.json' and val in self.free[d]:
                    pass
                elif d == 'intertables.json' and '*gone' in self.free[d] and isinstance(val, dict) and not self.table_there(val):
                    pass
                else:
                    self.once('conf', d, f'{d}: entry {key} was lost {where}')
            for key, who in self.gone[d].items():
                if key in x[1]:
                    self.once('conf', d, f'{d}: entry {key} is back {where}, its removal by {who} was reported as done')

    def table_there(self, entry):
        p = f'{self.root}/tables/{entry.get("filename")}'
        return os.path.exists(p) or os.path.exists(p + '.gz')

    def done(self, node, num, ok):
        """an item ended; what it registered is acknowledged from now on"""
        it = self.items.get((node, num))
        if not ok or it is None:
            return
        if it[0] == 'rmgeo':
            for k, v in list(self.req.get('geopotentials.json', {}).items()):
                if v == it[1]:
                    self.gone['geopotentials.json'][k] = f'{node}:{num}'
        if it[0] == 'cfg' and '-K' in it[1]:
            for k, v in list(self.req.get('intertables.json', {}).items()):
                if k.startswith('Iold_') and isinstance(v, dict) and not self.table_there(v):
                    self.gone['intertables.json'][k] = f'{node}:{num}'
        it = it[0], it
        if it[0] == 'job' and 'acktables' in self.watch:
            j = self.R.world['jobs'][it[1][1]]
            g = self.R.gold.get(it[1][1] + '{}')
            if g and g['ok'] and j.get('B'):
                x = outputs.read_json(f'{self.root}/home/.pyg2p/intertables.json')
                now = x[1] if x and x[0] == 'ok' else {}
                for i in g['reg']:
                    if i in self.R.world.get('user', {}).get('intertables.json', {}):
                        continue
                    if i in now:
                        self.req.setdefault('intertables.json', {})[i] = now[i]
                    else:
                        self.once('ack', i, f'{it[1][1]} reported success but its table {i} is not registered when it ends')
        if it[0] == 'addgeo' or (it[0] == 'cfg' and '-g' in it[1][1]):
            x = outputs.read_json(f'{self.root}/home/.pyg2p/geopotentials.json')
            now = x[1] if x and x[0] == 'ok' else {}
            name = it[1][1] if it[0] == 'addgeo' else it[1][2] if len(it[1]) > 2 else os.path.basename(it[1][1][it[1][1].index('-g') + 1])
            mine = {k: v for k, v in now.items() if k != 'description' and k == self.geoid(name)}
            if not mine and self.watch & {'ackgeo'}:
                self.once('ack', name, f'{name} was reported as added but is not registered')
            for k, v in mine.items():
                self.req.setdefault('geopotentials.json', {})[k] = v
                p = f'{self.root}/geo/{v}'
                if os.path.isfile(p):
                    with open(p, 'rb') as f:
                        self.geo[k] = (v, hashlib.sha1(f.read()).hexdigest())

    def _ggeo(self):
        """geopotential of the shared configuration -> file used for it and its content"""
        out = {}
        for k, v in (self.R.world.get('global_geo') or {}).items():
            p = self.found_geo(v)
            if p:
                with open(p, 'rb') as f:
                    out[k] = (v, hashlib.sha1(f.read()).hexdigest())
        return out

    def found_geo(self, name):
        for d in ('geo', 'ggeo'):
            p = f'{self.root}/{d}/{name}'
            if os.path.isfile(p):
                return p
        return None

    def geoid(self, name):
        from .gen import gridid
        i = self.R.world['inputs'].get(name)
        return gridid(i['grid']) if i else None

    # ---- interpolation tables
    def golden_tables(self):
        out = {}
        for g in self.R.gold.values():
            for i, t in g['tables'].items():
                if t is not None:
                    out[i] = t
        return out

    def check_tables(self, where, final=False):
        gt = self.golden_tables()
        for doc in ('home/.pyg2p/intertables.json', 'work/configuration/global/intertables.json'):
            x = outputs.read_json(f'{self.root}/{doc}')
            if not x or x[0] != 'ok':
                continue
            for i, e in x[1].items():
                if not isinstance(e, dict) or 'filename' not in e or i not in gt:
                    continue
                dirs = ('tables', 'alt') if doc.startswith('home') else ('gtab', 'tables')
                p = self.R.table_path(e, ('tables', 'gtab', 'alt'))
                if p is None:
                    continue
                st = os.stat(p)
                key = (p, st.st_ino, st.st_mtime_ns, st.st_size, i)
                if key in self.tcache and not (time.time_ns() - st.st_mtime_ns < 20_000_000):
                    v = self.tcache[key]
                else:
                    t = outputs.load_table(p)
                    v = f'cannot be loaded: {t[1]}' if t[0] == 'bad' else outputs.table_diff(t[1], gt[i])
                    self.tcache[key] = v
                if v:
                    self.once('tables', (i, p), f'table {p[len(self.root):]} registered as {i} is not the complete table of that id: {v} {where}')

    # ---- geopotentials
    def check_geo(self, where):
        for k, (v, h) in self.geo.items():
            if v in self.free['geopotentials.json']:
                continue
            p = f'{self.root}/geo/{v}'
            if not os.path.isfile(p):
                self.once('geo', k, f'file {v} of registered geopotential {k} is gone {where}')
                continue
            with open(p, 'rb') as f:
                c = hashlib.sha1(f.read()).hexdigest()
            if c != h:
                self.once('geo', k, f'file {v} of registered geopotential {k} was altered {where}')
        for k, (v, h) in self.ggeo.items():
            p = self.found_geo(v)
            if not p:
                self.once('geo', k, f'file {v} of geopotential {k} of the shared configuration is gone {where}')
                continue
            with open(p, 'rb') as f:
                c = hashlib.sha1(f.read()).hexdigest()
            if c != h:
                self.once('geo', k, f'{p[len(self.root):]} took the place of the file of geopotential {k} of the shared configuration {where}')
        x = outputs.read_json(f'{self.root}/home/.pyg2p/geopotentials.json')
        if x and x[0] == 'ok':
            for k, v in x[1].items():
                if k == 'description' or k in self.geo:
                    continue
                src = [n for n, i in self.R.world['inputs'].items() if self.geoid(n) == k and any(m['sn'] in ('z', 'fis', 'orog') for m in i['msgs'])]
                p = f'{self.root}/geo/{v}'
                if not os.path.isfile(p):
                    if k not in self.req.get('geopotentials.json', {}):
                        self.once('geo', k, f'geopotential {k} is registered without its file {v} {where}')
                    continue
                if not src:
                    continue
                with open(p, 'rb') as f:
                    c = f.read()
                full = []
                for n in src:
                    with open(W.inpath(self.root, self.R.world, n), 'rb') as f:
                        full.append(f.read())
                if c not in full:
                    self.once('geo', k, f'geopotential {k} is registered with an incomplete or foreign file {v} {where}')

    # ---- downloads
    def check_download(self, where):
        from .ftpsim import content
        x = self.case['x']
        if not hasattr(self, 'remote'):
            self.remote = {n: content(s) for n, s in x['files'].items()}
            self.mine = {n.split('/')[1]: content(s) for n, s in (self.R.world.get('blobs') or {}).items() if n.startswith(x['dir'] + '/')}
        for n in set(self.remote) | set(self.mine):
            p = f'{self.root}/{x["dir"]}/{n}'
            try:
                with open(p, 'rb') as f:
                    d = f.read()
            except FileNotFoundError:
                if n in self.mine:
                    self.once('present', n, f'{n}, which was there before, is gone {where}')
                continue
            if n in self.mine:
                if d != self.mine[n]:
                    self.once('present', n, f'{n}, which was there before, was changed {where}')
            elif d != self.remote[n]:
                self.once('partial', n, f'{n} holds {len(d)} of {len(self.remote[n])} bytes {where}')

    # ---- containment
    def check_contain(self, n, op):
        """every path a run changes belongs to it"""
        if op.kind == 'fsync' or op.kind == 'mkdir' and os.path.isdir(self.root + op.path):
            return
        for p in (op.path, op.path2):
            if not p:
                continue
            if op.kind in ('symlink', 'link') and p == op.path:
                continue
            if not self.allowed(n.name, p, op.kind):
                self.once('contain', p, f'{op.kind} {op.path} {op.path2 or ""} by {n.name}: not a place this command owns')

    def allowed(self, node, p, kind):
        its = [it for (nn, _), it in self.items.items() if nn == node]
        if p.startswith(('/home/.pyg2p', '/tmp', '/home/dot/')):      # (documents may be links to there)
            return True
        for it in its:
            if it[0] == 'job':
                j = dict(self.R.world['jobs'][it[1]])
                if len(it) > 2:
                    j.update(it[2])
                if j['via'] != 'api' and (p == f'/out/{j["out"]}' or p.startswith(f'/out/{j["out"]}/')):
                    return True
                if j.get('B') and p.startswith('/' + (j.get('N') or j.get('j_N') or 'tables') + '/'):
                    return True
            elif it[0] == 'addgeo' or (it[0] == 'cfg' and '-g' in it[1]):
                if p.startswith('/geo/'):
                    return True
            elif it[0] == 'ftp':
                ds = 'tables' if 'intertables' in it[1] else 'geo'
                if p.startswith(f'/{ds}/'):
                    return True
        return False


# ------------------------------------------------------------------------------------------ judging helpers
def results_of(P, node):
    r = P['nodes'][node]
    if r['kind'] == 'ok':
        return r['value']['results']
    return None


def node_faulted(P, node):
    return any(f[0] in (node, '*') for f in P['faults'])


def arrays_diff(a, b, rtol=1e-6):
    if [k for k, _ in a] != [k for k, _ in b]:
        return f'steps {[k for k, _ in a]} instead of {[k for k, _ in b]}'
    for (k, x), (_, y) in zip(a, b):
        d = outputs.diff(x, y, rtol)
        if d:
            return f'step {k}: {d}'
    return None


def result_vs_golden(R, P, it, r, g):
    """difference between what an acknowledged item produced and what it produces alone, or None"""
    if r[0] == 'arrays':
        return arrays_diff(r[1], g['arrays'])
    return outputs.same(P['out'][os.path.basename(R.outdir(it))], g['out'])


def describe(r):
    if r is None:
        return 'process ended early'
    if r[0] == 'rc':
        return f'exit status {r[1]}'
    if r[0] == 'exc':
        return f'{r[1]}: {r[2]}'
    return 'arrays'
