"""The properties: for each one how cases are generated and how the outcome of a case is judged.

make(rng, R, world_index) yields cases (JSON-able); judge(R, case, res) yields (tag, text) violations.
Everything judge needs it recomputes from the case, so a replay file holds nothing but the case.
"""
import copy
import errno
import json
import os
import random

from . import engine, gen, ftpsim, model, nodes, outputs, runner
from . import world as W
from .runner import results_of, describe, result_vs_golden, arrays_diff

E = errno
ALLMODES = gen.MODES + gen.EXOTIC


# ------------------------------------------------------------------------------------------ fault placement
WEIGHT = {'write': 8, 'rename': 10, 'open_w': 8, 'open_x': 8, 'open_c': 5, 'open_rw': 5, 'unlink': 6, 'mkdir': 4, 'fsync': 6, 'trunc': 5, 'link': 5,
          'symlink': 5, 'chmod': 3, 'utime': 2, 'open_r': 2.5, 'read': 1.5, 'close': 1.5, 'lock': 3, 'opendir': 1, 'unlock': 1, 'stat': 1.5}
ERRS = {'write': (E.ENOSPC, E.EIO, E.EDQUOT), 'rename': (E.EIO, E.ENOSPC, E.EACCES), 'open_w': (E.ENOSPC, E.EACCES, E.EMFILE, E.EROFS), 'open_x': (E.ENOSPC, E.EACCES),
        'open_c': (E.ENOSPC, E.EACCES), 'open_rw': (E.EACCES, E.EIO), 'unlink': (E.EACCES, E.EIO), 'mkdir': (E.ENOSPC, E.EACCES), 'fsync': (E.EIO, E.ENOSPC),
        'trunc': (E.EIO,), 'link': (E.EIO,), 'symlink': (E.EIO,), 'chmod': (E.EPERM,), 'utime': (E.EPERM,), 'open_r': (E.EIO, E.EMFILE, E.EACCES, E.ENOMEM),
        'read': (E.EIO,), 'close': (E.EIO,), 'lock': (E.ENOLCK, E.EIO), 'opendir': (E.EACCES, E.EIO), 'stat': (E.EIO,)}


def choose_op(rng, trace, focus=None, node=None, kinds=None):
    """(k, kind, path, arg) of one operation, biased towards those that change something"""
    cand, wt = [], []
    k = 0
    for t in trace:
        if node is not None and t[0] != node:
            continue
        k += 1
        w = WEIGHT.get(t[1], 0)
        if kinds is not None and t[1] not in kinds:
            continue
        if not w or t[1].startswith('OUTSIDE'):
            continue
        if focus and not any(f in t[2] for f in focus):
            w *= 0.05
        cand.append((k, t[1], t[2], t[3]))
        wt.append(w)
    if not cand:
        return None
    # the same weight for every kind of place, whatever the number of calls there
    from collections import Counter
    groups = Counter((c[1], os.path.dirname(c[2])) for c in cand)
    wt = [w / groups[(c[1], os.path.dirname(c[2]))] ** 0.6 for w, c in zip(wt, cand)]
    return rng.choices(cand, wt)[0]


def mkfault(rng, op, node, classes=('errno', 'full', 'short', 'crash'), power=False):
    """a fault of one of the classes at that operation"""
    k, kind, path, arg = op
    f = {'node': node, 'at': k, 'op': f'{kind} {path}'}
    c = rng.choice([x for x in classes if x in ('errno', 'crash') or (x == 'full' and kind in ('write', 'open_w', 'open_c', 'open_x', 'mkdir')) or
                    # not for PCRaster maps: GDAL ignores that libcsf read less, what it returns then is whatever was in memory
                    (x == 'short' and kind in ('write', 'read', 'open_r') and not (kind != 'write' and path.endswith('.map')))] or ['errno'])
    if c == 'crash':
        kinds = ['crash_before', 'crash_after']
        if kind == 'write':
            kinds += ['torn', 'torn']
        if power:
            kinds += ['power', 'power']
        f['kind'] = rng.choice(kinds)
        f['frac'] = rng.choice((0.1, 0.5, 0.9, rng.random()))
        if f['kind'] == 'power':
            # (power fails before the call: half of the time before the next one)
            if kind in ('rename', 'link') and rng.random() < 0.6:
                f['at'] += 1
    elif c == 'full':
        f.update(kind='diskfull', frac=rng.choice((0, 0.3, 0.7, rng.random())), path=None)
        d = '/' + path.strip('/').split('/')[0]
        f['scope_path'] = d + '/' if rng.random() < 0.6 else ''
        if f['scope_path'] == '':
            f['scope_path'] = '/'
    elif c == 'short':
        if kind == 'open_r':
            f.update(kind='readerr', bytes=rng.choice((0, 1, 7, 40, 100, 256, 600, 2000)))
        else:
            f.update(kind='short', frac=rng.choice((0.01, 0.5, 0.99)))
    else:
        f.update(kind='errno', errno=rng.choice(ERRS.get(kind, (E.EIO,))))
        if rng.random() < 0.15:      # the fault stays: the device is gone for good
            f['repeat'] = True
            f['ops'] = [kind]
            f['path'] = '/' + path.strip('/').split('/')[0] + '/'
            f['at_least'] = f.pop('at')
    return f


def one_node(items, faults=(), name='a', pre=(), opts=None, seed=1, plan=None):
    p = {'mode': 'seq'}
    if faults:
        p['faults'] = list(faults)
    p.update(plan or {})
    return {'pre': list(pre), 'nodes': [{'name': name, 'items': items, 'opts': opts or {}, 'seed': seed}], 'plan': p}


def sched(rng, n):
    if n == 1:
        return {'mode': 'seq'}
    m = rng.choice(('rand', 'rand', 'pct', 'mut', 'mut'))
    p = {'mode': m}
    if m == 'pct':
        p.update(depth=rng.randint(1, 5), pct_len=rng.choice((60, 200, 500)))
    else:
        p['p_switch'] = rng.choice((0.05, 0.2, 0.5, 0.9))
    return p


def faulted_items(P, node):
    """indexes of the items of a node during which a fault was injected into it; -1 for its start-up"""
    cur, out = -1, set()
    for t in P['trace']:
        if t[0] == '*':
            out.add('power')
        if t[0] != node:
            continue
        if t[1] == 'MARK':
            if t[2].startswith('item'):
                cur = int(t[2][4:])
            continue
        if t[4] != 'go':
            out.add(cur)
    return out


def jobs_of(case):
    seen = []
    for ph in case['phases']:
        for n in ph['nodes']:
            for it in n['items']:
                if it[0] == 'job' and it[1] not in seen:
                    seen.append(it[1])
    return seen


def goldens(R, case):
    return {j: R.golden(j) for j in jobs_of(case)}


def tabstate(R):
    """content of every table folder and of the registry"""
    import hashlib
    out = {}
    for d in ('tables', 'gtab', 'alt'):
        for n in sorted(os.listdir(f'{R.live}/{d}')):
            with open(f'{R.live}/{d}/{n}', 'rb') as f:
                out[f'{d}/{n}'] = hashlib.sha1(f.read()).hexdigest()
    for i, e in R.registry().items():
        out['reg ' + i] = json.dumps(e, sort_keys=True)
    return out


class Prop:
    sane = False              # its worlds hold jobs that have to work
    watch = ()
    collect = False
    partner = False
    runs_quick = 100          # worlds
    runs_thorough = 2000
    variants = 10
    shrinkable = True         # phases, processes and items may be dropped when a case is minimised
    nontrivial_rule = 'at least one fault was injected, or two processes were interleaved, or it has several phases or several commands in one process'
    real = ['all of pyg2p (command line, in-process command API, array API), imported fresh in every simulated process', 'ecCodes', 'numpy', 'scipy', 'GDAL', 'netCDF4/HDF5',
            'the Linux file system (tmpfs), with real locks, renames and permissions']
    stubs = ['every clock and sleep (simulated time)', 'scheduling of processes (one runs at a time, the simulator chooses)', 'process ids and random bytes (seeded)',
             'fsync (recorded; decides what a power loss may cut)', 'dask process and thread pools (tasks forked one at a time in seeded order)', 'threads of KDTree.query (seeded slices)', 'numba (disabled, same source)']
    assumptions = ['a file system call is atomic with respect to other processes; faults hit at call granularity, torn writes at byte granularity',
                   'power loss keeps completed renames and may cut data that was never fsynced; directory entries are not lost',
                   'inputs are small synthetic GRIB files (up to a few hundred cells); target maps have up to a few hundred cells']

    def nontrivial(self, case, res):
        return bool(res.faults) or len(case['phases']) > 1 or any(len(p['nodes']) > 1 or len(p['nodes'][0]['items']) > 1 for p in case['phases'])

    def prep(self, R, case):
        R.load(case['world'])
        goldens(R, case)

    def snapshot(self, R, case, pi, when):
        """called before and after every phase"""
        return None

    def alone(self, R, case):
        return sane(R, case) if self.sane else []

    def judge(self, R, case, res):
        return []


def check_item(R, P, it, r, g, what):
    """an item that says it succeeded must have produced exactly what it produces alone"""
    if r is None or not nodes.ok(r):
        return []
    if r[0] != 'arrays' and any(f[2] == 'power' for f in P['faults']):
        return []       # output is not promised to survive a power loss
    d = result_vs_golden(R, P, it, r, g) if g['ok'] else None
    if d:
        return [('result', f'{what}: success reported but {d}')]
    return []


# ------------------------------------------------------------------------------------------ C01
class C01(Prop):
    """success means complete and correct output"""
    runs_quick, runs_thorough, variants = 220, 8000, 14

    def make(self, rng, R, wi):
        modes = gen.MODES if rng.random() < 0.85 else gen.EXOTIC
        # every other world: more jobs and no faults, for the model
        lean = wi % 2
        b = gen.simple(rng, njobs=rng.choice((2, 3, 4) if lean else (1, 1, 2)), modes=modes, via=rng.choice((None, None, None, None, 'api')), corr_p=0.7 if lean else 0.15, odd=0.25)
        if rng.random() < 0.15:
            nomatch(rng, b)
        w = b.w
        if lean:
            for j in list(w['jobs']):
                if rng.random() < 0.1 and w['jobs'][j]['via'] != 'api':
                    w['jobs'][j]['j_N'] = 'alt'
        R.load(w)
        for j in list(w['jobs']):
            it = ['job', j]
            yield {'world': w, 'phases': [one_node([it]), one_node([['job', j, {'out': 'second', 'B': False}]])]}
            if lean:
                continue
            g = R.golden(j)
            if not g['ok']:
                continue
            n = int(os.environ.get("SIM_VARIANTS") or self.variants) // len(w['jobs'])
            for v in range(n):
                op = choose_op(rng, g['trace'], rng.choice((None, ('/out/',), ('/out/', '/in/', '/maps/'))))
                f = mkfault(rng, op, 'a', ('errno', 'errno', 'full', 'short'))
                fs = [f]
                if rng.random() < 0.15:
                    fs.append(mkfault(rng, choose_op(rng, g['trace']), 'a', ('errno', 'full', 'short')))
                ph = [one_node([it], fs)]
                if rng.random() < 0.2:
                    # the table is there already: the fault meets a run that reads it
                    ph = [one_node([it]), one_node([['job', j, {'out': 'second', 'B': False}]], fs)]
                yield {'world': w, 'phases': ph}

    def judge(self, R, case, res):
        out = []
        for j in jobs_of(case):
            g = R.golden(j)
            J = R.world['jobs'][j]
            try:
                p = R.predict(j)
            except model.NoMessages:
                if g['ok'] and (g['out'] or g['arrays']):
                    out.append(('model', f'{j}: no message matches the request but output was written: {sorted(g["out"])}'))
                continue
            except model.Undefined:
                p = None
            if not g['ok']:
                out.append(('undisturbed', f'{j} ({J["mode"]}, {J["via"]}) fails on valid input without any fault: {describe(g["result"])}'))
                continue
            if p is not None:
                d = model.compare_any(p, g)
                if d:
                    out.append(('model', f'{j} ({J["mode"]}): {d[0]}'))
        for pi, P in enumerate(res.phases):
            for n in P['spec']['nodes']:
                rs = results_of(P, n['name'])
                for k, it in enumerate(n['items']):
                    r = rs[k] if rs else None
                    g = R.golden(it[1])
                    out += check_item(R, P, it, r, g, f'phase {pi}: {it[1]}')
                    if rs and g['ok'] and not nodes.ok(r) and not runner.node_faulted(P, n['name']) and not any(Q['faults'] for Q in res.phases[:pi]):
                        out.append(('undisturbed', f'phase {pi}: {it[1]} fails without any fault: {describe(r)}'))
        return out


def nomatch(rng, b):
    """a job whose request matches nothing"""
    i = next(iter(b.w['inputs']))
    if b.w['inputs'][i].get('dir') in ('geo', 'ggeo', 'geo2'):
        return
    j = b.job(i, next(iter(b.w['maps'])), via=rng.choice(('cli', 'command')), corr=False)
    j['pert' if rng.random() < 0.5 else 'dataTime'] = 7
    j.pop('corr', None)


# ------------------------------------------------------------------------------------------ C02
class C02(Prop):
    """user configuration survives anything"""
    sane = True
    watch = ('conf', 'ackgeo')
    runs_quick, runs_thorough, variants = 70, 2500, 9

    def make(self, rng, R, wi):
        b = gen.simple(rng, njobs=2, modes=gen.MODES, via=rng.choice((None, None, 'api')))
        rich_user(rng, b)
        if wi % 8 == 5:
            damage(rng, b)
        geos = [spare_geo(rng, b) for _ in range(2)]
        w = b.w
        R.load(w)
        for v in range(self.variants):
            phases = []
            for _ in range(rng.choice((1, 1, 2, 3))):
                nn = rng.choice((1, 1, 1, 2, 3))
                ns = [{'name': 'abc'[i], 'items': [conf_item(rng, w, geos) for _ in range(rng.choice((1, 1, 2)))], 'opts': {}, 'seed': 1} for i in range(nn)]
                ph = {'pre': [], 'nodes': ns, 'plan': sched(rng, nn)}
                if rng.random() < 0.85:
                    ph['plan']['faults'] = place(rng, R, w, ns, ('/.pyg2p',), rng.choice((('crash',), ('errno', 'full', 'short'), ('errno', 'full', 'crash', 'short'))), power=True)
                phases.append(ph)
            j = rng.choice(list(w['jobs']))
            phases.append(one_node([['job', j, {'out': 'last', 'B': True}]]))
            yield {'world': w, 'phases': phases}

    def judge(self, R, case, res):
        out = []
        P = res.phases[-1]
        if len(res.phases) == len(case['phases']):
            out += final_clean(R, case, P)
        return out


def sane(R, case):
    """jobs that fail alone, without any fault, although the reference model knows their result"""
    out = []
    if R.world.get('raw'):
        return out
    for j in jobs_of(case):
        J = R.world['jobs'].get(j)
        if J is None or j.startswith('f') or J.get('usevars') and R.world.get('confs') or J['input'] not in R.dec:
            continue
        g = R.golden(j)
        if g['ok']:
            continue
        try:
            p = R.predict(j)
        except (model.NoMessages, model.Undefined):
            continue
        if p is not None:
            out.append(('undisturbed', f'{j} ({J["mode"]}, {J["via"]}) fails on valid input without any fault: {describe(g["result"])}'))
    return out


def final_clean(R, case, P):
    """the last phase is undisturbed: its runs must succeed and produce what they produce alone"""
    out = []
    for n in P['spec']['nodes']:
        rs = results_of(P, n['name'])
        for k, it in enumerate(n['items']):
            if it[0] != 'job':
                continue
            r = rs[k] if rs else None
            g = R.golden(it[1])
            if not g['ok']:
                continue
            if r is None or not nodes.ok(r):
                out.append(('rerun', f'undisturbed run of {it[1]} after the faults fails: {describe(r)}'))
            else:
                out += check_item(R, P, it, r, g, f'undisturbed run of {it[1]} after the faults')
    return out


def rich_user(rng, b):
    """documents a user may already have"""
    u = b.w.setdefault('user', {})
    if rng.random() < 0.7:
        u.setdefault('parameters.json', {'description': 'mine', 'xyz': {'@shortName': 'xyz', '@description': 'd' * rng.randint(1, 3000), '@unit': 'u'}})
    if rng.random() < 0.5:
        u.setdefault('ftp.json', {'description': 'x', 'host': 'ftp.example.org', 'folder': 'f', 'user': 'me', 'pwd': 'secret'})
    if rng.random() < 0.7:
        g = u.setdefault('geopotentials.json', {'description': 'Config file for geopotentials. Do NOT edit this file!'})
        for i in range(rng.randint(0, 30)):
            g[f'{i}$35{i}$90${i}$100$regular_ll'] = f'some{i}.grb'
    if rng.random() < 0.7:
        t = u.setdefault('intertables.json', {'description': 'Config file for intertables. Do NOT edit this file!'})
        for i in range(rng.randint(0, 30)):
            t[f'Iold_{i}'] = {'filename': f'tbl_old_{i}.npy.gz', 'method': 'nearest', 'source_shape': [10], 'target_shape': [3, 4]}
        for i in range(rng.choice((0, 0, 1, 3))):
            # old entries name the file as it was before it was compressed
            n = f'tbl_kept_{i}.npy'
            t[f'Ikept_{i}'] = {'filename': n + rng.choice(('', '.gz')), 'method': 'nearest', 'source_shape': [10], 'target_shape': [3, 4]}
            b.w.setdefault('blobs', {})[f'tables/{n}.gz'] = [rng.randrange(10**6), 50]
    if u and rng.random() < 0.25:
        b.w['links'] = sorted(d for d in u if rng.random() < 0.6)
    if u and rng.random() < 0.3:
        b.w['chmod'] = {d: rng.choice((0o600, 0o640, 0o664)) for d in sorted(u) if rng.random() < 0.6}


def damage(rng, b):
    """a document edited by hand, or cut by something else"""
    u = b.w.setdefault('user', {})
    d = rng.choice(runner.DOCS)
    text = json.dumps(u.pop(d, None) or {'description': 'mine', 'mine': {'filename': 'x.npy.gz', 'method': 'nearest'}}, indent=rng.choice((None, 1, 4)))
    b.w['raw'] = {d: rng.choice((text[:-1] + ',}', text[:rng.randrange(1, len(text))], '', text + '}', '# comment\n' + text, text.replace(':', '=', 1)))}
    b.w['links'] = [x for x in b.w.get('links', ()) if x in u]
    b.w['chmod'] = {k: v for k, v in b.w.get('chmod', {}).items() if k in u}


def spare_geo(rng, b, g=None, name=None):
    """a geopotential file that is not registered yet, somewhere in the input folder"""
    g = g or b.grid()
    return b.geo(g, name=name or 'new%d.grb' % len(b.w['inputs']), register=None, where='in')


def conf_item(rng, w, geos, jobs=None):
    x = rng.random()
    if x < 0.5 and w['jobs']:
        return ['job', rng.choice(list(jobs or w['jobs'])), {'B': True, 'out': 'x%d' % rng.randrange(10**6)}]
    if x < 0.75 and geos:
        g = rng.choice(geos)
        if rng.random() < 0.5:
            return ['addgeo', g]
        return ['cfg', ['-g', f'@ROOT@/in/{g}']]
    if x < 0.85:
        return ['cfg', ['-K']]
    reg = [v for k, v in w.get('user', {}).get('geopotentials.json', {}).items() if k != 'description' and v.startswith('some')]
    if reg and x < 0.93:
        return ['rmgeo', rng.choice(reg)]
    return ['cfg', ['-K']]


def dry_trace(R, w, items):
    """trace of the items run undisturbed in one process"""
    key = json.dumps(items)
    c = getattr(R, 'dry', None)
    if c is None or c[0] != R.key:
        c = R.dry = (R.key, {})
    if key not in c[1]:
        case = {'world': w, 'seed': 1, 'phases': [one_node(items)]}
        P = R.run(case).phases[0]
        c[1][key] = P['trace']
    return c[1][key]


def place(rng, R, w, ns, focus, classes, power=False, n=None, spare=()):
    """faults for the nodes of a phase"""
    out = []
    for _ in range(n or rng.choice((1, 1, 1, 2))):
        nd = rng.choice([x for x in ns if x['name'] not in spare])
        tr = dry_trace(R, w, nd['items'])
        op = choose_op(rng, [t for t in tr], focus)
        if op is None:
            continue
        f = mkfault(rng, op, nd['name'], classes, power)
        if len(ns) > 1 and f['kind'] == 'diskfull':
            f['scope_node'] = None
        out.append(f)
    return out


# ------------------------------------------------------------------------------------------ C03
class C03(Prop):
    """concurrent runs"""
    sane = True
    watch = ('conf', 'acktables', 'ackgeo', 'tables', 'geo')
    runs_quick, runs_thorough, variants = 80, 3000, 9

    def make(self, rng, R, wi):
        same = rng.random() < 0.6
        modes = gen.MODES if rng.random() < 0.5 else (rng.choice(gen.MODES),)
        b = gen.simple(rng, njobs=rng.choice((2, 3, 3, 4)), ngrids=rng.choice((1, 2, 2)), nmaps=rng.choice((1, 2)), same_size=same, modes=modes,
                       via=rng.choice((None, None, None, 'api')))
        if rng.random() < 0.5:
            rich_user(rng, b)
        geos = []
        for _ in range(rng.choice((0, 2, 3))):
            geos.append(spare_geo(rng, b))
        if geos and rng.random() < 0.6:
            # files of the same name from different folders
            b.w['inputs'][geos[-1]]['dir'] = 'in'
            n2 = samename(rng, b, geos[0])
            geos.append(n2)
        w = b.w
        R.load(w)
        for v in range(self.variants):
            nn = rng.choice((2, 2, 3, 4))
            ns = []
            for i in range(nn):
                x = rng.random()
                if x < 0.7 or not geos:
                    j = rng.choice(list(w['jobs']))
                    its = [['job', j, {'B': True, 'out': f'n{i}'}]]
                    if rng.random() < 0.2:
                        its.append(['job', rng.choice(list(w['jobs'])), {'B': True, 'out': f'm{i}'}])
                else:
                    gn = rng.choice(geos)
                    its = [['addgeo', gn]] if rng.random() < 0.6 else [['cfg', ['-g', f'@ROOT@/{where(w, gn)}'], gn]]
                    if rng.random() < 0.15:
                        its.append(['cfg', ['-K']])
                ns.append({'name': 'abcd'[i], 'items': its, 'opts': {'dseed': rng.randrange(1000)}, 'seed': rng.randrange(1000)})
            ph = {'pre': [], 'nodes': ns, 'plan': sched(rng, nn)}
            if rng.random() < 0.35:
                ph['plan']['faults'] = place(rng, R, w, ns, ('/.pyg2p', '/tables/', '/geo/'), ('crash', 'crash', 'errno'), n=1)
            yield {'world': w, 'phases': [ph]}

    def judge(self, R, case, res):
        out = []
        P = res.phases[0]
        wide = any(f[4] == 'fail' and f[0] == '*' for f in P['faults'])
        added = {}
        for n in case['phases'][0]['nodes']:
            rs = results_of(P, n['name'])
            hit = runner.node_faulted(P, n['name'])
            for k, it in enumerate(n['items']):
                r = rs[k] if rs else None
                if it[0] == 'job':
                    g = R.golden(it[1])
                    if not g['ok']:
                        continue
                    if not hit and not wide and (r is None or not nodes.ok(r)):
                        out.append(('concurrent', f'{n["name"]}: {it[1]} fails although it works alone: {describe(r)}'))
                    out += check_item(R, P, it, r, g, f'{n["name"]}: {it[1]}')
                elif it[0] in ('addgeo', 'cfg') and '-K' not in str(it[1]):
                    name = C10.name(it)
                    gid = res.mon.geoid(name) if hasattr(res, 'mon') else None
                    added.setdefault(gid, []).append((nodes.ok(r) if r else False, hit))
        for gid, l in added.items():
            if gid in (case['world'].get('user', {}).get('geopotentials.json') or {}) or gid in (case['world'].get('global_geo') or {}):
                continue
            if not any(h for _, h in l) and not any(o for o, _ in l):
                out.append(('concurrent', f'no command added the geopotential of {gid}'))
            if sum(1 for o, _ in l if o) > 1:
                out.append(('concurrent', f'the geopotential of {gid} was reported as added {sum(1 for o, _ in l if o)} times'))
        reg = R.registry()
        out += same_file(reg)
        return out


def same_file(reg):
    used = {}
    out = []
    for i, e in reg.items():
        f = e['filename'].removesuffix('.gz')
        if f in used:
            out.append(('tables', f'registrations {used[f]} and {i} name the same file {f}'))
        used[f] = i
    return out


def where(w, name):
    return f'{w["inputs"][name].get("dir", "in")}/{w["inputs"][name].get("file", name)}'


def samename(rng, b, other):
    """another geopotential file whose base name is that of other, in another folder"""
    n = f'same_{other}'
    g = b.grid()
    b.geo(g, name=n, register=None, where='in2/%d' % len(b.w['inputs']))
    b.w['inputs'][n]['file'] = b.w['inputs'][other].get('file', other)
    return n


# ------------------------------------------------------------------------------------------ C04
class C04(Prop):
    """registered tables are complete and the right ones"""
    sane = True
    watch = ('tables',)
    runs_quick, runs_thorough, variants = 80, 3000, 9

    def make(self, rng, R, wi):
        if wi == 0:
            # the recorded limits of the table identifier, each alone; everything generated otherwise avoids them
            for kf in ('latitude', 'extremes', 'resolution', 'folder'):
                yield self.known_case(R, kf)
        same = rng.random() < 0.6
        modes = rng.choice((gen.MODES, gen.MODES, (rng.choice(gen.MODES),), gen.EXOTIC))
        b = gen.simple(rng, njobs=rng.choice((2, 3)), ngrids=rng.choice((1, 2)), nmaps=rng.choice((1, 2)), same_size=same, modes=modes,
                       via=rng.choice((None, None, None, 'api')))
        w = b.w
        for _ in range(rng.choice((0, 1, 1, 2))):
            b.sibling(rng.choice(sorted(w['jobs'])))
        R.load(w)
        for v in range(self.variants):
            phases = []
            # what happens to the tables and their registration meanwhile
            # (another folder only without what leaves tables nobody registered: see the known finding about that)
            alt = rng.random() < 0.25
            between = rng.choice((('gunzip', 'rmall'), ('gunzip', 'stripgz'), ('rmall', 'stripgz'), ('stripgz', 'rmhalf'), ('rmhalf',), ('rmreg',), ('rmreg', 'rmhalf'), (), ()))
            if alt and 'rmreg' in between:
                between = ()
            for _ in range(rng.choice((1, 2, 2, 3))):
                nn = rng.choice((1, 1, 2, 3))
                ns = []
                for i in range(nn):
                    o = {'B': True}
                    if alt and rng.random() < 0.5:
                        o['N'] = 'alt'
                    ns.append({'name': 'abc'[i], 'items': [['job', rng.choice(list(w['jobs'])), dict(o, out=f'n{len(phases)}{i}{q}')] for q in range(rng.choice((1, 1, 2)))], 'opts': {}, 'seed': 1})
                ph = {'pre': [], 'nodes': ns, 'plan': sched(rng, nn)}
                if not alt and rng.random() < 0.85:
                    ph['plan']['faults'] = place(rng, R, w, ns, ('/tables/', 'intertables.json', '/alt/'), rng.choice((('crash',), ('errno', 'full', 'short'), ('crash', 'errno', 'full', 'short'))), power=True)
                if phases and between:
                    for k in between:
                        if rng.random() < 0.5:
                            ph['pre'].append({'gunzip': ['gunzip', '@ROOT@/tables'], 'rmall': ['rmall', '@ROOT@/tables'], 'rmhalf': ['rmhalf', '@ROOT@/tables', rng.randrange(2)],
                                              'rmreg': ['rm', '@ROOT@/home/.pyg2p/intertables.json'], 'stripgz': ['stripgz', '@ROOT@/home/.pyg2p/intertables.json']}[k])
                phases.append(ph)
            its = [['job', j, {'out': 'last' + j, 'B': True}] for j in w['jobs']]
            phases.append(one_node(its))
            yield {'world': w, 'phases': phases}

    @staticmethod
    def known_case(R, kf):
        r = random.Random(4)
        b = gen.G(r)
        g = b.grid(1)
        m = b.maps(g, 'nc')
        b.job(b.input(g, sn='2t', mask_p=0, steps=[6, 12]), m, mode='nearest', via='cli', corr=False, fmt='pcraster')
        if kf == 'latitude':
            b.job(b.input(dict(g, lat0=g['lat0'] + g['d']), sn='2t', mask_p=0, steps=[6, 12]), m, mode='nearest', via='cli', corr=False, fmt='pcraster')
        elif kf == 'folder':
            o = b.w['maps'][m]
            b.w['maps']['M1'] = dict(o, lon0=o['lon0'] + 0.5)
            b.job(next(iter(b.w['inputs'])), 'M1', mode='nearest', via='cli', corr=False, fmt='pcraster')
        else:
            o = b.w['maps'][m]
            b.w['maps']['M1'] = dict(o, warp=1.6) if kf == 'extremes' else dict(o, rows=o['rows'] - 1, dlat=o['dlat'] * (o['rows'] - 1) / (o['rows'] - 2))
            b.job(next(iter(b.w['inputs'])), 'M1', mode='nearest', via='cli', corr=False, fmt='pcraster')
        for j in b.w['jobs'].values():
            for k in ('aggr', 'tstart', 'tend', 'c_start', 'c_end', 'j_format'):
                j.pop(k, None)
        if kf == 'folder':
            R.load(b.w)
            its = [['job', 'j0', {'out': 'n0', 'B': True}]]
            k = [i for i, t in enumerate(dry_trace(R, b.w, its), 1) if t[1] == 'rename' and '/intertables.json' in t[2]][-1]
            return {'world': b.w, 'x': {'kf': kf}, 'phases': [one_node(its, [{'node': 'a', 'at': k, 'op': 'rename /home/.pyg2p/intertables.json.new', 'kind': 'crash_before'}]),
                                                              one_node([['job', 'j1', {'out': 'n1', 'B': True, 'N': 'alt'}]]), one_node([['job', 'j1', {'out': 'n2', 'B': True}]])]}
        return {'world': b.w, 'phases': [one_node([['job', 'j0', {'out': 'n0', 'B': True}]]), one_node([['job', 'j1', {'out': 'n1', 'B': True}]])], 'x': {'kf': kf}}

    def judge(self, R, case, res):
        out = []
        # identity: one registration, one table
        seen = {}
        for j in jobs_of(case):
            for i, t in R.golden(j)['tables'].items():
                if t is None:
                    continue
                if i in seen:
                    d = outputs.table_diff(t, seen[i][1])
                    if d:
                        out.append(('identity', f'{j} and {seen[i][0]} need different tables but share the registration {i}: {d}'))
                else:
                    seen[i] = (j, t)
        for pi, P in enumerate(res.phases):
            for n in P['spec']['nodes']:
                rs = results_of(P, n['name'])
                for k, it in enumerate(n['items']):
                    out += check_item(R, P, it, rs[k] if rs else None, R.golden(it[1]), f'phase {pi} {n["name"]}: {it[1]}')
        return out


# ------------------------------------------------------------------------------------------ C05
class C05(Prop):
    """executions of one process do not influence each other"""
    collect = True
    runs_quick, runs_thorough, variants = 80, 3000, 8

    def make(self, rng, R, wi):
        b = gen.simple(rng, njobs=rng.choice((2, 3, 4)), ngrids=rng.choice((1, 1, 2)), nmaps=rng.choice((1, 2)),
                       same_size=rng.random() < 0.5, modes=rng.choice((gen.MODES, gen.MODES, ALLMODES)), via=None)
        w = b.w
        for j in w['jobs'].values():
            if rng.random() < 0.4:
                j['via'] = 'api'
                for k in [k for k in j if k in ('fmt', 'prefix', 'fmap', 'ext') or k.startswith('j_')]:
                    del j[k]
        if rng.random() < 0.6:
            corr_family(rng, b)
        kin = {}
        if rng.random() < 0.6:
            j = rng.choice(list(w['jobs']))
            s = b.sibling(j)
            if s:
                kin = {j: s['id'], s['id']: j}
        if rng.random() < 0.4:
            # a variable for the folder of maps, which may change
            m = rng.choice(sorted(w['maps']))
            w.setdefault('confs', {})['where.conf'] = f'WHERE=@ROOT@/maps/{m}\n'
            for j in w['jobs'].values():
                if j['maps'] == m and j['via'] != 'api' and rng.random() < 0.7:
                    j['usevars'] = 'WHERE'
        bad = failing_jobs(rng, b)
        swaps = twins(rng, b)
        R.load(w)
        good = [j for j in w['jobs'] if j not in bad and not w['jobs'][j].get('twin')]
        for v in range(self.variants):
            if v % 8 in (3, 6):
                yield self.changing(rng, b, good, bad, swaps, kin)
                continue
            pre = []
            B = True
            if rng.random() < 0.35:
                pre = [one_node([['job', j, {'B': True, 'out': 'pre' + j}]], name='p') for j in good]
                B = rng.random() < 0.5
            its = []
            for k in range(rng.randint(2, 5)):
                x = rng.random()
                if x < 0.2 and bad:
                    its.append(['job', rng.choice(bad), {'out': f's{k}'}])
                elif x < 0.35 and swaps and k:
                    a, c = rng.choice(swaps)
                    its.append(['disk', ['copy', f'@ROOT@/{c}', f'@ROOT@/{a}']])
                else:
                    its.append(['job', rng.choice(good), {'out': f's{k}', 'B': B}])
            its.append(['job', rng.choice(good), {'out': 'slast', 'B': B}])
            ph = one_node(its, opts={'ledger': False})
            if rng.random() < 0.5:
                tr = dry_trace(R, w, its)
                op = choose_op(rng, tr)
                ph['plan']['faults'] = [mkfault(rng, op, 'a', ('errno', 'full', 'short'))]
                if ph['plan']['faults'][0]['kind'] == 'diskfull':
                    ph['plan']['faults'][0]['kind'] = 'errno'
                    ph['plan']['faults'][0]['errno'] = E.ENOSPC
                ph['plan']['faults'][0].pop('repeat', None)
            yield {'world': w, 'phases': pre + [ph], 'x': {'pre': len(pre)}}

    def changing(self, rng, b, good, bad, swaps, kin):
        """what the conversions work with changes between them, as others may do at any time: the same conversions, each in a process of its own, tell
        what has to come out"""
        w = b.w
        phases, its = [], []
        stashed = []
        if rng.random() < 0.5:
            plain = rng.random() < 0.5
            two = rng.sample(good, min(len(good), 2))
            if kin:
                two = rng.sample(sorted(kin), 2)      # whose tables have the same name, when each is alone
            for n, j in enumerate(two):
                phases.append(one_node([['job', j, {'B': True, 'out': 'pre' + j}]], name='p', pre=[['stash', '@ROOT@', n - 1]] if n else []))
                stashed.append(j)
            its.append(['disk', ['stash', '@ROOT@', len(stashed) - 1]])
            if plain:
                for n in range(len(stashed)):
                    its += [['disk', ['gunzip', f'@ROOT@/stash{n}']], ['disk', ['stripgz', f'@ROOT@/stash{n}/intertables.json']]]
        every = [n for n, i in w['inputs'].items() if not i.get('dir') and not i.get('file')]
        geos = [i.get('file', n) for n, i in w['inputs'].items() if i.get('dir') in ('geo', 'ggeo') or n.startswith('tg_')]
        U, GL = '@ROOT@/home/.pyg2p', '@ROOT@/work/configuration/global'
        seq = []
        focus = stashed if len(stashed) > 1 and rng.random() < 0.6 else rng.sample(good, min(len(good), 2))
        for k in range(rng.randint(3, 6)):
            j = rng.choice(focus) if rng.random() < 0.8 else rng.choice(good + bad)
            J = w['jobs'][j]
            ops = []
            for _ in range(rng.choice((0, 1, 1, 2)) if k else 0):
                x = rng.random() * (0.6 if focus is stashed else 1)
                how = rng.choice(('copy', 'replace'))
                if x < 0.25 and stashed:
                    n = rng.randrange(len(stashed))
                    ops.append(['unstash', '@ROOT@', n])
                    if rng.random() < 0.85:
                        j = stashed[n]
                elif x < 0.35:
                    n = [i for i in every if i != J['input'] and w['inputs'][i]['msgs'][0]['sn'] == J['param']]
                    if n:
                        ops.append([how, f'@ROOT@/in/{rng.choice(n)}', f'@ROOT@/in/{J["input"]}'])
                elif x < 0.45 and swaps:
                    a, c = rng.choice(swaps)
                    ops.append([how, f'@ROOT@/{c}', f'@ROOT@/{a}'])
                elif x < 0.55:
                    ops.append([how, f'@ROOT@/cmd/{rng.choice([i for i in w["jobs"] if w["jobs"][i]["via"] != "api"] or [j])}.json', f'@ROOT@/cmd/{j}.json'])
                    if any(w['jobs'][i]['via'] == 'api' for i in (j, ops[-1][1].split('/')[-1][:-5])):
                        ops.pop()
                elif x < 0.65:
                    d = rng.choice((U, GL))
                    ops.append(['setdoc', f'{d}/parameters.json', J['param'], rng.choice((None, {
                        '@shortName': J['param'], '@description': 'another', '@unit': 'u', 'Conversion': [
                            {'@id': c, '@unit': 'v', '@function': rng.choice(('x=x*2', 'x=x-200', 'x=x+1')), '@cutOffNegative': rng.random() < 0.3}
                            for c in ('k2c', 'k2c_cut', 'm2mm', 'wm2', 'id')]}))])
                elif x < 0.8:
                    if geos and J.get('corr'):
                        d = rng.choice((U, GL))
                        gid = gen.gridid(w['inputs'][J['input']]['grid']) if J['input'] in w['inputs'] else 'x'
                        ops.append(['setdoc', f'{d}/geopotentials.json', gid, rng.choice([None] + geos)])
                    elif J.get('usevars') == 'WHERE' and rng.random() < 0.8:
                        ops.append(['write', f'{U}/where.conf', f'WHERE=@ROOT@/maps/{rng.choice(sorted(w["maps"]))}\n'])
                    elif rng.random() < 0.5:
                        ops.append(['write', f'{U}/paths.conf', f'INTERTABLES=@ROOT@/{rng.choice(("tables", "alt"))}\nGEOPOTENTIALS=@ROOT@/geo\nMAPS=@ROOT@/{rng.choice(("maps", "nomaps"))}\n'])
                elif x < 0.9:
                    ops.append(rng.choice((['rm', f'{U}/intertables.json'], ['rmall', '@ROOT@/tables'], ['rmhalf', '@ROOT@/tables', 0], ['mvall', '@ROOT@/tables', '@ROOT@/alt'])))
                else:
                    ops.append(['mvall', '@ROOT@/tables', '@ROOT@/gtab'])
                    ops.append(['toglobal', f'{U}/intertables.json', f'{GL}/intertables.json'])
            seq += [['disk', o] for o in ops]
            seq.append(['job', j, {'out': f's{k}', 'B': rng.random() < 0.7}])
        phases.append(one_node(its + seq, opts={'ledger': False}))
        return {'world': w, 'phases': phases, 'x': {'pre': len(phases) - 1, 'changing': True}}

    def apart(self, R, case, res):
        """the items of the last phase, each in a process of its own"""
        a = res.phases[-1]
        its = case['phases'][-1]['nodes'][0]['items']
        rs = results_of(a, 'a')
        if rs is None or a['faults']:
            return []
        c = {'world': case['world'], 'seed': case['seed'], 'phases': case['phases'][:-1]}
        pre, at = [], {}
        for k, it in enumerate(its):
            if it[0] == 'disk':
                pre.append(it[1])
            else:
                at[k] = len(c['phases'])
                c['phases'] = c['phases'] + [one_node([it], pre=pre, opts={'ledger': False})]
                pre = []
        b = R.run(c, (), self)
        if len(b.phases) < len(c['phases']):
            return []
        done = []
        for k, it in enumerate(its):
            if it[0] == 'disk':
                if not nodes.ok(rs[k]):
                    raise engine.HarnessError(f'{it[1]}: {describe(rs[k])}')
                done.append(it[1])
                continue
            P = b.phases[at[k]]
            r, s = rs[k], results_of(P, 'a')
            s = s[0] if s else None
            what = f'item {k}, {it[1:]} after {json.dumps(done)}: '
            if nodes.ok(s) != nodes.ok(r):
                return [('history', what + f'{describe(r)} in this process, {describe(s)} in a fresh one')]
            if nodes.ok(s):
                d = arrays_diff(r[1], s[1]) if r[0] == 'arrays' else outputs.same(a['out'][os.path.basename(R.outdir(it))] or {}, P['out'][os.path.basename(R.outdir(it))] or {})
                if d:
                    return [('history', what + f'differs from the same conversion in a fresh process: {d}')]
        d = obs_diff({'phases': [], 'tables': a['tabs']}, {'phases': [], 'tables': b.phases[-1]['tabs']})
        if d:
            return [('history', f'conversions in one process against processes of their own: {d}')]
        for n in ('intertables.json', 'geopotentials.json', 'parameters.json'):
            if a['docs'][n] != b.phases[-1]['docs'][n]:
                return [('history', f'{n} is {str(a["docs"][n])[:300]} after conversions in one process, {str(b.phases[-1]["docs"][n])[:300]} after processes of their own')]
        return []

    def prep(self, R, case):
        R.load(case['world'])
        if case['x'].get('changing'):
            return
        for j in jobs_of(case):
            R.golden(j)
            for t, J in case['world']['jobs'].items():
                if J.get('twin') and J['twin'][0] == j:
                    R.golden(t)

    def judge(self, R, case, res):
        out = []
        P = res.phases[-1]
        if len(res.phases) < len(case['phases']):
            return out
        if case['x'].get('changing'):
            return self.apart(R, case, res)
        n = case['phases'][-1]['nodes'][0]
        hit = faulted_items(P, 'a')
        rs = results_of(P, 'a')
        if rs is None or -1 in hit:
            return out
        state = {}
        for k, it in enumerate(n['items']):
            if it[0] == 'disk':
                # (what a fault leaves of the copy is anybody's guess)
                state[it[1][2]] = it[1][1] if k not in hit else None
                continue
            if k in hit:
                continue
            g = self.expected(R, case, it, state) if None not in state.values() else None
            if g is None:
                continue
            r = rs[k]
            if g['ok'] != nodes.ok(r):
                out.append(('history', f'item {k}, {it[1]}: {describe(r)} in this process, {describe(g["result"])} in a fresh one'))
            elif g['ok']:
                d = result_vs_golden(R, P, it, r, g)
                if d:
                    out.append(('history', f'item {k}, {it[1]}: differs from the same conversion in a fresh process: {d}'))
        return out

    def expected(self, R, case, it, state):
        """golden of the job on the files as they are now"""
        w = case['world']
        j = it[1]
        J = w['jobs'][j]
        m = {a.replace('@ROOT@/', ''): c.replace('@ROOT@/', '') for a, c in state.items()}
        here = [a for a in m if a in deps(w, J)]
        if not here:
            return R.golden(j)
        if len(here) > 1:
            return None
        for t, T in w['jobs'].items():
            if T.get('twin') and T['twin'][0] == j and T['twin'][1] == here[0] and T['twin'][2] == m[here[0]]:
                if T.get('target') and not item_B(R, it):
                    return None       # there is no table for it
                return R.golden(t)
        return None


def deps(w, J):
    ins = [n for n in (J['input'], J.get('input2')) if n]
    d = {f'in/{n}' for n in ins}
    f = W.map_files('', J['maps'], w['maps'][J['maps']])
    d |= {f[k].lstrip('/') for k in ('lat', 'lon', 'clone')}
    if J.get('corr'):
        d.add(f['dem'].lstrip('/'))
        used = [w['inputs'][n] for n in ins if n in w['inputs']]
        gids = {gen.gridid(g) for i in used for g in [i['grid']] + [m['grid'] for m in i['msgs'] if m.get('grid')]}
        d |= {f"{i['dir']}/{i.get('file', n)}" for n, i in w['inputs'].items() if i.get('dir') in ('geo', 'ggeo', 'geo2') and gen.gridid(i['grid']) in gids}
    return d


def corr_family(rng, b):
    """jobs that differ only in how they correct"""
    for i, I in list(b.w['inputs'].items()):
        if I['msgs'][0]['sn'] == '2t' and not I.get('dir') and not any(m.get('mask') or m.get('nodata') or m.get('grid') for m in I['msgs']) and all(m['st'] == 'instant' for m in I['msgs']):
            maps = list(b.w['maps'])
            for _ in range(2):
                b.job(i, rng.choice(maps), mode=rng.choice(('nearest', 'invdist')), corr=True, via=rng.choice(('cli', 'command')))
            return
    g = b.grids[0]
    i = b.input(g, sn='2t', mask_p=0)
    m = list(b.w['maps'])[0]
    for _ in range(2):
        b.job(i, m, mode=rng.choice(('nearest', 'invdist')), corr=True, via=rng.choice(('cli', 'command')))


def failing_jobs(rng, b):
    """jobs that fail for reasons of their own"""
    out = []
    good = [j for j in b.w['jobs'].values()]
    for _ in range(2):
        j = copy.deepcopy(rng.choice(good))
        j['id'] = 'f%d' % len(b.w['jobs'])
        j['out'] = 'o' + j['id']
        k = rng.choice(('conv', 'mode', 'input', 'level', 'param', 'map', 'aggr'))
        if k == 'conv':
            j['conv'] = 'nope'
        elif k == 'mode':
            j['mode'] = 'nomode'
        elif k == 'input':
            j['input'] = 'missing.grb'
        elif k == 'level':
            j['level'] = 12345
        elif k == 'param':
            j['param'] = 'qqq'
        elif k == 'map':
            j['badmap'] = True
        elif k == 'aggr':
            j['aggr'] = {'type': 'accumulation', 'step': 7}
        b.w['jobs'][j['id']] = j
        out.append(j['id'])
    return out


def twins(rng, b):
    """pairs of files one of which may replace the other between two runs, and jobs that describe the outcome"""
    out = []
    w = b.w
    for j in list(w['jobs'].values()):
        if j['id'].startswith('f') or rng.random() < 0.5:
            continue
        if w['inputs'].get(j['input'], {}).get('dir'):
            continue
        x = rng.random()
        if x < 0.15 and j.get('B'):
            # another target of the same name
            mn = 'L' + j['maps']
            if mn not in w['maps']:
                m = copy.deepcopy(w['maps'][j['maps']])
                m['lat0'] -= 0.2 * abs(m['dlat'])
                if W.mapkey(m) in b.mkeys:
                    continue
                b.mkeys.add(W.mapkey(m))
                w['maps'][mn] = m
            pair = (W.map_files('', j['maps'], w['maps'][j['maps']])['lat'].lstrip('/'), W.map_files('', mn, w['maps'][mn])['lat'].lstrip('/'))
            t = copy.deepcopy(j)
            t.update(id='t%d' % len(w['jobs']), twin=[j['id'], *pair], swap=pair, target=True)
        elif x < 0.55:
            n = 'tw_' + j['input']
            if n not in w['inputs']:
                i = copy.deepcopy(w['inputs'][j['input']])
                for m in i['msgs']:
                    m['seed'] += 17
                w['inputs'][n] = i
            t = copy.deepcopy(j)
            pair = (f'in/{j["input"]}', f'in/{n}')
            t.update(id='t%d' % len(w['jobs']), twin=[j['id'], *pair], swap=pair)
        elif j.get('corr') and x < 0.8:
            g = gen.gridid(w['inputs'][j['input']]['grid'])
            src = [n for n, i in w['inputs'].items() if i.get('dir') == 'geo' and gen.gridid(i['grid']) == g and not n.startswith('tg_') and not i.get('file')]
            if not src:
                continue
            n = 'tg_' + src[0]
            if n not in w['inputs']:
                i = copy.deepcopy(w['inputs'][src[0]])
                i['dir'] = 'in'
                i['msgs'][0]['seed'] += 5
                w['inputs'][n] = i
            t = copy.deepcopy(j)
            t.update(id='t%d' % len(w['jobs']), twin=[j['id'], f'geo/{src[0]}', f'in/{n}'], geofile=n)
            pair = (f'geo/{src[0]}', f'in/{n}')
            t['swap'] = pair
        else:
            # another clone or dem on the same coordinates
            mn = 'T' + j['maps']
            if mn not in w['maps']:
                m = copy.deepcopy(w['maps'][j['maps']])
                m['flip'] = 1
                w['maps'][mn] = m
            f, f2 = (W.map_files('', q, w['maps'][q]) for q in (j['maps'], mn))
            k = 'dem' if j.get('corr') and rng.random() < 0.6 else 'clone'
            if f['clone'] == f['lat']:
                continue
            t = copy.deepcopy(j)
            pair = (f[k].lstrip('/'), f2[k].lstrip('/'))
            t.update(id='t%d' % len(w['jobs']), twin=[j['id'], pair[0], pair[1]])
            t['swap'] = pair
        t['out'] = 'o' + t['id']
        w['jobs'][t['id']] = t
        out.append(pair)
    return out


# ------------------------------------------------------------------------------------------ C06
class C06(Prop):
    """provenance of the table does not matter"""
    sane = True
    shrinkable = False
    runs_quick, runs_thorough, variants = 90, 3000, 5

    def make(self, rng, R, wi):
        modes = gen.MODES if rng.random() < 0.6 else ALLMODES
        b = gen.simple(rng, njobs=1, modes=modes, via=rng.choice((None, None, None, 'api')))
        w = b.w
        j = next(iter(w['jobs']))
        R.load(w)
        for v in range(self.variants):
            T = '@ROOT@/tables'
            UREG, GREG = '@ROOT@/home/.pyg2p/intertables.json', '@ROOT@/work/configuration/global/intertables.json'
            files = {'tables': set(), 'alt': set(), 'gtab': set()}      # tables by number, and in which form
            user = glob = None                                          # number of the table and form it is registered with
            phases, exp = [], []

            def found(N):
                reg = user or glob
                return bool(reg) and any((reg[0], q) in files[d] for d in (N or 'tables', 'gtab') for q in (('gz',) if reg[1] == 'gz' else ('gz', 'plain')))

            def create(N):
                nonlocal user
                reg = user or glob
                i = reg[0] if reg else 0
                while not reg and (i, 'gz') in files[N or 'tables']:
                    i += 1
                files[N or 'tables'].add((i, 'gz'))
                user = (i, 'gz')
            if rng.random() < 0.3:
                # nothing there yet
                phases.append(one_node([['job', j, {'B': False, 'out': 'none'}]]))
                exp.append([False])
            phases.append(one_node([['job', j, {'B': True, 'out': 'first'}]] + ([['job', j, {'B': rng.random() < 0.5, 'out': 'mem'}]] if rng.random() < 0.4 else [])))
            exp.append([True] * len(phases[-1]['nodes'][0]['items']))
            create(None)
            for k in range(rng.randint(1, 4)):
                pre = []
                held = [d for d in files if files[d]]
                x = rng.choice(('plain', 'gunzip', 'alt', 'back', 'global', 'lost', 'strip', 'lost', 'gunzip', 'copy', 'unreg', 'unreg'))
                if x == 'gunzip' and held:
                    d = rng.choice(held)
                    pre = [['gunzip', f'@ROOT@/{d}']]
                    files[d] = {(i, 'plain') for i, _ in files[d]}
                    # entries of compressed files do not find uncompressed ones: the user changes them too
                    if user:
                        pre.append(['stripgz', UREG])
                        user = user[0], 'plain'
                    if glob:
                        pre.append(['stripgz', GREG])
                        glob = glob[0], 'plain'
                elif x in ('alt', 'back', 'copy'):
                    a, c = ('alt', 'tables') if x == 'back' else ('tables', rng.choice(('alt', 'gtab')) if x == 'copy' else 'alt')
                    if files[a]:
                        pre = [['cpall' if x == 'copy' else 'mvall', f'@ROOT@/{a}', f'@ROOT@/{c}']]
                        files[c] |= files[a]
                        if x != 'copy':
                            files[a] = set()
                elif x == 'global' and user and files['tables']:
                    pre = [['mvall', '@ROOT@/tables', '@ROOT@/gtab'], ['toglobal', UREG, GREG]]
                    files['gtab'] |= files['tables']
                    files['tables'] = set()
                    user, glob = None, user
                elif x == 'strip' and user:
                    pre = [['stripgz', UREG]]
                    user = user[0], 'plain'
                elif x == 'lost' and held:
                    d = rng.choice(held)
                    pre = [['rmall', f'@ROOT@/{d}']]
                    files[d] = set()
                elif x == 'unreg':
                    # the table stays where it is, and nobody knows it
                    if user and (not glob or rng.random() < 0.7):
                        pre = [['rm', UREG]]
                        user = None
                    elif glob:
                        pre = [['rm', GREG]]
                        glob = None
                N = 'alt' if rng.random() < (0.7 if files['alt'] else 0.1) else None
                B = rng.random() < 0.35
                ok = found(N) or B
                if not found(N) and B:
                    create(N)
                o = {'B': B, 'out': f'p{k}'}
                if N:
                    o['N'] = N
                its = [['job', j, o]]
                e = [ok]
                if rng.random() < 0.3:
                    its.append(['job', j, dict(o, out=f'q{k}', B=False)])
                    e.append(ok)
                phases.append(one_node(its, pre=pre))
                exp.append(e)
            yield {'world': w, 'phases': phases, 'x': {'expect': exp}}

    def snapshot(self, R, case, pi, when):
        return tabstate(R)

    def judge(self, R, case, res):
        out = []
        for pi, P in enumerate(res.phases):
            rs = results_of(P, 'a')
            hold = True
            for k, it in enumerate(case['phases'][pi]['nodes'][0]['items']):
                g = R.golden(it[1])
                if not g['ok']:
                    return []
                r = rs[k] if rs else None
                ok = case['x']['expect'][pi][k]
                if ok and not (r and nodes.ok(r)):
                    out.append(('provenance', f'phase {pi}.{k} {case["phases"][pi]["pre"]} {it[2]}: fails: {describe(r)}'))
                elif not ok and r and nodes.ok(r):
                    out.append(('create', f'phase {pi}.{k} {case["phases"][pi]["pre"]}: succeeds without any table and without the create option'))
                elif ok:
                    d = result_vs_golden(R, P, it, r, g)
                    if d:
                        out.append(('provenance', f'phase {pi}.{k} {case["phases"][pi]["pre"]} {it[2]}: {d}'))
                hold = hold and not it[2].get('B')
            if hold and P['before'] != P['after']:
                ch = sorted(k for k in set(P['before']) | set(P['after']) if P['before'].get(k) != P['after'].get(k))
                out.append(('create', f'phase {pi}: tables or registrations changed without the create option: {ch}'))
            if out:
                break
        return out


# ------------------------------------------------------------------------------------------ C07
class C07(Prop):
    """parallel, split and broadcast computation"""
    sane = True
    collect = True
    runs_quick, runs_thorough, variants = 110, 4000, 4

    def make(self, rng, R, wi):
        modes = rng.choice((('grib_nearest', 'grib_invdist'), ('grib_nearest', 'grib_invdist'), ('nearest', 'invdist'), gen.EXOTIC))
        b = gen.simple(rng, njobs=1, modes=modes, via=rng.choice((None, None, None, 'api')))
        w = b.w
        J = w['jobs']['j0']
        grib = J['mode'].startswith('grib')
        xs = []
        for i in range(3):
            T = copy.deepcopy(J)
            T['id'] = f'x{i}'
            T['out'] = f'ox{i}'
            if grib or rng.random() < 0.6:
                T['X'] = True
            if not grib and (rng.random() < 0.7 or not T.get('X')):
                T['splits'] = rng.choice((1, 2, 3, 4, 5, 7, 13, 50))
            if J['mode'] in ('adw', 'cdd') and rng.random() < 0.5:
                T['bcast'] = True
            w['jobs'][T['id']] = T
            xs.append(T['id'])
        R.load(w)
        for x in xs:
            for v in range(self.variants if w['jobs'][x].get('X') else 1):
                o = {'dseed': rng.randrange(10**6)}
                if grib and rng.random() < 0.35:
                    o['fail_at'] = rng.randint(1, 12)
                yield {'world': w, 'phases': [one_node([['job', x, {}]], opts=o)]}

    def prep(self, R, case):
        R.load(case['world'])
        R.golden('j0')

    def judge(self, R, case, res):
        out = []
        g = R.golden('j0')
        if not g['ok']:
            return out
        P = res.phases[0]
        n = case['phases'][0]['nodes'][0]
        it = n['items'][0]
        J = R.world['jobs'][it[1]]
        rs = results_of(P, 'a')
        r = rs[0] if rs else None
        v = P['nodes']['a'].get('value') or {}
        killed = n['opts'].get('fail_at') and len(v.get('pool') or []) >= n['opts']['fail_at']
        what = f'{J["mode"]} X={J.get("X")} splits={J.get("splits")} broadcasting={J.get("bcast")}'
        reg = P['reg']
        if killed:
            if r and nodes.ok(r):
                out.append(('worker', f'{what}: a worker was killed but the run reports success'))
            # (of two grids, the table of the first one may have been complete)
            wrong = {i for i in reg if i not in g['reg'] or P['tables'].get(i) is None or table_equiv(P['tables'][i], g['tables'][i], J['mode'])}
            if wrong or len(reg) >= len(g['reg']):
                out.append(('worker', f'{what}: a worker was killed but {sorted(reg)} was registered'))
            if len(P['files']) > len(reg):
                out.append(('worker', f'{what}: a worker was killed but {P["files"]} was left'))
            return out
        if r is None or not nodes.ok(r):
            return [('parallel', f'{what}: fails ({describe(r)}) but the serial computation works')]
        soft = 1e-5 if J['mode'] in ('adw', 'cdd') else 1e-6
        # outputs
        if r[0] == 'arrays':
            d = cmp_soft_arrays(r[1], g['arrays'], soft)
        else:
            d = cmp_soft(P['out'][os.path.basename(R.outdir(it))], g['out'], soft)
        if d:
            out.append(('parallel', f'{what}: {d}'))
        if set(reg) != set(g['reg']):
            out.append(('parallel', f'{what}: registers {sorted(reg)} instead of {sorted(g["reg"])}'))
        for i in reg:
            if i in g['tables'] and g['tables'][i] is not None:
                t = P['tables'].get(i)
                d = 'no file' if t is None else table_equiv(t, g['tables'][i], J['mode'])
                if d:
                    out.append(('parallel', f'{what}: table {i}: {d}'))
        return out


def cmp_soft_arrays(a, b, soft):
    import numpy as np
    if [k for k, _ in a] != [k for k, _ in b]:
        return f'steps {[k for k, _ in a]} instead of {[k for k, _ in b]}'
    for (k, x), (_, y) in zip(a, b):
        d = field_soft(x, y, soft)
        if d:
            return f'step {k}: {d}'


def field_soft(x, y, soft):
    import numpy as np
    x, y = np.asarray(x, 'f8'), np.asarray(y, 'f8')
    if x.shape != y.shape:
        return f'shape {x.shape} instead of {y.shape}'
    big = np.abs(y)
    big = big[np.isfinite(big) & (big < 1e30)]
    tol = soft * (big.max() if big.size else 1) + 1e-9
    with np.errstate(invalid='ignore', over='ignore'):
        ok = (np.abs(x - y) <= tol) | (np.isnan(x) & np.isnan(y)) | (x == y)
    if ok.all():
        return None
    i = tuple(int(q) for q in np.argwhere(~ok)[0])
    return f'{int((~ok).sum())} of {ok.size} values differ, first at {i}: {x[i]!r} instead of {y[i]!r}'


def cmp_soft(a, b, soft):
    d = outputs.same(a, b)
    if d is None:
        return None
    if sorted(a) != sorted(b):
        return d
    for n in a:
        if a[n][0] != b[n][0] or a[n][0] == 'bad':
            return d
        if a[n][0] == 'pcr':
            q = field_soft(a[n][1], b[n][1], soft)
            if q:
                return f'{n}: {q}'
        else:
            if a[n][1]['dims'] != b[n][1]['dims'] or sorted(a[n][1]['vars']) != sorted(b[n][1]['vars']):
                return d
            for k in a[n][1]['vars']:
                u, v = a[n][1]['vars'][k]['data'], b[n][1]['vars'][k]['data']
                q = field_soft(u, v, soft if u.dtype.kind == 'f' else 1.0 / max(1, abs(float(v.max()) if v.size else 1)))
                if q:
                    return f'{n}:{k}: {q}'
    return None


def table_equiv(a, b, mode):
    """same effective weights: for methods that may cut ties differently on cell borders"""
    import numpy as np
    d = outputs.table_diff(a, b)
    if d is None or not a.dtype.names or mode not in ('adw', 'cdd', 'bilinear', 'triangulation', 'bilinear_delaunay') or a.dtype != b.dtype or a.shape != b.shape:
        return d
    ai, bi, ac, bc = a['indexes'], b['indexes'], a['coeffs'], b['coeffs']
    bad = np.where((ai != bi).any(axis=-1) | ~np.isclose(ac, bc, rtol=1e-4, atol=1e-6).all(axis=-1))
    for r in zip(*bad):
        u, v = {}, {}
        for i, c in zip(ai[r], ac[r]):
            u[int(i)] = u.get(int(i), 0) + float(c)
        for i, c in zip(bi[r], bc[r]):
            v[int(i)] = v.get(int(i), 0) + float(c)
        for i in set(u) | set(v):
            if abs(u.get(i, 0) - v.get(i, 0)) > 1e-4:
                return f'row {tuple(map(int, r))}: weights {u} instead of {v}'
    return None


# ------------------------------------------------------------------------------------------ C08
class C08(Prop):
    """order of messages, access path, damaged input"""
    runs_quick, runs_thorough, variants = 90, 3000, 12

    def make(self, rng, R, wi):
        b = gen.simple(rng, njobs=1, modes=gen.MODES, via=rng.choice((None, None, None, 'api')))
        w = b.w
        J = w['jobs']['j0']
        I = w['inputs'][J['input']]
        if rng.random() < 0.3:
            instant_zero(rng, b, J)
        n = len(I['msgs'])
        perms, cuts, bads = [], [], []
        for i in range(4):
            o = list(range(n))
            rng.shuffle(o)
            if i == 0:
                o = o if rng.random() < 0.5 else list(reversed(range(n)))
            name = f'perm{i}_{J["input"]}'
            w['inputs'][name] = dict(copy.deepcopy(I), order=o)
            perms.append(self.twin(w, J, name))
        for i in range(4):
            name = f'cut{i}_{J["input"]}'
            w['inputs'][name] = dict(copy.deepcopy(I), cutmsg=[rng.randrange(n), rng.choice((0.001, 0.02, 0.3, 0.5, 0.9, 0.999, rng.random()))])
            cuts.append(self.twin(w, J, name))
        R.load(w)
        g = R.golden('j0')
        for t in perms:
            yield {'world': w, 'phases': [one_node([['job', t, {}]])], 'x': {'perm': True}}
            f = {'node': 'a', 'ops': ['open_r'], 'path': f'/in/{w["jobs"][t]["input"]}', 'nth': 1, 'kind': 'errno', 'errno': rng.choice((E.EMFILE, E.EIO, E.ENOMEM, E.EACCES))}
            yield {'world': w, 'phases': [one_node([['job', t, {}]], [f])], 'x': {'perm': True}}
        for t in cuts:
            yield {'world': w, 'phases': [one_node([['job', t, {}]])], 'x': {'cut': True}}
        for f in sorted(set(W.map_files('', J['maps'], w['maps'][J['maps']]).values())):
            ph = one_node([['job', 'j0', {}]], pre=[['cut', '@ROOT@' + f, rng.choice((0.02, 0.3, 0.9, 0.999, rng.random()))]])
            yield {'world': w, 'phases': [ph], 'x': {}}
        for v in range(self.variants // 2):
            f = {'node': 'a', 'ops': ['open_r'], 'path': '/in/', 'nth': rng.choice((1, 1, 2, 2, 3)), 'kind': rng.choice(('errno', 'readerr', 'readerr')), 'errno': E.EIO,
                 'bytes': rng.choice((0, 1, 8, 100, 300, 1000, rng.randrange(4000)))}
            fs = [f]
            if rng.random() < 0.5 and f['nth'] > 1:
                fs.insert(0, {'node': 'a', 'ops': ['open_r'], 'path': '/in/', 'nth': 1, 'kind': 'errno', 'errno': E.EIO})
            if rng.random() < 0.4:
                fs = [{'node': 'a', 'ops': ['read'], 'path': '/in/', 'nth': rng.randint(1, 6), 'kind': rng.choice(('errno', 'short')), 'errno': E.EIO, 'frac': 0.3}] + fs[:1]
            yield {'world': w, 'phases': [one_node([['job', 'j0', {}]], fs)], 'x': {}}

    def twin(self, w, J, name):
        T = copy.deepcopy(J)
        T.update(id=f'p{len(w["jobs"])}', input=name)
        T['out'] = 'o' + T['id']
        w['jobs'][T['id']] = T
        return T['id']

    def prep(self, R, case):
        R.load(case['world'])
        R.golden('j0')

    def judge(self, R, case, res):
        out = []
        g = R.golden('j0')
        P = res.phases[0]
        it = case['phases'][0]['nodes'][0]['items'][0]
        rs = results_of(P, 'a')
        r = rs[0] if rs else None
        if not g['ok']:
            if r and nodes.ok(r) and not P['faults'] and case['x'].get('perm'):
                out.append(('order', f'{it[1]}: succeeds with messages in order {R.world["inputs"][R.world["jobs"][it[1]]["input"]].get("order")} but fails in order of steps: {describe(g["result"])}'))
            return out
        I = R.world['inputs'][R.world['jobs'][it[1]]['input']]
        if case['x'].get('cut'):
            if r and nodes.ok(r):
                out.append(('damaged', f'{it[1]}: input cut off inside message {I["cutmsg"][0]} of {len(I["msgs"])} (at {I["cutmsg"][1]:.3f} of it) is accepted: {describe(r)}'))
            return out
        if r and nodes.ok(r):
            d = result_vs_golden(R, P, it, r, g)
            if d:
                how = f'messages in order {I.get("order")}' if case['x'].get('perm') else 'input that could not be read completely'
                out.append(('order' if not P['faults'] else 'damaged', f'{it[1]}: {how}, {"faults " + str(P["faults"]) if P["faults"] else ""}: success but {d}'))
        elif not P['faults'] and not case['phases'][0]['pre']:
            out.append(('order', f'{it[1]}: fails with messages in order {I.get("order")}: {describe(r)}'))
        return out


def instant_zero(rng, b, J):
    """an accumulated field whose message for step 0 is instantaneous, and an aggregation that is not there for accumulated fields"""
    I = b.w['inputs'][J['input']]
    own = [m for m in I['msgs'] if m['sn'] == J['param']]
    if own[-1]['st'] != 'accum' or I['grid'].get('edition') != 1 or any(m.get('pert') for m in I['msgs']):
        return
    z = min(own, key=lambda m: m['s1'])
    if z['s1']:
        z = dict(z, s0=0, s1=0, st='instant')
        I['msgs'].insert(0, z)
    J['aggr'] = {'type': rng.choice(('average', 'instantaneous')), 'step': own[-1]['s1'] - own[-2]['s1'] if len(own) > 1 and own[-2]['s1'] != own[-1]['s1'] else own[-1]['s1']}
    for k in ('tstart', 'tend', 'c_start', 'c_end'):
        J.pop(k, None)


# ------------------------------------------------------------------------------------------ C09
class C09(Prop):
    """downloads"""
    sane = True
    watch = ('download',)
    runs_quick, runs_thorough, variants = 60, 2500, 24

    def make(self, rng, R, wi):
        w = {'maps': {}, 'inputs': {}, 'jobs': {}, 'user': {'ftp.json': {'description': 'x', 'host': 'ftp.example.org', 'folder': 'pub', 'user': 'me', 'pwd': 'secret'}}}
        ds = rng.choice(('intertables', 'geopotentials'))
        files = {}
        for i in range(rng.randint(1, 6)):
            files[f'{"tbl" if ds == "intertables" else "geo"}_{i}.{"npy.gz" if ds == "intertables" else "grb"}'] = [rng.randrange(10**6), rng.choice((0, 1, 100, 5000, 20000, 70000))]
        for n in list(files):
            # names that have much in common
            if rng.random() < 0.15:
                files[rng.choice((n + '.gz', n[:-3] if n.endswith('.gz') else n + '2', n.upper(), 'x' + n, n + '.txt', n[:-1]))] = [rng.randrange(10**6), rng.choice((0, 1, 100, 5000))]
        d = 'tables' if ds == 'intertables' else 'geo'
        for n in list(files):
            if rng.random() < 0.2:
                w.setdefault('blobs', {})[f'{d}/{n}'] = files[n] if rng.random() < 0.5 else [files[n][0] + 1, rng.choice((0, 10, 400))]
        if rng.random() < 0.3:
            w.setdefault('blobs', {})[f'{d}/other.npy'] = [3, 77]
        R.load(w)
        clean = ['ftp', ['-W', ds], {'files': files, 'extra': rng.choice(([], ['readme.txt'], ['.', '..'])), 'seed': rng.randrange(100)}]
        tr = dry_trace(R, w, [clean])
        for v in range(self.variants):
            phases = []
            for _ in range(rng.choice((1, 1, 2, 3))):
                c = copy.deepcopy(clean)
                ph = one_node([c])
                x = rng.random()
                if x < 0.6:
                    k = rng.choice(('refuse', 'hang', 'login', 'cwd', 'nlst', 'drop', 'drop', 'drop', 'abort', 'abort', 'stall', 'stall', 'noreply', 'noreply', 'missing', 'ctrl', 'refuse_data'))
                    n = rng.randint(1, len(files) + (1 if k == 'refuse_data' else 0)) if k in ('drop', 'abort', 'stall', 'noreply', 'missing', 'ctrl', 'refuse_data') else 1
                    c[2]['faults'] = [{'kind': k, 'n': n, 'frac': rng.choice((0, 0.01, 0.5, 0.99, rng.random()))}]
                if x > 0.45:
                    op = choose_op(rng, tr, (f'/{d}/',))
                    ph['plan']['faults'] = [mkfault(rng, op, 'a', rng.choice((('crash',), ('errno', 'full', 'short'))), power=True)]
                if rng.random() < 0.15:
                    ph['nodes'].append({'name': 'b', 'items': [copy.deepcopy(clean)], 'opts': {}, 'seed': 5})
                    ph['plan'].update(sched(rng, 2))
                phases.append(ph)
            phases.append(one_node([clean]))
            yield {'world': w, 'phases': phases, 'x': {'dir': d, 'files': files}}

    def judge(self, R, case, res):
        out = []
        if len(res.phases) < len(case['phases']):
            return out
        P = res.phases[-1]
        rs = results_of(P, 'a')
        if not rs or not nodes.ok(rs[0]):
            out.append(('retry', f'undisturbed download after the faults fails: {describe(rs[0] if rs else None)}'))
            return out
        d = case['x']['dir']
        for n, s in case['x']['files'].items():
            p = f'{R.live}/{d}/{n}'
            want = ftpsim.content(R.world.get('blobs', {}).get(f'{d}/{n}', s))
            if not os.path.isfile(p):
                out.append(('retry', f'{n} is missing after an undisturbed download'))
            elif open(p, 'rb').read() != want:
                out.append(('retry', f'{n} holds {os.path.getsize(p)} bytes that are not the {len(want)} expected'))
        for n, s in R.world.get('blobs', {}).items():
            p = f'{R.live}/{n}'
            if not os.path.isfile(p) or open(p, 'rb').read() != ftpsim.content(s):
                out.append(('present', f'{n}, which was there before, was changed'))
        for pi, Q in enumerate(res.phases):
            for n in Q['spec']['nodes']:
                it = n['items'][0]
                q = results_of(Q, n['name'])
                if q and nodes.ok(q[0]) and any(f['kind'] not in ('refuse_data',) or True for f in it[2].get('faults', [])) and Q['after']:
                    out.append(('complete', f'phase {pi}: download reports success but {Q["after"]} are missing'))
        return out

    def snapshot(self, R, case, pi, when):
        if 'x' not in case:
            return []
        d = case['x']['dir']
        return [n for n in case['x']['files'] if not os.path.isfile(f'{R.live}/{d}/{n}')]


# ------------------------------------------------------------------------------------------ C10
class C10(Prop):
    """adding geopotentials"""
    sane = True
    watch = ('geo', 'conf', 'ackgeo')
    runs_quick, runs_thorough, variants = 70, 2500, 16

    def make(self, rng, R, wi):
        b = gen.G(rng)
        g0 = b.grid()
        reg = [b.geo(b.grid(), name=f'old{i}.grb', register='user') for i in range(rng.randint(0, 2))]
        shared = [b.geo(b.grid(), name=f'glo{i}.grb', register='global', dirn='ggeo') for i in range(rng.choice((0, 0, 1)))]
        geos = [spare_geo(rng, b, g0)]
        if shared and rng.random() < 0.8:
            geos.append(samename(rng, b, shared[0]))
        for _ in range(rng.randint(1, 3)):
            x = rng.random()
            if x < 0.4:
                geos.append(spare_geo(rng, b))
            elif x < 0.75:
                geos.append(samename(rng, b, rng.choice(geos + reg)))
            else:
                # another file for the same grid
                o = rng.choice(geos)
                geos.append(spare_geo(rng, b, b.w['inputs'][o]['grid']))
        if rng.random() < 0.4:
            n = spare_geo(rng, b)
            b.w['inputs'][n]['dir'] = 'geo'       # the user put it into the folder himself
            geos.append(n)
        bad = []
        if rng.random() < 0.5:
            bad.append(b.input(b.grid(), sn='2t', name='nogeo.grb', mask_p=0))
        job = None
        if rng.random() < 0.5:
            i = b.input(g0, sn='2t', mask_p=0)
            m = b.maps(g0)
            b.geo(g0, name='tmp.grb')      # only so that job() does not register another one
            job = b.job(i, m, mode=rng.choice(('nearest', 'grib_nearest')), corr=True, via='cli')['id']
            del b.w['user']['geopotentials.json'][gen.gridid(g0)]
            del b.w['inputs']['tmp.grb']
        if rng.random() < 0.3:
            # known to the shared configuration already
            gid = gen.gridid(b.w['inputs'][rng.choice(geos)]['grid'])
            if gid != gen.gridid(g0):
                b.w.setdefault('global_geo', {})[gid] = rng.choice(('glob.grb', 'new0.grb'))
        w = b.w
        R.load(w)
        for v in range(self.variants):
            phases = []
            for _ in range(rng.choice((1, 2, 2, 3))):
                nn = rng.choice((1, 1, 1, 2))
                ns = []
                for i in range(nn):
                    its = []
                    for _ in range(rng.choice((1, 1, 2))):
                        x = rng.random()
                        if x < 0.08 and reg:
                            its.append(['rmgeo', rng.choice(reg)])
                        elif x < 0.2 and bad:
                            its.append(['addgeo', bad[0]])
                        else:
                            n = rng.choice(geos)
                            its.append(['addgeo', n] if rng.random() < 0.5 else ['cfg', ['-g', f'@ROOT@/{where(w, n)}'], n])
                    ns.append({'name': 'ab'[i], 'items': its, 'opts': {}, 'seed': 1 + i})
                ph = {'pre': [], 'nodes': ns, 'plan': sched(rng, nn)}
                if rng.random() < 0.75:
                    ph['plan']['faults'] = place(rng, R, w, ns, ('/geo/', 'geopotentials.json'), rng.choice((('crash',), ('errno', 'full', 'short'), ('crash', 'errno', 'full', 'short'))), power=True)
                phases.append(ph)
            last = []
            for n in rng.sample(geos, min(len(geos), 2)):
                last.append(['addgeo', n] if rng.random() < 0.5 else ['cfg', ['-g', f'@ROOT@/{where(w, n)}'], n])
            phases.append(one_node(last))
            yield {'world': w, 'phases': phases, 'x': {'bad': bad}}

    def prep(self, R, case):
        R.load(case['world'])

    def snapshot(self, R, case, pi, when):
        x = outputs.read_json(f'{R.live}/home/.pyg2p/geopotentials.json')
        return {k: v for k, v in x[1].items() if k != 'description'} if x and x[0] == 'ok' else {}

    @staticmethod
    def name(it):
        if it[0] == 'addgeo':
            return it[1]
        if it[0] == 'cfg' and '-g' in it[1]:
            return it[2] if len(it) > 2 else os.path.basename(it[1][1])
        return None

    def judge(self, R, case, res):
        out = []
        w = case['world']
        glob = w.get('global_geo') or {}
        for pi, P in enumerate(res.phases):
            before, after = P['before'], P['after']
            tried = set()
            wellok = {}
            for n in P['spec']['nodes']:
                rs = results_of(P, n['name'])
                hit = faulted_items(P, n['name'])
                for k, it in enumerate(n['items']):
                    name = self.name(it)
                    if name is None:
                        continue
                    r = rs[k] if rs else None
                    gid = res.mon.geoid(name)
                    isgeo = name not in case['x']['bad']
                    tried.add(gid)
                    if not isgeo:
                        if r and nodes.ok(r):
                            out.append(('add', f'phase {pi}: {name}, which holds no geopotential, was added'))
                        continue
                    if r and nodes.ok(r):
                        wellok.setdefault(gid, []).append(name)
                        if gid not in after and not any(i[0] == 'rmgeo' for m in P['spec']['nodes'] for i in m['items']):
                            out.append(('add', f'phase {pi}: {name} was reported as added but its grid is not registered'))
                    elif r and not hit and not P['faults'] and gid not in before and gid not in glob and len(P['spec']['nodes']) == 1 and gid not in wellok:
                        out.append(('add', f'phase {pi}: {name} cannot be added: {describe(r)}'))
            for gid in set(after) - set(before):
                if gid not in tried:
                    out.append(('add', f'phase {pi}: {gid} was registered by nobody'))
            for gid, l in wellok.items():
                if len(l) > 1 or gid in before or gid in glob:
                    out.append(('add', f'phase {pi}: {l} reported as added although {gid} was registered already'))
                elif gid in after:
                    p = f'{R.live}/geo/{after[gid]}'
                    src = open(W.inpath(R.tmpl, w, l[0]), 'rb').read()
                    if pi == len(res.phases) - 1 and (not os.path.isfile(p) or open(p, 'rb').read() != src):
                        out.append(('add', f'phase {pi}: {gid} names {after[gid]}, which is not a copy of {l[0]}'))
            files = {}
            for gid, f in after.items():
                if f in files and not f.startswith('some'):
                    out.append(('add', f'phase {pi}: {gid} and {files[f]} share the file {f}'))
                files[f] = gid
        return out


# ------------------------------------------------------------------------------------------ C11
class C11(Prop):
    """handles and files are released"""
    sane = True
    runs_quick, runs_thorough, variants = 80, 3000, 14

    def make(self, rng, R, wi):
        b = gen.simple(rng, njobs=rng.choice((1, 2)), modes=gen.MODES, via=rng.choice((None, None, 'api', 'api')))
        if rng.random() < 0.4:
            corr_family(rng, b)
        bad = failing_jobs(rng, b)
        geos = [spare_geo(rng, b)]
        geos.append(b.input(b.grid(), sn='2t', name='nogeo.grb', mask_p=0))
        w = b.w
        R.load(w)
        good = [j for j in w['jobs'] if j not in bad]
        for v in range(self.variants):
            its = []
            for k in range(rng.choice((1, 1, 2, 3))):
                x = rng.random()
                if x < 0.15:
                    its.append(['job', rng.choice(bad), {'out': f's{k}'}])
                elif x < 0.3:
                    its.append(['addgeo', rng.choice(geos)])
                else:
                    its.append(['job', rng.choice(good), {'out': f's{k}', 'B': rng.random() < 0.9}])
            ph = one_node(its, opts={'ledger': True})
            if rng.random() < 0.85:
                tr = dry_trace(R, w, its)
                op = choose_op(rng, tr, rng.choice((None, ('/in/', '/geo/'), ('/maps/', '/tables/'), ('/out/',))))
                ph['plan']['faults'] = [mkfault(rng, op, 'a', ('errno', 'errno', 'short', 'full'))]
            yield {'world': w, 'phases': [ph]}

    def prep(self, R, case):
        R.load(case['world'])

    def judge(self, R, case, res):
        out = []
        P = res.phases[0]
        r = P['nodes']['a']
        if r['kind'] != 'ok':
            return out
        v = r['value']
        # when the output libraries (HDF5, libcsf) can't write what they still hold, closing fails and they keep the file:
        # nothing a caller can do about, so outputs whose writes were made to fail are left out
        # the same holds for a netCDF map that HDF5 couldn't read when opening it
        hit = {f[3] for f in P['faults'] if f[2] == 'close' or f[3].startswith('/out/') or f[3].endswith('.nc')}
        its = case['phases'][0]['nodes'][0]['items']
        for k, (l, fd) in enumerate(zip(v['ledger'], v['fds'])):
            it = its[k]
            what = f'item {k} {it[:2]} ({describe(v["results"][k])})'
            if l['live']:
                out.append(('handles', f'{what}: {l["live"]} {"/".join(l["kinds"])} still open'))
            if l['bad']:
                out.append(('handles', f'{what}: released {l["bad"]}'))
            fd = [p for p in fd if p not in hit]
            if fd:
                out.append(('files', f'{what}: still open: {fd}'))
            if out:
                break
        return out


# ------------------------------------------------------------------------------------------ C12
class C12(Prop):
    """containment"""
    sane = True
    watch = ('contain',)
    runs_quick, runs_thorough, variants = 70, 2500, 12

    def make(self, rng, R, wi):
        b = gen.simple(rng, njobs=rng.choice((1, 2)), modes=rng.choice((gen.MODES, gen.MODES, ALLMODES)), via=rng.choice((None, None, 'api')))
        if rng.random() < 0.4:
            corr_family(rng, b)
        if rng.random() < 0.4:
            rich_user(rng, b)
        failing_jobs(rng, b)
        geos = [spare_geo(rng, b) for _ in range(2)]
        b.w.setdefault('user', {})['ftp.json'] = {'description': 'x', 'host': 'h', 'folder': 'pub', 'user': 'me', 'pwd': 'p'}
        w = b.w
        for d in ('tables', 'gtab', 'alt', 'geo', 'ggeo', 'out'):
            # what others keep there
            for n in ('notes.txt', 'mine.npy', 'tbl_other.npy.gz', 'x.new', 'z.grb'):
                if rng.random() < 0.2:
                    w.setdefault('blobs', {})[f'{d}/{n}'] = [rng.randrange(10**6), rng.choice((0, 20, 200, 3000))]
        R.load(w)
        for v in range(self.variants):
            phases = []
            for q in range(rng.choice((1, 1, 2))):
                its = []
                for k in range(rng.choice((1, 1, 2))):
                    x = rng.random()
                    if x < 0.7:
                        its.append(['job', rng.choice(list(w['jobs'])), {'out': f's{q}{k}', 'B': rng.random() < 0.5}])
                        if its[-1][2]['B'] and rng.random() < 0.15:
                            its[-1][2]['N'] = 'alt'
                    elif x < 0.93:
                        its.append(conf_item(rng, w, geos, jobs=[j for j in w['jobs'] if not j.startswith('f')]))
                        if its[-1][0] == 'rmgeo':
                            its[-1] = ['cfg', ['-K']]
                    else:
                        ds = rng.choice(('intertables', 'geopotentials'))
                        its.append(['ftp', ['-W', ds], {'files': {'d0': [1, 300], 'd1': [2, 6000], 'notes.txt': [3, 50]}, 'faults': rng.choice(([], [{'kind': 'drop', 'n': 2}]))}])
                ph = one_node(its)
                if q and rng.random() < 0.4:
                    ph['pre'] = [['gunzip', '@ROOT@/tables'], ['stripgz', '@ROOT@/home/.pyg2p/intertables.json']]
                if rng.random() < 0.75:
                    tr = dry_trace(R, w, its)
                    op = choose_op(rng, tr)
                    if op:
                        ph['plan']['faults'] = [mkfault(rng, op, 'a', ('errno', 'full', 'short', 'crash'))]
                phases.append(ph)
            yield {'world': w, 'phases': phases}

    def prep(self, R, case):
        R.load(case['world'])

    def snapshot(self, R, case, pi, when):
        import hashlib
        out = tabstate(R)
        for d in ('geo', 'ggeo', 'geo2', 'out'):
            for n in sorted(os.listdir(f'{R.live}/{d}')):
                if os.path.isfile(f'{R.live}/{d}/{n}'):
                    with open(f'{R.live}/{d}/{n}', 'rb') as f:
                        out[f'{d}/{n}'] = hashlib.sha1(f.read()).hexdigest()
        for d in ('geopotentials.json', 'parameters.json', 'ftp.json'):
            x = outputs.read_json(f'{R.live}/home/.pyg2p/{d}')
            for k, v in (x[1] if x and x[0] == 'ok' else {}).items():
                if k != 'description':
                    out[f'{d} {k}'] = json.dumps(v, sort_keys=True)
        return out

    def judge(self, R, case, res):
        out = []
        for pi, P in enumerate(res.phases):
            for o in P['outside']:
                out.append(('contain', f'phase {pi}: {o[1]} {o[2]} outside the world'))
            its = [it for n in P['spec']['nodes'] for it in n['items']]
            may = any(it[0] == 'ftp' or (it[0] == 'job' and item_B(R, it)) for it in its)
            kill = any(it[0] == 'cfg' and '-K' in it[1] for it in its)
            geo = any(it[0] == 'addgeo' or (it[0] == 'cfg' and '-g' in it[1]) or (it[0] == 'ftp' and 'geopotentials' in it[1]) for it in its)
            changed = sorted(k for k in set(P['before']) | set(P['after']) if P['before'].get(k) != P['after'].get(k))
            # what was there stays as it was: nothing but the registrations of lost tables may go or change
            # (names of new files are random: those of a killed run return here, as its seed does)
            made = {t[2] for Q in res.phases[:pi] for t in Q['trace'] if t[1] == 'open_w'}
            ch = [k for k in changed if k in P['before'] and not k.startswith('reg ') and not (geo and k.startswith('geo/')) and not any(k.split('/')[-1] == os.path.basename(b) for b in made)]
            if ch:
                out.append(('contain', f'phase {pi}: {ch} changed or removed'))
            ch = [k for k in changed if k.startswith(('geo', 'ggeo')) and not geo]
            if ch:
                out.append(('contain', f'phase {pi}: {ch} changed by commands that have nothing to do with it'))
            if not may:
                ch = [k for k in changed if k.startswith(('reg ', 'tables/', 'alt/', 'gtab/'))]
                if kill:
                    ch = [k for k in ch if not (k.startswith('reg ') and k not in P['after'])]
                if ch:
                    out.append(('create', f'phase {pi}: {ch} changed without the create option'))
        return out


def item_B(R, it):
    o = it[2] if len(it) > 2 else {}
    return o.get('B', R.world['jobs'][it[1]].get('B'))


# ------------------------------------------------------------------------------------------ C13
class C13(Prop):
    """environment independence"""
    sane = True
    collect = True
    runs_quick, runs_thorough, variants = 90, 3000, 4
    partner = True

    def make(self, rng, R, wi):
        b = gen.simple(rng, njobs=rng.choice((1, 2, 2)), modes=rng.choice((gen.MODES, gen.MODES, ALLMODES)), nmaps=rng.choice((1, 2)), via=rng.choice((None, None, None, 'api')), corr_p=0.5)
        w = b.w
        for i in list(w['inputs'].values()):
            # files in which two fields might serve as geopotential: always the same one has to
            if i.get('dir') in ('geo', 'ggeo') and len(i['msgs']) == 1 and rng.random() < 0.6:
                i['msgs'].insert(rng.randrange(2), dict(i['msgs'][0], sn='orog', seed=i['msgs'][0]['seed'] + 1))
        if rng.random() < 0.6:
            overlapping_confs(rng, b)
        if rng.random() < 0.5:
            rich_user(rng, b)
        R.load(w)
        for v in range(self.variants):
            nn = rng.choice((1, 1, 2))
            jobs = [rng.choice(list(w['jobs'])) for _ in range(nn)]
            phs = []
            its = [['job', j, {'B': True, 'out': f'n{i}'}] for i, j in enumerate(jobs)]
            phs.append(one_node(its))
            phs.append(one_node([['job', jobs[0], {'B': False, 'out': 'again'}]] + ([['cfg', ['-K']]] if rng.random() < 0.3 else [])))
            env = [{}]
            for e in range(2):
                p = {'dirseeds': True, 'skews': {'a': rng.choice((0, -10**9 * 86400 * 30, 10**9 * 86400 * 400, -1_590_000_000 * 10**9, 10**9 * 7_000_000_000 // 10, rng.randrange(-10**18, 10**18)))},
                     'jumps': [[rng.randrange(5, 400), rng.choice((-3600 * 10**9, 86400 * 10**9, -5 * 10**9, 10**9 * 3600 * 24 * 365))] for _ in range(rng.randint(0, 3))]}
                env.append({'plan': p, 'seed': rng.randrange(2, 10**6), 'dseed': 1, 'pad': rng.randint(0, 5), 'env': rng.choice(({}, {'TZ': 'Asia/Tokyo'}, {'TZ': 'America/New_York'}, {'TZ': 'Australia/Sydney'}, {'TZ': 'CET-1CEST,M3.5.0,M10.5.0'}))})
            yield {'world': w, 'phases': phs, 'x': {'envs': env, 'partner': rng.choice(('4242', '3', '8', '1')) if rng.random() < 0.8 else None}}

    def prep(self, R, case):
        R.load(case['world'])

    def judge(self, R, case, res):
        """res is the first environment; the others are run here"""
        out = []
        a = observe(R, res)
        for k, e in enumerate(case['x']['envs'][1:]):
            c = env_case(case, e)
            if k == 0 and case['x'].get('partner') and R.partner is not None:
                b = R.partner(c, case['x']['partner'])
            else:
                r2 = R.run(c, self.watch, self)
                b = observe(R, r2)
            d = obs_diff(a, b)
            if d:
                out.append(('environment', f'{d}; environment {json.dumps(e)}'))
                break
        return out


def env_case(case, e):
    c = copy.deepcopy({k: v for k, v in case.items() if k != 'x'})
    for ph in c['phases']:
        ph['plan'].update(e.get('plan', {}))
        for n in ph['nodes']:
            n['seed'] = e.get('seed', 1)
            n['opts'] = dict(n.get('opts') or {}, env=e.get('env') or {})
        ph['pad'] = e.get('pad', 0)
    return c


def observe(R, res):
    """everything a run leaves, except what may depend on the clock"""
    o = []
    for P in res.phases:
        q = {'status': P['status'], 'res': {}, 'out': P['out'], 'docs': P['docs']}
        for n in P['spec']['nodes']:
            rs = results_of(P, n['name'])
            q['res'][n['name']] = [(r[0], r[1]) if r[0] == 'rc' else (r[0], r[1]) for r in rs] if rs else None
        o.append(q)
    return {'phases': o, 'tables': res.phases[-1]['tabs'] if res.phases else {}}


def obs_diff(a, b):
    for pi, (x, y) in enumerate(zip(a['phases'], b['phases'])):
        if x['status'] != y['status']:
            return f'phase {pi} ends with {x["status"]} in one environment and {y["status"]} in another'
        for n in x['res']:
            u, v = x['res'][n], y['res'][n]
            if (u is None) != (v is None):
                return f'phase {pi}: {n} ends early in one environment only'
            for k, (r, s) in enumerate(zip(u or [], v or [])):
                if r[0] != s[0] or (r[0] in ('rc', 'exc') and r[1] != s[1]):
                    return f'phase {pi}: item {k} gives {describe(r + ("", "")) if r[0] != "arrays" else "arrays"} in one environment and {describe(s + ("", "")) if s[0] != "arrays" else "arrays"} in another'
                if r[0] == 'arrays':
                    d = arrays_diff(r[1], s[1], 0)
                    if d:
                        return f'phase {pi}: item {k}: {d}'
        for o in x['out']:
            d = outputs.same(x['out'][o] or {}, y['out'][o] or {}, 0)
            if d:
                return f'phase {pi}: output {o}: {d}'
        if x['docs'] != y['docs']:
            for k in x['docs']:
                if x['docs'][k] != y['docs'].get(k):
                    return f'phase {pi}: {k} is {str(x["docs"][k])[:300]} in one environment and {str(y["docs"].get(k))[:300]} in another'
    if sorted(a['tables']) != sorted(b['tables']):
        return f'table files {sorted(a["tables"])} in one environment and {sorted(b["tables"])} in another'
    for k in a['tables']:
        if a['tables'][k] is not None and b['tables'][k] is not None:
            d = outputs.table_diff(a['tables'][k], b['tables'][k])
            if d:
                return f'table {k}: {d}'
    return None


def overlapping_confs(rng, b):
    """several settings files that define the same variables; the result must not depend on listing order"""
    c = b.w.setdefault('confs', {})
    ms = list(b.w['maps'])
    names = ['a.conf', 'b.conf', 'zz.conf', 'M.conf', '0.conf', 'notes.txt']
    rng.shuffle(names)
    for n in names[:rng.randint(2, 4)]:
        t = '# settings\n'
        if rng.random() < 0.8:
            t += f'WHERE={"@ROOT@/maps/" + rng.choice(ms)}\n'
        if rng.random() < 0.5:
            t += f'MAPS={rng.choice(("@ROOT@/maps", "@ROOT@/./maps", "@ROOT@/nomaps"))}\n'
        if rng.random() < 0.3:
            t += f'INTERTABLES={rng.choice(("@ROOT@/tables", "@ROOT@/alt"))}\n'
        c[n] = t
    for j in b.w['jobs'].values():
        if rng.random() < 0.7 and j['via'] != 'api':
            j['usevars'] = rng.choice((True, 'WHERE'))


# ------------------------------------------------------------------------------------------ C14
def outfor(i, j):
    return ['job', j, {'B': True, 'out': f'n{i}{j}'}]


class C14(Prop):
    """recovery"""
    sane = True
    watch = ('conf',)
    runs_quick, runs_thorough, variants = 80, 3000, 11

    def make(self, rng, R, wi):
        b = gen.simple(rng, njobs=rng.choice((1, 1, 2)), modes=rng.choice((gen.MODES, gen.MODES, gen.MODES, ALLMODES)), via=rng.choice((None, None, None, 'api')))
        if rng.random() < 0.4:
            rich_user(rng, b)
        w = b.w
        w.setdefault('user', {}).setdefault('ftp.json', {'description': 'x', 'host': 'ftp.example.org', 'folder': 'pub', 'user': 'me', 'pwd': 'secret'})
        geos = [spare_geo(rng, b)]
        geos.append(samename(rng, b, geos[0]) if rng.random() < 0.5 else spare_geo(rng, b))
        R.load(w)
        for v in range(self.variants):
            phases = []
            if v % 4 == 3:
                # a command about the configuration
                if rng.random() < 0.5:
                    n = rng.choice(geos)
                    it = ['addgeo', n] if rng.random() < 0.5 else ['cfg', ['-g', f'@ROOT@/{where(w, n)}'], n]
                else:
                    ds = rng.choice(('intertables', 'geopotentials'))
                    it = ['ftp', ['-W', ds], {'files': {f'd{i}': [rng.randrange(10**6), rng.choice((0, 100, 5000, 70000))] for i in range(rng.randint(1, 4))}}]
                for _ in range(rng.choice((1, 2, 2, 3))):
                    ns = [{'name': 'a', 'items': [it], 'opts': {}, 'seed': 1}]
                    ph = {'pre': [], 'nodes': ns, 'plan': sched(rng, 1)}
                    ph['plan']['faults'] = place(rng, R, w, ns, rng.choice((None, ('/geo/', '/tables/'), ('/.pyg2p/',))), rng.choice((('crash',), ('crash',), ('errno', 'full', 'short'))), power=True)
                    phases.append(ph)
                phases.append(one_node([it]))
                if rng.random() < 0.3:
                    phases.append(one_node([['job', k, {'B': True, 'out': 'z' + k}] for k in w['jobs']]))
                yield {'world': w, 'phases': phases}
                continue
            j = rng.choice(list(w['jobs']))
            for _ in range(rng.choice((1, 1, 2, 3))):
                nn = rng.choice((1, 1, 1, 2))
                ns = [{'name': 'ab'[i], 'items': [outfor(i, j if i == 0 or rng.random() < 0.5 else rng.choice(list(w['jobs'])))], 'opts': {}, 'seed': 1} for i in range(nn)]
                ph = {'pre': [], 'nodes': ns, 'plan': sched(rng, nn)}
                ph['plan']['faults'] = place(rng, R, w, ns, rng.choice((None, ('/out/',), ('/tables/', '/.pyg2p/'))), rng.choice((('crash',), ('crash',), ('errno', 'full', 'short'))), power=True)
                phases.append(ph)
            phases.append(one_node([outfor(0, j)]))
            if rng.random() < 0.3:
                phases.append(one_node([['job', k, {'B': True, 'out': 'z' + k}] for k in w['jobs']]))
            yield {'world': w, 'phases': phases}

    def judge(self, R, case, res):
        out = []
        for pi, P in enumerate(res.phases):
            if not case['phases'][pi]['plan'].get('faults'):
                out += final_clean(R, case, P)
                if case['phases'][pi]['nodes'][0]['items'][0][0] != 'job':
                    out += self.again(R, P)
        return out

    def snapshot(self, R, case, pi, when):
        """geopotential registrations with the content of their files; downloaded files"""
        x = outputs.read_json(f'{R.live}/home/.pyg2p/geopotentials.json')
        out = {}
        for k, v in (x[1] if x and x[0] == 'ok' else {}).items():
            p = f'{R.live}/geo/{v}'
            out[k] = open(p, 'rb').read() if os.path.isfile(p) else None
        for d in ('tables', 'geo'):
            for n in os.listdir(f'{R.live}/{d}'):
                if n[0] == 'd':
                    out[f'{d}/{n}'] = open(f'{R.live}/{d}/{n}', 'rb').read()
        return out

    def again(self, R, P):
        """a command about the configuration, repeated undisturbed"""
        it = P['spec']['nodes'][0]['items'][0]
        rs = results_of(P, 'a')
        r = rs[0] if rs else None
        good = r is not None and nodes.ok(r)
        if it[0] == 'ftp':
            if not good:
                return [('rerun', f'undisturbed download after the faults fails: {describe(r)}')]
            d = 'tables' if 'intertables' in it[1] else 'geo'
            bad = [n for n, c in it[2]['files'].items() if P['after'].get(f'{d}/{n}') != ftpsim.content(c)]
            return [('rerun', f'files {bad} are not what the server has after an undisturbed download')] if bad else []
        name = C10.name(it)
        gid = gen.gridid(R.world['inputs'][name]['grid'])
        with open(W.inpath(R.tmpl, R.world, name), 'rb') as f:
            src = f.read()
        if not good and gid not in P['before']:
            return [('rerun', f'{name} cannot be added by an undisturbed run after the faults: {describe(r)}')]
        if P['after'].get(gid) != src:
            return [('rerun', f'the geopotential registered as {gid} is not a copy of {name} after an undisturbed run')]
        return []


ALL = {c.__name__: c() for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14)}
