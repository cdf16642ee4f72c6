"""Drives one check: seeded worlds -> cases -> simulated runs -> verdicts, on all cores."""
import collections
import errno
import hashlib
import json
import os
import pickle
import random
import select
import signal
import socket
import struct
import subprocess
import sys
import time
import traceback

from . import zygote

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get('SIM_SCRATCH', '/dev/shm')
KNOWN = f'{HERE}/known_findings.json'
WORKERS = int(os.environ.get('SIM_WORKERS') or min(8, os.cpu_count() or 1))
T0 = time.monotonic()


def dumps(o):
    return json.dumps(o, sort_keys=True)


def case_seed(seed, pid, wi, ci):
    return int.from_bytes(hashlib.sha256(f'{seed}/{pid}/{wi}/{ci}'.encode()).digest()[:6], 'big') | 1


def known():
    try:
        with open(KNOWN) as f:
            return json.load(f)['findings']
    except FileNotFoundError:
        return []


def matching(finding, pid, case, tag):
    """a listed finding covers exactly one case, named by its marker, and one kind of failure"""
    return finding['property'] == pid and finding['tag'] == tag and (case.get('x') or {}).get('kf') == finding['case']


# ------------------------------------------------------------------------------------------ one case
def execute(R, prop, case):
    """(violations, digest, result); retried when the simulator itself fails"""
    from . import engine
    hangs = 0
    for k in range(3):
        try:
            prop.prep(R, case)
            res = R.run(case, prop.watch, prop)
            v = list(res.violations)
            if not any(t == 'stuck' for t, _ in v):
                v += prop.judge(R, case, res)
                v += prop.alone(R, case)
            h = hashlib.sha256()
            for P in res.phases:
                h.update(P['digest'].encode())
            return v, h.hexdigest(), res
        except engine.Hang as e:
            hangs += 1
            R.key = None
            if hangs == 2:
                return [('stuck', f'a process never ended: {e}')], 'hang', None
        except engine.HarnessError:
            R.key = None
            if k == 2:
                raise
    raise engine.HarnessError('a process did not end once')


def first_diff(a, b):
    for p, (P, Q) in enumerate(zip(a.phases, b.phases)):
        for k, (x, y) in enumerate(zip(P['trace'], Q['trace'])):
            if x != y:
                return f'phase {p} step {k}: {x} / {y}'
        if len(P['trace']) != len(Q['trace']):
            return f'phase {p}: {len(P["trace"])} / {len(Q["trace"])} steps'
    return 'same steps'


def tags(v):
    return {t for t, _ in v}


def shrink(prop, case, res):
    """smaller variants of a case, biggest steps first"""
    import copy
    free = prop.shrinkable
    n = len(case['phases'])
    if free:
        for i in range(n - 1):
            c = copy.deepcopy(case)
            del c['phases'][i]
            yield f'without phase {i}', c
    for pi, ph in enumerate(case['phases']):
        fs = ph['plan'].get('faults') or []
        for k in range(len(fs)):
            c = copy.deepcopy(case)
            del c['phases'][pi]['plan']['faults'][k]
            if not c['phases'][pi]['plan']['faults']:
                del c['phases'][pi]['plan']['faults']
            yield f'without fault {k} of phase {pi}', c
        if free and len(ph['nodes']) > 1:
            for k in range(len(ph['nodes'])):
                c = copy.deepcopy(case)
                d = c['phases'][pi]['nodes'].pop(k)['name']
                p = c['phases'][pi]['plan']
                if p.get('faults'):
                    p['faults'] = [f for f in p['faults'] if f.get('node') != d]
                yield f'without process {d} of phase {pi}', c
        if free:
            for ni, nd in enumerate(ph['nodes']):
                if len(nd['items']) > 1:
                    for k in range(len(nd['items'])):
                        c = copy.deepcopy(case)
                        del c['phases'][pi]['nodes'][ni]['items'][k]
                        yield f'without item {k} of {nd["name"]} in phase {pi}', c
        p = ph['plan']
        if len(ph['nodes']) > 1:
            if p.get('mode') != 'seq' or p.get('picks') is not None:
                c = copy.deepcopy(case)
                q = c['phases'][pi]['plan']
                for k in ('picks', 'p_switch', 'depth', 'pct_len'):
                    q.pop(k, None)
                q['mode'] = 'seq'
                yield f'phase {pi} one process after the other', c
            if p.get('picks') is None and p.get('mode') != 'seq' and res is not None and pi < len(res.phases):
                c = copy.deepcopy(case)
                c['phases'][pi]['plan']['picks'] = list(res.phases[pi]['picks'])
                yield f'phase {pi} with its schedule written out', c
            elif p.get('picks'):
                for frac in (0.25, 0.5, 0.75, 0.9):
                    c = copy.deepcopy(case)
                    c['phases'][pi]['plan']['picks'] = p['picks'][:int(len(p['picks']) * frac)]
                    yield f'phase {pi} with a shorter schedule', c
        for k in ('jumps', 'skews', 'dirseeds'):
            if p.get(k):
                c = copy.deepcopy(case)
                del c['phases'][pi]['plan'][k]
                yield f'phase {pi} without {k}', c
        for op in range(len(ph.get('pre') or [])):
            if free:
                c = copy.deepcopy(case)
                del c['phases'][pi]['pre'][op]
                yield f'phase {pi} without disk operation {op}', c


def minimise(R, prop, case, v, dig, res, trials=60, wall=45):
    want = tags(v)
    end = time.monotonic() + wall
    done = []
    again = True
    while again and trials > 0 and time.monotonic() < end:
        again = False
        for what, c in shrink(prop, case, res):
            trials -= 1
            if trials <= 0 or time.monotonic() > end:
                break
            try:
                v2, d2, r2 = execute(R, prop, c)
            except Exception:
                continue
            if tags(v2) & want:
                case, v, dig, res = c, [x for x in v2 if x[0] in want], d2, r2
                done.append(what)
                again = True
                break
    return case, v, dig, res, done


def story(res):
    """the schedule and fault trace of a case, in words"""
    from . import engine
    out = []
    if res is None:
        return out
    for pi, P in enumerate(res.phases):
        l = []
        for node, kind, path, arg, act in P['trace']:
            if os.environ.get('SIM_FULLTRACE') or kind in engine.MUTATING or act != 'go' or kind in ('MARK', 'lock', 'unlock', 'lockwait') or kind.startswith('OUTSIDE'):
                l.append(f'{node} {kind} {path}' + (f' [{arg}]' if arg else '') + ('' if act == 'go' else f'  <-- {act}'))
        out.append({'phase': pi, 'end': P['status'], 'processes': {n: {k: v for k, v in (r or {}).items() if k in ('kind', 'type', 'msg')} for n, r in P['nodes'].items()},
                    'faults': [list(map(str, f)) for f in P['faults']], 'steps': l[:1500]})
    return out


# ------------------------------------------------------------------------------------------ workers
def worker(wid, prop, pid, seed, worlds, stop_at, wfd):
    from . import engine, runner

    def send(o):
        d = pickle.dumps(o)
        b = memoryview(struct.pack('=I', len(d)) + d)
        while b:
            b = b[os.write(wfd, b):]
    os.environ.pop('LD_PRELOAD', None)
    R = runner.Runner(wid, S)
    R.partner = partner(wid) if prop.partner else None
    nontriv, total, lost, unrep, det = set(), 0, [], [], [0, 0]
    samples = []
    reported = collections.Counter()
    nw = 0
    for wi in range(wid, worlds, WORKERS):
        if time.monotonic() - T0 > stop_at:
            break
        rng = random.Random(f'{seed}/{pid}/{wi}')
        nw += 1
        ci = -1
        gen = prop.make(rng, R, wi)
        while True:
            try:
                case = next(gen)
            except StopIteration:
                break
            except Exception:
                lost.append(f'world {wi}: {traceback.format_exc()[-800:]}')
                R.key = None
                break
            ci += 1
            case['prop'] = pid
            case['seed'] = case_seed(seed, pid, wi, ci)
            try:
                v, dig, res = execute(R, prop, case)
            except Exception:
                lost.append(f'world {wi} case {ci}: {traceback.format_exc()[-800:]}')
                R.key = None
                continue
            total += 1
            if res is not None:
                n = sum(len(p['nodes']) for p in case['phases'])
                if prop.nontrivial(case, res):
                    h = hashlib.sha256(f'{wi}'.encode())
                    for P in res.phases:
                        h.update(P['shape'].encode())
                        for nd in P['spec']['nodes']:
                            h.update(dumps(nd['items']).encode())
                    if case.get('x'):
                        h.update(dumps(case['x']).encode())
                    nontriv.add(h.digest()[:8])
                if wi == wid and ci < 3:
                    # the same case again must be the same execution
                    det[0] += 1
                    try:
                        v2, dig2, res2 = execute(R, prop, case)
                        det[1] += dig2 == dig and tags(v2) == tags(v)
                        if dig2 != dig:
                            unrep.append(f'world {wi} case {ci}: another execution the second time: {first_diff(res, res2)}')
                    except Exception:
                        pass
                if len(samples) < 1 and res.faults or (len(samples) < 1 and total > 5):
                    samples.append({'world': wi, 'case': ci, 'seed': case['seed'], 'phases': [
                        {'processes': {nd['name']: nd['items'] for nd in p['nodes']}, 'plan': {k: q for k, q in p['plan'].items() if k != 'picks'}, 'pre': p.get('pre')} for p in case['phases']],
                        'faults_fired': [list(map(str, f)) for f in res.faults], 'steps': res.steps, 'switches': sum(P['switches'] for P in res.phases)})
            if v:
                kf = [f for f in known() for t in tags(v) if matching(f, pid, case, t)]
                if kf:
                    for f in kf:
                        send(('known', f['case'], v[0][1]))
                    v = [x for x in v if not any(f['tag'] == x[0] for f in kf)]
                    if not v:
                        continue
                first = sorted(tags(v))
                if all(reported[t] >= 1 for t in first):
                    send(('more', v))
                    continue
                try:
                    v2, dig2, res2 = execute(R, prop, case)
                except Exception:
                    continue
                if not (tags(v2) & tags(v)):
                    unrep.append(f'world {wi} case {ci}: {v[0]} did not appear again')
                    continue
                for t in first:
                    reported[t] += 1
                send(('found', wi, ci))
                c, v3, dig3, res3, how = minimise(R, prop, case, v2, dig2, res2)
                send(('violation', wi, ci, case, c, v3, dig3, story(res3), how))
        send(('tick', nw, total))
    send(('done', {'stats': R.stats, 'shapes': R.shapes, 'nontriv': nontriv, 'total': total, 'lost': lost, 'unrep': unrep, 'det': det, 'samples': samples, 'worlds': nw}))
    os._exit(0)


# ------------------------------------------------------------------------------------------ the other environment (C13)
PARTNERS = ('4242', '3', '8', '1')


def partner(wid):
    """sends cases to process trees started with other hash seeds"""
    files = {}
    for h in PARTNERS:
        path = f'{S}/p{h}.sock'
        if not os.path.exists(path):
            return None
        c = socket.socket(socket.AF_UNIX)
        c.connect(path)
        files[h] = c.makefile('rwb')
        pickle.dump(wid, files[h])
        files[h].flush()

    def ask(case, seed):
        from . import engine
        f = files[seed]
        pickle.dump(case, f)
        f.flush()
        ok, val = pickle.load(f)
        if not ok:
            raise engine.HarnessError('other environment: ' + val)
        return val
    return ask


def serve():
    """the other environment: another interpreter with another hash seed"""
    zygote.preload()
    from . import props, runner
    s = socket.socket(socket.AF_UNIX)
    h = os.environ['PYTHONHASHSEED']
    s.bind(f'{S}/p{h}.tmp')
    s.listen(16)
    os.rename(f'{S}/p{h}.tmp', f'{S}/p{h}.sock')
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        c, _ = s.accept()
        if os.fork() == 0:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            f = c.makefile('rwb')
            wid = pickle.load(f)
            R = runner.Runner(50 + wid + 10 * PARTNERS.index(h), S)
            while True:
                try:
                    case = pickle.load(f)
                except EOFError:
                    os._exit(0)
                try:
                    p = props.ALL[case['prop']]
                    p.prep(R, case)
                    res = R.run(case, p.watch, p)
                    out = (True, props.observe(R, res))
                except BaseException:
                    out = (False, traceback.format_exc()[-800:])
                    R.key = None
                pickle.dump(out, f)
                f.flush()
        c.close()


def start_partners():
    ps = [subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'sim.driver', 'serve'], cwd=HERE,
                           env=dict(os.environ, PYTHONHASHSEED=h, LD_PRELOAD=os.environ.get('SIM_SHIM', ''))) for h in PARTNERS]
    end = time.monotonic() + 90
    for p, h in zip(ps, PARTNERS):
        while not os.path.exists(f'{S}/p{h}.sock') and time.monotonic() < end and p.poll() is None:
            time.sleep(0.1)
    return ps


# ------------------------------------------------------------------------------------------ top level
def save_replay(pid, seed, wi, ci, case, v, dig, st, how):
    d = f'{HERE}/replays'
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(dumps(case).encode()).hexdigest()[:10]
    p = f'{d}/{pid}-{"-".join(sorted(tags(v)))}-{h}.json'
    with open(p, 'w') as f:
        json.dump({'property': pid, 'replay': f'cd /verif && ./check replay {p}', 'verif_seed': seed, 'world': wi, 'case_number': ci, 'violations': v, 'digest': dig,
                   'minimised_by': how, 'case': case, 'trace': st}, f, indent=1)
    return p


def run_check(pid, tier):
    seed = int(os.environ.get('VERIF_SEED', '1'))
    zygote.preload()
    from . import props
    prop = props.ALL[pid]
    worlds = prop.runs_quick if tier == 'quick' else prop.runs_thorough
    worlds = int(os.environ.get('SIM_WORLDS') or worlds)
    cap = float(os.environ.get('SIM_CAP') or (300 if tier == 'quick' else 2400))
    pp = start_partners() if prop.partner else []
    kids = {}
    for w in range(WORKERS):
        r, wr = os.pipe()
        k = os.fork()
        if k == 0:
            os.close(r)
            try:
                worker(w, prop, pid, seed, worlds, cap, wr)
            except BaseException:
                traceback.print_exc()
                os._exit(4)
        os.close(wr)
        kids[r] = [k, b'', w]
    dones, viols, more, knownhits, broken = [], [], collections.Counter(), {}, []
    found_at = None
    verbose = os.environ.get('SIM_VERBOSE')
    all_of = os.environ.get('SIM_ALL')
    while kids:
        rl, _, _ = select.select(list(kids), [], [], 1)
        for r in rl:
            d = os.read(r, 1 << 20)
            if not d:
                pid_, buf, w = kids.pop(r)
                os.close(r)
                _, st = os.waitpid(pid_, 0)
                if st:
                    broken.append(f'worker {w} ended with status {st}')
                continue
            kids[r][1] += d
            while len(kids[r][1]) >= 4:
                n, = struct.unpack('=I', kids[r][1][:4])
                if len(kids[r][1]) < 4 + n:
                    break
                m = pickle.loads(kids[r][1][4:4 + n])
                kids[r][1] = kids[r][1][4 + n:]
                if m[0] == 'done':
                    dones.append(m[1])
                elif m[0] == 'known':
                    knownhits.setdefault(m[1], m[2])
                elif m[0] == 'found':
                    found_at = found_at or time.monotonic()
                elif m[0] == 'more':
                    for t, _ in m[1]:
                        more[t] += 1
                elif m[0] == 'violation':
                    viols.append(m)
                    if verbose:
                        print(f'  [{m[1]}.{m[2]}] {m[5][0]}', flush=True)
        if found_at and not all_of and (time.monotonic() - found_at > 60 or (viols and time.monotonic() - found_at > 3)):
            for r, (k, _, _) in kids.items():
                try:
                    os.kill(k, signal.SIGKILL)
                    os.waitpid(k, 0)
                except OSError:
                    pass
                os.close(r)
            kids = {}
    for p in pp:
        p.kill()
    # ---- report
    seen = set()
    for m in sorted(viols, key=lambda m: (len(dumps(m[4])), m[1])):
        _, wi, ci, orig, c, v, dig, st, how = m
        t = tuple(sorted(tags(v)))
        if t in seen and not all_of:
            continue
        seen.add(t)
        p = save_replay(pid, seed, wi, ci, c, v, dig, st, how)
        for tag, text in v[:3]:
            print(f'{tag}: {text}')
        print(f'VIOLATION property={pid} replay={p}', flush=True)
        if len(seen) >= 4 and not all_of:
            break
    if viols:
        code = 1
    elif found_at:
        # found and confirmed, but the minimiser was stopped: cannot happen, it is bounded
        print('harness: a confirmed violation was not written out')
        code = 2
    else:
        code = 0
    # a check that is broken must not look like one that passed
    total = sum(d['total'] for d in dones)
    lost = [x for d in dones for x in d['lost']]
    for x in broken + lost[:3]:
        print('harness:', x)
    if code == 0 and (broken or total == 0 or len(lost) > max(3, total // 20)):
        code = 2
    for f in {f['what']: f for f in known()}.values():
        if f['property'] == pid and f['case'] in knownhits and code == 0:
            print(f'KNOWN-FINDING: property={pid} {f["what"]}')
    write_evidence(pid, prop, tier, seed, dones, viols, lost, knownhits, worlds)
    wall = time.monotonic() - T0
    print(f'{pid} {tier}: {total} cases in {sum(d["worlds"] for d in dones)} worlds, {sum(d["stats"]["runs"] for d in dones)} simulated runs, '
          f'{sum(d["stats"]["steps"] for d in dones)} steps, {len(viols)} violations, {len(lost)} lost, {wall:.0f}s', flush=True)
    for d in dones:
        for u in d['unrep']:
            print('note:', u)
    if verbose and more:
        print('more:', dict(more))
    return code


def write_evidence(pid, prop, tier, seed, dones, viols, lost, knownhits, worlds):
    st = collections.Counter()
    faults = collections.Counter()
    shapes, nontriv = set(), set()
    for d in dones:
        for k, v in d['stats'].items():
            if k == 'faults':
                faults.update(v)
            else:
                st[k] += v
        shapes |= d['shapes']
        nontriv |= d['nontriv']
    wall = time.monotonic() - T0
    total = sum(d['total'] for d in dones)
    sent = prop.remote_faults if hasattr(prop, 'remote_faults') else {}
    by = collections.Counter()
    for k, v in faults.items():
        by[k.split('@')[0]] += v
    cov = {
        'evaluations': total,
        'distinct_nontrivial': len(nontriv),
        'rule': 'a case is one generated world (input messages, grids, target maps, registrations, jobs) plus phases of simulated processes, each with a seeded schedule and fault plan; '
                'it counts as non-trivial when ' + prop.nontrivial_rule + '; two cases are the same when world, commands, order of mutating calls and injected faults are the same',
        'samples': [x for d in dones for x in d['samples']][:4],
        'worlds': sum(d['worlds'] for d in dones),
        'worlds_planned': worlds,
        'simulated_runs': st['runs'],
        'simulated_processes': st['processes'],
        'runs_per_hour': int(st['runs'] / wall * 3600),
        'case_seeds_per_hour': int(total / wall * 3600),
        'simulated_seconds': round(st['sim_ns'] / 1e9, 1),
        'scheduled_steps': st['steps'],
        'context_switches': st['switches'],
        'faults_injected': dict(sorted(by.items())),
        'faults_by_call': dict(sorted(faults.items())),
        'distinct_executions': len(shapes),
        'distinct_executions_measure': 'hash of the sequence (process, mutating call, path, fault) of a run',
        'determinism_self_test': {'cases_run_twice': sum(d['det'][0] for d in dones), 'identical': sum(d['det'][1] for d in dones)},
        'lost_cases': len(lost),
        'known_findings_seen': sorted(knownhits),
        'real_code': prop.real,
        'stubs': prop.stubs,
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'assumptions': prop.assumptions, 'wall_s': round(wall, 2), 'violations': len(viols)}
    os.makedirs(f'{HERE}/evidence', exist_ok=True)
    with open(f'{HERE}/evidence/{pid}.json', 'w') as f:
        json.dump(ev, f, indent=1)


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    zygote.preload()
    from . import props, runner
    prop = props.ALL[rec['property']]
    pp = start_partners() if prop.partner else []
    os.environ.pop('LD_PRELOAD', None)
    R = runner.Runner(0, S)
    R.partner = partner(0) if prop.partner else None
    out = []
    for _ in range(2):
        v, dig, res = execute(R, prop, rec['case'])
        out.append((sorted(tags(v)), dig))
    for p in pp:
        p.kill()
    for t, x in v:
        print(f'{t}: {x}')
    same = all(o[1] == rec['digest'] for o in out)
    if v and set(out[0][0]) & tags([tuple(x) for x in rec['violations']]):
        print(f'VIOLATION property={rec["property"]} replay={path}')
        print('execution identical to the record' if same else 'the same violation, but the execution differs from the record (another tree?)')
        return 1
    print('not reproduced' if same or not v else 'another outcome than recorded', '(execution identical)' if same else '(execution differs from the record: another tree?)')
    return 1 if v else 0


def main():
    a = sys.argv[1:]
    if a[0] == 'serve':
        return serve()
    if a[0] == 'setup':
        zygote.preload()
        from . import props  # noqa
        print('ready')
        return 0
    if a[0] == 'replay':
        return replay(a[1])
    return run_check(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick'))


if __name__ == '__main__':
    try:
        rc = main()
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc if rc is not None else 2)
