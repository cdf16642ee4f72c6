"""Deterministic simulator: one process tree, one token, one seed.

A *node* is one real pyg2p operating-system process forked from a preloaded
parent.  Every file-system call it makes below the world root, every clock
read, sleep, lock, pid and random byte goes through shim.c and, for calls, is
parked until this module says what happens.  Only one node ever runs at a time,
so the sequence of answers is the whole schedule.
"""
import ctypes
import errno
import gc
import hashlib
import os
import pickle
import random
import select
import signal
import socket
import struct
import sys
import tempfile
import time
import traceback

GO, FAIL, SHORT, CRASH_BEFORE, CRASH_AFTER, TORN = range(6)
ACTION_NAMES = ['go', 'fail', 'short', 'crash_before', 'crash_after', 'torn']

MUTATING = {'open_w', 'open_c', 'open_x', 'open_rw', 'write', 'trunc', 'rename', 'unlink', 'mkdir', 'rmdir', 'link',
            'symlink', 'fsync', 'chmod', 'utime'}
REPLY = struct.Struct('=iiqqQ')
BASE_TIME = 1_600_000_000 * 10**9
NODE_WALL_LIMIT = float(os.environ.get('SIM_NODE_WALL', '60'))


class HarnessError(Exception):
    """The simulator itself failed; never reported as a violation."""


class Hang(HarnessError):
    """a simulated process neither ended nor made a call for a very long time"""


_lib = None


def shim():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ['SIM_SHIM'])
        _lib.sim_activate.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_int, ctypes.c_uint64, ctypes.c_int64]
        _lib.sim_open_path.restype = ctypes.c_char_p
        _lib.sim_mark.argtypes = [ctypes.c_char_p]
    return _lib


class Op:
    __slots__ = ('node', 'kind', 'path', 'arg', 'path2', 'k')

    def __init__(self, node, kind, path, arg, path2, k):
        self.node, self.kind, self.path, self.arg, self.path2, self.k = node, kind, path, arg, path2, k

    def __repr__(self):
        return f'{self.node}#{self.k} {self.kind} {self.path}{" -> " + self.path2 if self.path2 else ""} {self.arg}'


class Node:
    def __init__(self, name):
        self.name = name
        self.pid = None
        self.sock = None
        self.rfd = None
        self.pending = None  # parked Op
        self.state = 'new'   # parked | lockwait | sleeping | done
        self.wake = 0
        self.nops = 0
        self.result = None   # dict(kind='ok'|'exc'|'crash', ...)
        self.skew = 0
        self.log = None
        self.mut = 0
        self.locked_path = None
        self.locks = 0
        self.chunks = []     # of its result
        self.eof = False


def _child(prog, args, sock, wfd, root, cwd, home, vpid, seed, logpath):
    # runs in the forked child
    code = 0
    res = None
    try:
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        lf = os.open(logpath, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
        os.dup2(lf, 1)
        os.dup2(lf, 2)
        os.close(lf)
        nul = os.open('/dev/null', os.O_RDONLY)
        os.dup2(nul, 0)
        os.environ['HOME'] = home
        os.environ['TMPDIR'] = root + '/tmp'
        tempfile.tempdir = None
        os.chdir(cwd)
        random.seed(seed)
        import numpy as np
        np.random.seed(seed & 0x7fffffff)
        # when the collector runs (and closes files nobody closed) depends on what this process allocates only
        gc.freeze()
        gc.collect()
        s = shim()
        s.sim_activate(sock, root.encode(), vpid, seed, BASE_TIME)
        s.sim_mark(b'start')
        try:
            val = prog(*args)
            res = {'kind': 'ok', 'value': val}
        except SystemExit as e:
            res = {'kind': 'exit', 'value': e.code}
        except BaseException as e:
            res = {'kind': 'exc', 'type': type(e).__name__, 'msg': str(e)[:500], 'tb': traceback.format_exc()[-3000:]}
        sys.stdout.flush()
        sys.stderr.flush()
        gc.collect()
        res['open'] = [s.sim_open_path(i).decode() for i in range(s.sim_open_count())]
        s.sim_mark(b'end')
        s.sim_deactivate()
    except BaseException:
        res = {'kind': 'harness', 'tb': traceback.format_exc()}
        code = 3
    try:
        data = pickle.dumps(res)
        v = memoryview(data)
        while v:
            n = os.write(wfd, v)
            v = v[n:]
    finally:
        os._exit(code)


class Sim:
    """One simulated run."""

    def __init__(self, root, cwd, home, logdir, policy, on_step=None, max_steps=60000):
        self.root = root
        self.cwd = cwd
        self.home = home
        self.logdir = logdir
        self.policy = policy
        self.nodes = {}
        self.order = []
        self.now = BASE_TIME
        self.step = 0
        self.max_steps = max_steps
        self.trace = []          # (node, kind, path, action, n)
        self.picks = []          # choice at each branching point
        self.faults_fired = []   # (node, k, kind, path, action, err, n)
        self.on_step = on_step
        self.seq = 0
        self.dirty = {}          # path -> True when written since last fsync
        self.outside = []
        self.switches = 0
        self._last = None
        policy.attach(self)

    # -- processes -----------------------------------------------------------
    def spawn(self, name, prog, *args, seed=1):
        n = Node(name)
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        r, w = os.pipe()
        self.seq += 1
        vpid = 20000 + self.seq
        logpath = os.path.join(self.logdir, f'{name}.log')
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                os.close(r)
                for o in self.nodes.values():
                    if o.sock is not None:
                        o.sock.close()
                    if o.rfd is not None:
                        os.close(o.rfd)
                fd = os.dup(b.fileno())
                b.close()
            except BaseException:
                os._exit(4)
            _child(prog, args, fd, w, self.root, self.cwd, self.home, vpid, seed, logpath)
        b.close()
        os.close(w)
        n.pid, n.sock, n.rfd, n.log = pid, a, r, logpath
        self.nodes[name] = n
        self.order.append(name)
        self._await(n)
        return n

    def _await(self, n):
        """Wait until node n parks again or ends."""
        end = time.monotonic() + NODE_WALL_LIMIT
        while True:
            left = end - time.monotonic()
            if left <= 0:
                self.kill_all()
                raise Hang(f'node {n.name} ran for over {NODE_WALL_LIMIT}s between two events')
            rl, _, _ = select.select([n.sock] + ([n.rfd] if not n.eof else []), [], [], min(left, 5))
            if n.rfd in rl:
                # (a result may be larger than what the pipe holds)
                d = os.read(n.rfd, 1 << 20)
                n.chunks.append(d)
                n.eof = not d
            if n.sock in rl:
                break
        try:
            data = n.sock.recv(65536)
        except ConnectionResetError:
            data = b''
        if not data:
            self._reap(n)
            return
        kind, path, arg, path2 = data.decode('utf-8', 'surrogateescape').split('\t')
        n.nops += 1
        n.pending = Op(n.name, kind, path, int(arg), path2, n.nops)
        if kind == 'sleep':
            n.state = 'sleeping'
            n.wake = self.now + max(int(arg), 1)
        elif kind == 'lockwait':
            n.state = 'lockwait'
        else:
            n.state = 'parked'

    def _reap(self, n):
        chunks = n.chunks
        while not n.eof:
            d = os.read(n.rfd, 1 << 20)
            n.eof = not d
            chunks.append(d)
        _, status = os.waitpid(n.pid, 0)
        os.close(n.rfd)
        n.sock.close()
        n.sock = n.rfd = None
        n.pending = None
        n.state = 'done'
        data = b''.join(chunks)
        if data:
            n.result = pickle.loads(data)
            if n.result['kind'] == 'harness':
                raise HarnessError(n.result['tb'])
        elif os.WIFEXITED(status) and os.WEXITSTATUS(status) == 137:
            n.result = {'kind': 'crash'}
        elif os.WIFSIGNALED(status):
            n.result = {'kind': 'signal', 'value': os.WTERMSIG(status)}
        else:
            n.result = {'kind': 'died', 'value': os.WEXITSTATUS(status)}
        # locks die with their owner
        self._wake_lockers()

    def _wake_lockers(self):
        for o in self.nodes.values():
            if o.state == 'lockwait':
                o.state = 'parked'

    def kill_all(self):
        for n in self.nodes.values():
            if n.state != 'done' and n.pid:
                try:
                    os.kill(n.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.waitpid(n.pid, 0)
                n.sock.close()
                os.close(n.rfd)
                n.sock = n.rfd = None
                n.state = 'done'
                n.pending = None
                n.result = {'kind': 'crash'}
        self._wake_lockers()

    # -- stepping ------------------------------------------------------------
    def _answer(self, n, action, err=0, num=0, seed=0):
        n.sock.send(REPLY.pack(action, err, num, self.now + n.skew, seed))

    def _account(self, op, action):
        """Track which file content would be lost if power failed now."""
        if action in (CRASH_BEFORE,) or (action == FAIL and op.kind != 'close'):
            return
        if op.kind in ('open_w', 'open_x', 'write', 'trunc'):
            self.dirty[op.path] = True
        elif op.kind == 'fsync':
            self.dirty.pop(op.path, None)
        elif op.kind in ('rename', 'link'):
            d = self.dirty.pop(op.path, None) if op.kind == 'rename' else self.dirty.get(op.path)
            self.dirty.pop(op.path2, None)
            if d:
                self.dirty[op.path2] = True
        elif op.kind == 'unlink':
            self.dirty.pop(op.path, None)

    def advance(self, n):
        op = n.pending
        natural = False
        self.step += 1
        self.now += self.policy.tick()
        if self._last not in (None, n.name):
            self.switches += 1
        self._last = n.name
        if op.kind == 'sleep':
            self.now = max(self.now, n.wake)
        if op.kind.startswith('OUTSIDE:'):
            self.outside.append((n.name, op.kind[8:], op.path))
            action, err, num = GO, 0, 0
        elif op.kind == 'MARK':
            action, err, num = GO, 0, 0
            self.policy.on_mark(n, op)
        else:
            action, err, num = self.policy.fault(n, op)
            if action == GO and op.kind in ('rename', 'link') and op.path.split('/')[1] != op.path2.split('/')[1]:
                # every folder of the root is a file system of its own
                action, err, natural = FAIL, errno.EXDEV, True
        seed = self.policy.dirseed(n, op) if op.kind == 'opendir' else 0
        if action != GO and not natural:
            self.faults_fired.append((n.name, op.k, op.kind, op.path, ACTION_NAMES[action], err, num))
        self.trace.append((n.name, op.kind, op.path, op.arg if op.kind in ('write', 'trunc', 'lock') else 0, 'go' if natural else ACTION_NAMES[action]))
        self._account(op, action)
        if op.kind in MUTATING:
            n.mut += 1
        wake = op.kind in ('unlock', 'close')
        n.pending = None
        self._answer(n, action, err, num, seed)
        self._await(n)
        if wake:
            self._wake_lockers()
        if self.on_step is not None:
            self.on_step(self, n, op, action)

    def runnable(self):
        r = [self.nodes[k] for k in self.order if self.nodes[k].state == 'parked']
        if not r:
            sl = [self.nodes[k] for k in self.order if self.nodes[k].state == 'sleeping']
            if sl:
                first = min(sl, key=lambda n: n.wake)
                r = [first]
        else:
            r += [self.nodes[k] for k in self.order if self.nodes[k].state == 'sleeping' and self.nodes[k].wake <= self.now]
        return r

    def run(self):
        """Run until every node is done."""
        try:
            while True:
                r = self.runnable()
                if not r:
                    lw = [n.name for n in self.nodes.values() if n.state == 'lockwait']
                    if lw:
                        self.kill_all()
                        return 'deadlock:' + ','.join(lw)
                    return 'done'
                if self.step >= self.max_steps:
                    self.kill_all()
                    return 'steps'
                if len(r) > 1:
                    i = self.policy.pick(r)
                    self.picks.append(i)
                    n = r[i]
                else:
                    n = r[0]
                ev = self.policy.before(n)
                if ev == 'power':
                    self.power_loss()
                    continue
                self.advance(n)
        except BaseException:
            self.kill_all()
            raise

    def power_loss(self):
        """All processes die; data never fsync'ed may be cut anywhere."""
        self.kill_all()
        lost = 0
        for p in sorted(self.dirty):
            full = self.root + p
            if not os.path.isfile(full):
                continue
            keep = self.policy.keep_fraction()
            if keep >= 1:
                continue
            size = os.path.getsize(full)
            with open(full, 'r+b') as f:
                f.truncate(int(size * keep))
            lost += 1
        self.faults_fired.append(('*', 0, 'power', '', 'power_loss', 0, lost))
        self.trace.append(('*', 'power', '', lost, 'power_loss'))
        self.dirty.clear()

    def digest(self):
        h = hashlib.sha256()
        for t in self.trace:
            h.update(repr(t).encode('utf-8', 'surrogateescape'))
        return h.hexdigest()

    def shape(self):
        """Interleaving identity: which node did which mutating call in which order, and the faults."""
        h = hashlib.sha256()
        for node, kind, path, arg, act in self.trace:
            if kind in MUTATING or act != 'go':
                h.update(f'{node}|{kind}|{path}|{act};'.encode('utf-8', 'surrogateescape'))
        return h.hexdigest()[:16]


class Policy:
    """Seeded scheduler + fault injector; records what it decided, or replays a record.

    plan keys (all optional):
      mode      'seq' | 'rand' | 'pct' | 'burst'
      p_switch  probability of leaving the running node at a branching point
      faults    list of fault dicts (see match())
      picks     explicit choices (replay); when exhausted: stay on the first runnable
      skews     {node: ns}
      dirseeds  bool – shuffle directory listings
      jumps     list of (step, ns) clock jumps
    """

    def __init__(self, seed, plan):
        self.rng = random.Random(seed)
        self.plan = plan
        self.mode = plan.get('mode', 'rand')
        self.p = plan.get('p_switch', 0.3)
        self.faults = [dict(f) for f in plan.get('faults', [])]
        for f in self.faults:
            f.setdefault('count', 0)
        self.picks = list(plan['picks']) if plan.get('picks') is not None else None
        self.sticky_full = None
        self.current = None
        self.prio = {}
        self.change = set()
        self.crng = random.Random(seed ^ 0x5bd1e995)
        self.drng = random.Random(seed ^ 0x1234567)
        self.tick_rng = random.Random(seed ^ 0x777)
        self.krng = random.Random(seed ^ 0xabcdef)
        if self.mode == 'pct':
            for _ in range(plan.get('depth', 3)):
                self.change.add(self.rng.randrange(1, plan.get('pct_len', 300)))
        self.branches = 0
        self.power_at = None

    def attach(self, sim):
        self.sim = sim

    def tick(self):
        j = self.plan.get('jumps')
        base = self.tick_rng.choice((1000, 50_000, 1_000_000, 20_000_000))
        if j:
            for st, ns in j:
                if st == self.sim.step:
                    base += ns
        return base

    def on_mark(self, n, op):
        if op.path == 'start':
            n.skew = self.plan.get('skews', {}).get(n.name, 0)

    def dirseed(self, n, op):
        if not self.plan.get('dirseeds'):
            return 0
        return self.drng.getrandbits(63) | 1

    def pick(self, r):
        self.branches += 1
        names = [n.name for n in r]
        if self.picks is not None:
            if self.picks:
                i = self.picks.pop(0)
                return i if i < len(r) else 0
            if self.current in names:
                return names.index(self.current)
            return 0
        if self.mode == 'seq':
            i = names.index(self.current) if self.current in names else 0
        elif self.mode == 'pct':
            for nm in names:
                if nm not in self.prio:
                    self.prio[nm] = self.rng.random()
            if self.branches in self.change:
                best = max(names, key=lambda x: self.prio[x])
                self.prio[best] = min(self.prio.values()) - self.rng.random()
            i = names.index(max(names, key=lambda x: self.prio[x]))
        elif self.mode == 'mut':
            # switch preferentially when the running node is about to mutate shared state
            p = 0.02
            if self.current in names:
                op = r[names.index(self.current)].pending
                if op is not None and op.kind in MUTATING | {'lock', 'read', 'open_r'}:
                    p = self.p
            i = names.index(self.current) if self.current in names and self.rng.random() > p else self.rng.randrange(len(r))
        else:
            if self.current in names and self.rng.random() > self.p:
                i = names.index(self.current)
            else:
                i = self.rng.randrange(len(r))
        self.current = names[i]
        return i

    def before(self, n):
        for f in self.faults:
            if f['kind'] == 'power' and not f.get('done'):
                op = n.pending
                if op is not None and match(f, n, op):
                    f['count'] += 1
                    if f['count'] >= f.get('nth', 1):
                        f['done'] = True
                        return 'power'
        return None

    def keep_fraction(self):
        return self.krng.choice((0.0, 0.0, 0.3, 0.7, 1.0, self.krng.random()))

    def fault(self, n, op):
        if self.sticky_full is not None and match(self.sticky_full, n, op):
            if op.kind in ('write', 'open_w', 'open_c', 'open_x', 'mkdir'):
                if op.kind == 'open_w' and os.path.exists(self.sim.root + op.path):
                    return GO, 0, 0      # truncating an existing file needs no new inode
                if op.kind == 'write' and op.arg == 0:
                    return GO, 0, 0
                return FAIL, self.sticky_full['errno'], 0
        for f in self.faults:
            if f['kind'] == 'power' or f.get('done'):
                continue
            if not match(f, n, op):
                continue
            f['count'] += 1
            if f['count'] < f.get('nth', 1):
                continue
            f['done'] = not f.get('repeat')
            kind = f['kind']
            if kind == 'errno':
                # what is not there and what may not be seen is the same to most programs: stat fails for other reasons
                return FAIL, f['errno'] if op.kind not in ('stat', 'access') else errno.EIO, 0
            if kind == 'diskfull':
                self.sticky_full = {'errno': f.get('errno', errno.ENOSPC), 'node': f.get('scope_node'), 'ops': None,
                                    'path': f.get('scope_path', f.get('path'))}
                if op.kind == 'write':
                    k = int(op.arg * f.get('frac', 0.5))
                    if 0 < k < op.arg:
                        return SHORT, 0, k
                return FAIL, f.get('errno', errno.ENOSPC), 0
            if kind == 'short':
                if op.kind == 'write':
                    k = max(1, int(op.arg * f.get('frac', 0.5)))
                    return (SHORT, 0, k) if k < op.arg else (GO, 0, 0)
                if op.kind == 'read':
                    return SHORT, 0, max(1, int(f.get('frac', 0.5) * 64))
                return GO, 0, 0
            if kind == 'readerr':      # EIO after some bytes of a stdio stream
                return (SHORT, 0, f.get('bytes', 100)) if op.kind.startswith('open') else (FAIL, errno.EIO, 0)
            if kind == 'crash_before':
                return CRASH_BEFORE, 0, 0
            if kind == 'crash_after':
                return CRASH_AFTER, 0, 0
            if kind == 'torn':
                if op.kind == 'write':
                    return TORN, 0, int(op.arg * f.get('frac', 0.5))
                return CRASH_AFTER, 0, 0
        return GO, 0, 0


def match(f, n, op):
    if f.get('node') is not None and f['node'] != n.name:
        return False
    if f.get('at') is not None and f['at'] != op.k:
        return False
    if f.get('at_least') is not None and op.k < f['at_least']:
        return False
    ops = f.get('ops')
    if ops is not None and op.kind not in ops:
        return False
    p = f.get('path')
    if p is not None:
        if isinstance(p, str):
            p = [p]
        if not any(x in op.path or (op.path2 and x in op.path2) for x in p):
            return False
    return op.kind != 'MARK'
