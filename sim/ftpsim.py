"""A simulated FTP server behind socket.create_connection: the real ftplib talks to it.

cfg: {'files': {name: [seed, size]}, 'folder': 'remote', 'faults': [fault...]}
fault: {'kind': ..., 'n': which command of that kind (1-based), 'bytes': offset in the data stream}
  refuse       control connection refused          refuse_data   data connection refused
  hang         control connection times out        login         530 to the password
  cwd          550 to CWD                          nlst          450 / reset in the directory listing
  drop         data connection reset after n bytes (and the control connection with it)
  abort        server closes the data connection early and answers 426
  stall        data connection times out after n bytes
  noreply      all data arrive but the final answer never does
  missing      550 to RETR                         ctrl          control connection lost before RETR
"""
import random
import socket


def content(spec):
    seed, size = spec
    return random.Random(seed).randbytes(size)


class Server:
    def __init__(self, cfg):
        self.cfg = cfg
        self.files = {n: content(s) for n, s in cfg['files'].items()}
        self.faults = [dict(f) for f in cfg.get('faults', [])]
        self.count = {}
        self.next_data = None
        self.fired = []

    def fault(self, *kinds):
        """the fault due at this call of one of the kinds"""
        for k in kinds:
            self.count[k] = self.count.get(k, 0) + 1
        for f in self.faults:
            if not f.get('done') and f['kind'] in kinds and self.count[f['kind']] == f.get('n', 1):
                f['done'] = True
                self.fired.append(f['kind'])
                return f
        return None


class Data:
    """client side of a data connection"""

    def __init__(self, srv):
        self.srv = srv
        self.buf = None
        self.pos = 0
        self.limit = None
        self.end = None
        self.rng = random.Random(len(srv.files) + srv.cfg.get('seed', 0))
        self.family = socket.AF_INET

    def settimeout(self, t):
        pass

    def recv(self, n):
        assert self.buf is not None
        stop = len(self.buf) if self.limit is None else min(self.limit, len(self.buf))
        if self.pos >= stop:
            if self.end is None or self.limit is None:
                return b''
            if self.end == 'reset':
                raise ConnectionResetError(104, 'Connection reset by peer')
            if self.end == 'timeout':
                raise TimeoutError('timed out')
            return b''
        k = min(n, stop - self.pos, self.rng.choice((1, 17, 512, 1460, 8192)))
        out = self.buf[self.pos:self.pos + k]
        self.pos += k
        return out

    def recv_into(self, b, n=0, flags=0):
        d = self.recv(n or len(b))
        b[:len(d)] = d
        return len(d)

    def makefile(self, mode='r', *a, **k):
        import io
        d = b''
        while True:
            x = self.recv(8192)
            if not x:
                break
            d += x
        enc = k.get('encoding') or 'utf-8'
        return io.StringIO(d.decode(enc)) if 'b' not in mode else io.BytesIO(d)

    def close(self):
        pass

    def shutdown(self, how):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class CtrlFile:
    def __init__(self, c):
        self.c = c

    def readline(self, n=-1):
        return self.c.line()

    def close(self):
        pass


class Ctrl:
    def __init__(self, srv):
        self.srv = srv
        self.lines = ['220 simulated server ready']
        self.dead = None
        self.inp = b''
        self.family = socket.AF_INET
        self.cwd = '/'

    def getpeername(self):
        return ('192.0.2.1', 21)

    def getsockname(self):
        return ('192.0.2.2', 4321)

    def settimeout(self, t):
        pass

    def makefile(self, *a, **k):
        return CtrlFile(self)

    def line(self):
        if self.lines:
            return self.lines.pop(0) + '\r\n'
        if self.dead == 'timeout':
            raise TimeoutError('timed out')
        if self.dead == 'reset':
            raise ConnectionResetError(104, 'Connection reset by peer')
        return ''

    def close(self):
        pass

    def shutdown(self, how):
        pass

    def sendall(self, b, flags=0):
        if self.dead == 'reset':
            raise BrokenPipeError(32, 'Broken pipe')
        self.inp += b
        while b'\n' in self.inp:
            l, self.inp = self.inp.split(b'\n', 1)
            self.command(l.decode('utf-8').strip())

    send = sendall

    def say(self, x):
        if self.dead is None:
            self.lines.append(x)

    def command(self, line):
        s = self.srv
        cmd, _, arg = line.partition(' ')
        cmd = cmd.upper()
        if cmd == 'USER':
            self.say('331 password please')
        elif cmd == 'PASS':
            self.say('530 login incorrect' if s.fault('login') else '230 logged in')
        elif cmd == 'TYPE':
            self.say('200 ok')
        elif cmd == 'CWD':
            if s.fault('cwd'):
                self.say('550 no such directory')
            else:
                self.cwd = arg
                self.say('250 ok')
        elif cmd in ('PASV', 'EPSV'):
            s.next_data = Data(s)
            self.say('227 Entering Passive Mode (192,0,2,1,100,1)' if cmd == 'PASV' else '229 Entering Extended Passive Mode (|||25601|)')
        elif cmd in ('NLST', 'LIST', 'MLSD'):
            d = s.next_data
            body = ''.join(f'{n}\r\n' for n in list(s.files) + s.cfg.get('extra', [])).encode()
            d.buf = body
            self.say('150 here it comes')
            if s.fault('nlst'):
                d.limit, d.end = len(body) // 2, 'reset'
                self.dead = 'reset'
            else:
                self.say('226 done')
        elif cmd == 'SIZE':
            self.say(f'213 {len(s.files[arg])}' if arg in s.files else '550 no such file')
        elif cmd == 'REST':
            self.rest = int(arg)
            self.say('350 restarting')
        elif cmd == 'RETR':
            f = s.fault('drop', 'abort', 'stall', 'noreply', 'missing', 'ctrl')
            if f and f['kind'] == 'ctrl':
                self.dead = 'reset'
                return
            if arg not in s.files or (f and f['kind'] == 'missing'):
                self.say('550 no such file')
                return
            d = s.next_data
            d.buf = s.files[arg][getattr(self, 'rest', 0):]
            self.rest = 0
            self.say('150 here it comes')
            if f:
                k = f['kind']
                if k != 'noreply':
                    d.limit = min(int(f.get('frac', 0.5) * len(d.buf)), max(len(d.buf) - 1, 0))
                if k == 'drop':
                    d.end = 'reset'
                    self.dead = 'reset'
                elif k == 'abort':
                    d.end = 'eof'
                    self.say('426 connection closed; transfer aborted')
                elif k == 'stall':
                    d.end = 'timeout'
                    self.dead = 'timeout'
                elif k == 'noreply':
                    self.dead = 'timeout'
            else:
                self.say('226 transfer complete')
        elif cmd == 'QUIT':
            self.say('221 bye')
        elif cmd in ('ABOR', 'NOOP'):
            self.say('226 ok')
        else:
            self.say('502 not implemented')


def install(cfg):
    import ftplib
    srv = Server(cfg)

    def connect(address, timeout=None, source_address=None, **k):
        if srv.next_data is not None and address[1] == 25601:
            if srv.fault('refuse_data'):
                raise ConnectionRefusedError(111, 'Connection refused')
            return srv.next_data
        f = srv.fault('refuse', 'hang')
        if f:
            if f['kind'] == 'hang':
                raise TimeoutError('timed out')
            raise ConnectionRefusedError(111, 'Connection refused')
        return Ctrl(srv)
    socket.create_connection = connect
    ftplib.socket.create_connection = connect
    return srv
