"""Talks to a simulator host: one scenario in, one result out."""
import os, struct, subprocess, hashlib, collections
from . import build

class Result:
    __slots__ = ('kind', 'code', 'steps', 'points', 'switches', 'hash', 'ilv', 'vns', 'nclk', 'maxlive', 'returned', 'left_n', 'left_bytes', 'left_fd', 'left_dl', 'left_thr', 'nthreads', 'out_total',
                 'out_hash', 'err_total', 'out_fail_pos', 'work_after_fail', 'stdin_pos', 'in_fail_pos', 'cnt', 'fired', 'sw', 'hot', 'out', 'err', 'aux', 'note')
    def outtext(self): return self.out.decode('latin-1')
    def errtext(self): return self.err.decode('latin-1')
    def auxlines(self): return self.aux.decode('latin-1').split('\n')
    def digest(self):
        """Everything a re-run of the same scenario must repeat."""
        h = hashlib.sha256()
        note = self.note if self.kind not in ('asan', 'signal', 'timeout') else ''   # addresses may differ between processes
        h.update(repr((self.kind, self.code, self.steps, self.points, self.hash, note)).encode())
        h.update(hashlib.sha256(self.out).digest()); h.update(hashlib.sha256(self.err).digest()); h.update(hashlib.sha256(self.aux).digest())
        return h.hexdigest()[:24]
    @property
    def status(self):
        return 'exit %d' % self.code if self.kind == 'exit' else '%s %d' % (self.kind, self.code) if self.kind == 'signal' else self.kind

class HostDied(Exception):
    pass

def encode(sc):
    """sc: list of (key, value) or dict with str/bytes/int/list values -> request bytes"""
    out = []
    items = sc.items() if isinstance(sc, dict) else sc
    for k, v in items:
        for x in (v if isinstance(v, (list, tuple)) else (v,)):
            if isinstance(x, bool): x = int(x)
            b = x if isinstance(x, bytes) else str(x).encode('latin-1')
            out.append(b'%s %d\n%s\n' % (k.encode(), len(b), b))
    return b''.join(out)

def parse(rd):
    hl, = struct.unpack('<I', rd(4))
    r = Result(); r.cnt = {}; r.fired = {}
    h = {}
    for ln in rd(hl).decode('latin-1').split('\n'):
        k, _, v = ln.partition(' ')
        if k.startswith('f:'):
            a, b = v.split(); r.cnt[k[2:]] = int(a)
            if int(b): r.fired[k[2:]] = int(b)
        elif k: h[k] = v
    r.kind = h['kind']; r.code = int(h['code'])
    for k in ('steps', 'points', 'switches', 'vns', 'nclk', 'maxlive', 'returned', 'left_n', 'left_bytes', 'left_fd', 'left_dl', 'left_thr', 'nthreads', 'out_total', 'err_total', 'out_fail_pos', 'work_after_fail', 'stdin_pos', 'in_fail_pos'):
        setattr(r, k, int(h.get(k, 0)))
    for k in ('hash', 'ilv', 'out_hash', 'note'): setattr(r, k, h[k])
    n = int(h['nsw']); b = rd(16 * n); r.sw = [struct.unpack_from('<QI', b, 16 * i) for i in range(n)]
    n = int(h['nhot']); b = rd(16 * n); r.hot = [struct.unpack_from('<QI', b, 16 * i) for i in range(n)]
    r.out = rd(int(h['out_len'])); r.err = rd(int(h['err_len'])); r.aux = rd(int(h['aux_len']))
    return r

class Host:
    def __init__(self, variant, cpu=None):
        self.variant = variant
        self.cpu = cpu
        self.p = None
        self.runs = 0
    def start(self):
        env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LD_LIBRARY_PATH')}
        env['LC_ALL'] = 'C'; env['TZ'] = 'UTC'
        env['MALLOC_MMAP_THRESHOLD_'] = '1048576'; env['MALLOC_ARENA_MAX'] = '1'
        if self.cpu is not None: env['SIM_CPU'] = str(self.cpu)
        self.p = subprocess.Popen([build.host(self.variant)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd='/', bufsize=-1)
    def close(self):
        if self.p:
            try: self.p.stdin.close(); self.p.wait(5)
            except Exception: self.p.kill()
            self.p = None
    def _rd(self, n):
        b = self.p.stdout.read(n)
        if len(b) != n: raise HostDied('simulator host ended')
        return b
    def run(self, sc, wall=60):
        if self.p is None: self.start()
        req = encode(sc)
        self.p.stdin.write(struct.pack('<II', len(req), wall)); self.p.stdin.write(req); self.p.stdin.flush()
        r = parse(self._rd)
        self.runs += 1
        return r

class Host32:
    """The 32-bit host: a process per run."""
    def __init__(self, cpu=None):
        self.cpu = cpu; self.exe = build.host32(); self.runs = 0
    def close(self): pass
    def run(self, sc, wall=60):
        self.runs += 1
        try:
            p = subprocess.run([self.exe], input=encode(sc), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd='/', timeout=wall)
            kind, code, out = ('signal', -p.returncode, b'') if p.returncode < 0 else ('', 0, p.stdout)
        except subprocess.TimeoutExpired:
            kind, code, out = 'timeout', 0, b''
        if kind:
            r = Result(); r.cnt = {}; r.fired = {}; r.kind = kind; r.code = code; r.sw = []; r.hot = []; r.out = r.err = r.aux = b''
            for k in ('steps', 'points', 'switches', 'vns', 'nclk', 'maxlive', 'returned', 'left_n', 'left_bytes', 'left_fd', 'left_dl', 'left_thr', 'nthreads', 'out_total', 'err_total', 'out_fail_pos', 'work_after_fail', 'stdin_pos', 'in_fail_pos'): setattr(r, k, 0)
            r.hash = r.ilv = r.out_hash = '0'; r.note = kind
            return r
        pos = [0]
        def rd(n):
            b = out[pos[0]:pos[0] + n]; pos[0] += n
            if len(b) != n: raise HostDied('incomplete answer of the 32-bit host')
            return b
        return parse(rd)
