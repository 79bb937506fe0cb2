"""Parsing of reports and driver logs, and samplers of schedules, shared by the checks."""
import re, struct, random, collections, math

ROW = re.compile(r'^ {2} *(\d+) (\S.*?) +(\S+) +(NAN|\?\?\?|1 - \S+|\S+) +(Ok|SUSPICIOUS|FAIL|\?\?\?|\S+(?: \S+)*?) +(\d+)$')
class Report:
    __slots__ = ('name', 'rows', 'seeds', 'nseeds', 'filler', 'used', 'passed', 'susp', 'failed', 'allpassed', 'complete', 'text', 'started', 'gen', 'bits')
    def key(self):
        """Everything but times."""
        return (self.name, tuple(self.rows), tuple(self.seeds), self.nseeds, tuple(self.used), self.passed, self.susp, self.failed, self.allpassed, self.complete)

def parse_reports(text):
    """All battery reports of an output text; a Report for every '===== Starting' line."""
    out = []; cur = None; mode = None
    for ln in text.split('\n'):
        m = re.match(r"^(?:.*?)===== Starting '(.*)' battery =====$", ln)
        if m:
            cur = Report(); cur.name = m.group(1); cur.rows = []; cur.seeds = []; cur.nseeds = None; cur.filler = False; cur.used = []
            cur.passed = cur.susp = cur.failed = None; cur.allpassed = False; cur.complete = False; cur.started = True; cur.gen = cur.bits = None
            out.append(cur); mode = None; continue
        if cur is None: continue
        if ln.startswith('==================== Seeds logger report'): mode = 'seeds'; continue
        if re.match(r"^==================== '.*' battery (test #\d+ )?report ====================$", ln): mode = 'report'; continue
        if mode == 'seeds':
            m = re.match(r'^Number of seeds: (\d+)$', ln)
            if m: cur.nseeds = int(m.group(1)); continue
            m = re.match(r'^ *([0-9A-F]+) 0x([0-9A-F]{16}) (\d{20})$', ln)
            if m:
                cur.seeds.append((int(m.group(1), 16), int(m.group(2), 16)))
                if int(m.group(3)) != int(m.group(2), 16): cur.seeds.append(('decimal-mismatch', ln))
                continue
            if ln.strip(' .') == '' and '...' in ln: cur.filler = True; continue
        if mode == 'report':
            m = re.match(r'^Generator name: +(.*)$', ln)
            if m: cur.gen = m.group(1); continue
            m = re.match(r'^Used seed: +(\S+)$', ln)
            if m: cur.used.append(m.group(1)); continue
            m = re.match(r'^Passed: +(\d+)$', ln)
            if m: cur.passed = int(m.group(1)); continue
            m = re.match(r'^Suspicious: +(\d+)$', ln)
            if m: cur.susp = int(m.group(1)); continue
            m = re.match(r'^Failed: +(\d+)$', ln)
            if m: cur.failed = int(m.group(1)); cur.complete = True; continue
            if 'All tests have been passed successfully' in ln: cur.allpassed = True; continue
            m = ROW.match(ln)
            if m and not cur.complete: cur.rows.append((int(m.group(1)), m.group(2), m.group(3), m.group(4), m.group(5), int(m.group(6)))); continue
    return out

def rows_nothread(rows): return [r[:5] for r in rows]

class Aux: pass
def parse_aux(text, run=None):
    """Events of the api driver, per run: list of Aux with fields."""
    runs = []; cur = None
    for ln in text.split('\n'):
        f = ln.split(' ')
        if f[0] == 'RUN':
            cur = Aux(); cur.n = int(f[1]); cur.pos0 = int(f[2]); cur.GS = []; cur.C = []; cur.D = []; cur.TB = []; cur.TE = []; cur.TS = []; cur.F = []; cur.bad = []; cur.rc = None; cur.pos1 = None; cur.ev = []
            runs.append(cur); continue
        if cur is None: continue
        k = f[0]
        if k == 'GS': cur.GS.append((int(f[1]), int(f[2], 16), int(f[3]))); cur.ev.append(('S', int(f[2], 16), int(f[3]), 64, int(f[1])))
        elif k == 'C': cur.C.append((int(f[1]), int(f[2], 16), int(f[3], 16), int(f[4])))
        elif k == 'D': cur.D.append(int(f[2], 16)); cur.ev.append(('S', int(f[2], 16), 0, 64, None))
        elif k == 'TB': cur.TB.append(tuple(int(x) for x in f[1:6])); cur.ev.append(('TB',) + tuple(int(x) for x in f[1:6]))
        elif k == 'TE': cur.TE.append(tuple(int(x) for x in f[1:7]) + (int(f[7], 16),)); cur.ev.append(('TE',) + tuple(int(x) for x in f[1:7]))
        elif k == 'TS': cur.TS.append((int(f[2]), int(f[3], 16), int(f[4]))); cur.ev.append(('S', int(f[3], 16), int(f[4]), 64, None))
        elif k == 'TS3': cur.TS.append((int(f[2]), int(f[3], 16), int(f[4]))); cur.ev.append(('S', int(f[3], 16), int(f[4]), 32, None))
        elif k == 'F': cur.F.append((int(f[1]), int(f[2]), int(f[3]))); cur.ev.append(('F', int(f[1]), int(f[2]), int(f[3])))
        elif k in ('SHARED', 'USEFREED', 'BADFREE', 'CF', 'CN'): cur.bad.append(ln)
        elif k == 'RET': cur.rc = int(f[2]); cur.pos1 = int(f[3])
    return runs

def sched(rng, base=None, steps=None, maxd=6):
    """A random scheduling policy: many flavours, so that no single bias decides what is reached.
    base: result of a profile run (acc=2) whose conflicting accesses are used as preemption points."""
    k = rng.random(); s = rng.randrange(1, 1 << 40)
    if base is not None and base.hot and k < 0.45:
        d = 1 + min(maxd, int(rng.expovariate(0.7)))
        picks = sorted(rng.sample(base.hot, min(d, len(base.hot))))
        nt = max(2, base.nthreads + 1)
        return {'pol': 'expl', 'seed': s, 'switches': ' '.join('%d %d' % (st, rng.randrange(nt)) for st, t in picks)}
    if k < 0.55:
        return {'pol': 'pct', 'seed': s, 'pct_d': rng.choice([1, 2, 3, 4, 6, 10]), 'pct_len': max(100, steps or 5000)}
    if k < 0.65:
        return {'pol': 'rand', 'seed': s, 'p_call': rng.choice([0, 50, 200]), 'mean_mem': 0, 'acc': 1, 'p_conf': rng.choice([50, 200, 500])}
    d = {'pol': 'rand', 'seed': s, 'p_call': rng.choice([20, 100, 300, 600, 900]), 'mean_mem': rng.choice([0, 3, 20, 100, 500, 3000]) if not steps or steps < 200000 else rng.choice([0, 500, 3000, 20000])}
    if rng.random() < 0.3: d['p_stall'] = rng.choice([5, 50, 200])
    return d

def compare_reports(a, b):
    """First difference between two reports (times aside), or None."""
    if len(a) != len(b): return 'number of reports %d / %d' % (len(a), len(b))
    for x, y in zip(a, b):
        if x.key() == y.key(): continue
        for i, (p, q) in enumerate(zip(x.rows, y.rows)):
            if p != q: return 'row %r became %r' % (p, q)
        if len(x.rows) != len(y.rows): return '%d rows became %d' % (len(x.rows), len(y.rows))
        for i, (p, q) in enumerate(zip(x.seeds, y.seeds)):
            if p != q: return 'seeds log entry %d: %r became %r' % (i, p, q)
        return 'seeds %r/%r used %r/%r totals %r/%r' % (x.nseeds, y.nseeds, x.used, y.used, (x.passed, x.susp, x.failed, x.allpassed), (y.passed, y.susp, y.failed, y.allpassed))
    return None

def clean_exit(r):
    """Reason why the run did not end by exit(), or None."""
    return None if r.kind == 'exit' else '%s: %s' % (r.status, r.note)

def fmt_g(x): return '%g' % x
