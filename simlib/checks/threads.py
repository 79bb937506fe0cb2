"""C01-C06 and C22: the multithreaded battery runner under controlled schedules."""
import random, re, math, collections
from ..engine import Check, rng_of
from .. import build, common as cm, work

# ------------------------------------------------------------------ case generation
TEXTSEEDS = ['alpha', 'beta', 'z', '12345', 'Quick brown fox', 'lorem-ipsum', 'k' * 60]
def api_params(r, mt=True):
    """Random parameters of one api driver run."""
    n = r.choice([2, 2, 2, 3, 3, 4, 5, 8]) if mt else 1
    if mt and r.random() < 0.04: n = r.choice([16, 33, 64])
    t = r.choice([0, 1, 2, 3, 5, 8, 12, 20, 40]) if r.random() < 0.9 else r.choice([63, 150])
    d = {'t': t, 'n': n, 'draws': r.choice([1, 3, 6, 20, 60]), 'spread': r.choice([1, 4, 30]), 'tseed': r.randrange(1, 1000),
         'seed': r.choice(TEXTSEEDS) + str(r.randrange(100)) if r.random() < 0.9 else 'x', 'gseeds': r.choice([1, 2, 2, 4]), 'bits': r.choice([64, 64, 32])}
    d['seed'] = d['seed'].replace(' ', '_')
    if r.random() < 0.4: d['prints'] = r.choice([1, 3]); d['plen'] = r.choice([5, 40, 300])
    if r.random() < 0.4: d['seeds'] = r.choice([1, 2, 5])
    if r.random() < 0.3: d['points'] = r.choice([1, 5])
    if r.random() < 0.2: d['gprint'] = 1
    if r.random() < 0.1: d['filter'] = 1
    if r.random() < 0.15: d['rep'] = 0
    if r.random() < 0.15: d['modes'] = ''.join(r.choice('0000123456') for _ in range(min(t, 60)))
    if not d.get('modes'): d.pop('modes', None)
    return d

def shrink_api(line):
    out = []
    for k, lo in (('t', 1), ('n', 2), ('draws', 1), ('spread', 1), ('prints', 0), ('seeds', 0), ('points', 0), ('gprint', 0), ('filter', 0), ('plen', 5), ('direct', 0), ('gseeds', 1)):
        v = line.get(k)
        if isinstance(v, int) and v > lo:
            for nv in sorted({lo, lo + (v - lo) // 2, v - 1}):
                if nv < v: x = dict(line); x[k] = nv; out.append(x)
    if line.get('modes'): x = dict(line); x.pop('modes'); out.append(x)
    return out

def cli_case(r, menu=None, nt=None):
    g = r.choice(work.GENS64 + work.GENS32[:2])
    n = r.choice([2, 2, 3, 4, 5])
    return {'bat': work.bat_file(r, nt or r.choice([2, 3, 4, 6]), menu or work.MID), 'gen': g, 'n': n, 'seed': '%s%d' % (r.choice('abcdef'), r.randrange(1000))}

def cli_sc(c, P, extra=(), **kw):
    return work.cli(['f=bat.txt', c['gen'] + '.so', '--nthreads=%d' % c['n'], '--seed=' + c['seed']] + list(extra),
                    {'bat.txt': c['bat']}, **{'so:%s.so' % c['gen']: P[c['gen']]}, **kw)

class ThreadCheck(Check):
    variant = 'T'; wall = 60; cli_share = 0.12; prof_max = 400000; K = 4; technique = 'deterministic simulation: seeded thread schedules at memory-access granularity (preemption at instrumented loads/stores, locks, calls), against the round-robin run of the same scenario'
    gens = work.GENS64 + work.GENS32[:2]
    menu = None
    def prepare(self):
        build.host(self.variant); self.P = build.plugins(self.gens, self.variant)
    def cases(self, tier, seed):
        i = 0
        while True:
            r = rng_of(self.id, seed, i)
            c = self.case(r, tier); c['i'] = i; c['K'] = self.K if tier == 'quick' else self.K * 3
            yield c; i += 1
    def case(self, r, tier):
        if r.random() < self.cli_share:
            return {'cli': cli_case(r, self.menu)}
        d = api_params(r); d.pop('seeds', None)   # tests of the program never ask for seeds; their order of issue is the schedule's
        return {'api': d}
    def shrink(self, case):
        if 'api' in case:
            for l in shrink_api(case['api']):
                c = dict(case); c['api'] = l; yield c
        if 'cli' in case:
            ls = case['cli']['bat'].rstrip('\n').split('\n')
            for i in range(1, len(ls)):
                if len(ls) > 2:
                    c = dict(case); c['cli'] = dict(case['cli']); c['cli']['bat'] = '\n'.join(ls[:i] + ls[i + 1:]) + '\n'; yield c
            if case['cli']['n'] > 2:
                c = dict(case); c['cli'] = dict(case['cli']); c['cli']['n'] -= 1; yield c
    def scen(self, case):
        return work.api([case['api']]) if 'api' in case else cli_sc(case['cli'], self.P, ['--report-brief'] if case.get('brief') else [])
    def schedules(self, case, p, sc, base):
        """Yields (name, scenario) for the case's schedules. The seeds depend on the case number only."""
        hot = None
        for j in range(case['K']):
            r = rng_of('sched', case.get('i'), j)
            if j == 1 and base.steps < self.prof_max:
                hot = p.run('profile', dict(sc, acc=2), base=True)
            s = dict(sc); s.update(cm.sched(r, hot, base.steps))
            yield 's%d' % j, s

def abnormal(r):
    if r.kind == 'exit': return None
    return '%s (%s)' % (r.status, r.note[:300])

# ------------------------------------------------------------------ C01
class C01(ThreadCheck):
    id = 'C01'; level = 'exploration'; quick_cases = 1500; quick_s = 40; cli_share = 0.12
    rule = 'case: random battery (synthetic tests through the public battery interface, or a battery file over real tests and generators on the command line), threads, seed; each case is run once round-robin and K times under random schedules; the seeds log, rows and exit status must be equal.'
    assumptions = ['sequentially consistent memory: interleavings of instrumented accesses, no weak-memory reorderings']
    def play(self, case, p):
        sc = self.scen(case)
        b = p.run('rr', sc, base=True)
        a = abnormal(b)
        if a: p.fail('abnormal', 'round-robin run ended with ' + a); return
        rb = cm.parse_reports(b.outtext())
        for name, s in self.schedules(case, p, sc, b):
            r = p.run(name, s)
            a = abnormal(r)
            if a: p.fail('abnormal', 'under another schedule the run ended with %s instead of %s' % (a, b.status)); continue
            if r.code != b.code: p.fail('exit-status', 'exit status %d became %d under another schedule' % (b.code, r.code)); continue
            d = cm.compare_reports(rb, cm.parse_reports(r.outtext()))
            if d: p.fail('report', 'another schedule changed the report: ' + d)

# ------------------------------------------------------------------ C02
def p_text(p, alpha):
    if p != p or alpha != alpha: return 'NAN'
    if p < 2.2250738585072014e-308: return '0'
    if 1e-3 <= p <= 0.999: return '%.3f' % p
    if p < 1e-3: return '%.2e' % p
    return '1 - %.2e' % alpha if alpha > 2.2250738585072014e-308 else '1'
MODES = {1: (1e-30, 1.0), 2: (1.0, 1e-40), 3: (1e-5, 1 - 1e-5), 5: (0.0, 1.0), 6: (1 - 1e-5, 1e-5)}
def expect_row(idx, name, mode, h):
    x = float(h >> 12); p = 0.002 + 0.99 * ((h >> 40) / 16777216.0); al = 1.0 - p
    if mode in MODES: p, al = MODES[mode]
    if mode == 4: p = al = x = float('nan')
    return (idx + 1, name, '%g' % x if x == x else 'nan', p_text(p, al))

def brief_rows(rows):
    return [r for r in rows if r[4] != 'Ok']

class C02(ThreadCheck):
    id = 'C02'; quick_cases = 4000; quick_s = 40; K = 2; cli_share = 0.05
    rule = 'case: random synthetic battery, threads, whole run or one test selected by number or name (valid, unknown, both, duplicate names); every test records its start, end, thread, and a hash of what it drew; rows are checked against these records.'
    technique = 'deterministic simulation: seeded thread schedules; the report is checked against the execution records of the tests of the same run'
    def case(self, r, tier):
        if r.random() < self.cli_share: return {'cli': cli_case(r, work.CHEAP)}
        d = api_params(r, mt=r.random() < 0.75)
        k = r.random()
        if k < 0.12: d['id'] = r.choice([0, 1, d['t'], d['t'] + 1, max(1, d['t'] // 2), 4000000000, 255, 256 + 1])
        elif k < 0.22: d['name'] = r.choice(['t%03d' % r.randrange(max(1, d['t'])), 't000', 'nosuch', 't00', 'T000', 't0000'])
        elif k < 0.25: d['id'] = 1; d['name'] = 't000'
        if r.random() < 0.2: d['dupnames'] = 1
        if r.random() < 0.3:
            d['pfx'] = r.choice([1, 9, 15, 16, 31])
            if d.get('name') and r.random() < 0.8: d['name'] = 'a_common_beginning_of_all_names_'[:d['pfx']] + d['name']
        if r.random() < 0.01: d.update(t=r.choice([255, 256, 300, 513]), draws=1, spread=2, n=min(d['n'], 3)); d.pop('prints', None)
        return {'api': d}
    def play(self, case, p):
        sc = self.scen(case)
        if 'cli' in case:
            self.play_cli(case, p, sc); return
        runs = [('rr', sc)]
        b = p.run('rr', sc, base=True); self.judge(case, p, b)
        if case['api']['n'] > 1:
            for name, s in self.schedules(case, p, sc, b): self.judge(case, p, p.run(name, s))
    def play_cli(self, case, p, sc):
        names = [l.split(' ')[0] for l in case['cli']['bat'].strip().split('\n')[1:]]
        b = p.run('rr', sc, base=True)
        for name, s in [('rr', None)] + list(self.schedules(case, p, sc, b)):
            r = b if s is None else p.run(name, s)
            if abnormal(r): p.fail('abnormal', abnormal(r)); continue
            rep = cm.parse_reports(r.outtext())
            if len(rep) != 1 or [x[:2] for x in rep[0].rows] != [(i + 1, n) for i, n in enumerate(names)]:
                p.fail('rows', 'battery file %r reported as %r' % (names, rep and rep[0].rows)); continue
            log = re.findall(r'^ *== TH # *(\d+) ==> v+ Thread (\d+): test #(\d+): (\S+) \(.*started', r.outtext(), re.M)
            if sorted(int(x[2]) for x in log) != list(range(1, len(names) + 1)):
                p.fail('started', 'tests started %r for %d tests' % (sorted(int(x[2]) for x in log), len(names)))
            who = {int(x[2]): int(x[0]) for x in log}
            for x in rep[0].rows:
                if who.get(x[0]) != x[5]: p.fail('thread-number', 'test %d ran in thread %r and is reported with %d' % (x[0], who.get(x[0]), x[5])); break
    def judge(self, case, p, r):
        c = case['api']; t = c['t']; dup = c.get('dupnames', 0)
        nm = lambda i: 'a_common_beginning_of_all_names_'[:c.get('pfx', 0)] + 't%03d' % (i // 2 if dup else i)
        a = abnormal(r)
        if a: p.fail('abnormal', a); return
        aux = cm.parse_aux(r.aux.decode('latin-1')); rep = cm.parse_reports(r.outtext())
        if len(aux) != 1 or len(rep) != 1: p.fail('reports', '%d runs, %d reports' % (len(aux), len(rep))); return
        aux = aux[0]; rep = rep[0]
        want = None; sel = False; err = False
        if c.get('id') and c.get('name'): err = True
        elif c.get('id'): sel = True; want = [c['id'] - 1] if c['id'] <= t else None; err = want is None
        elif c.get('name'):
            sel = True; m = [i for i in range(t) if nm(i) == c['name']]; want = m[:1] or None; err = want is None
        else: want = list(range(t))
        if err:
            if aux.TB: p.fail('selection', 'unknown test selected but tests %r ran' % sorted(x[1] for x in aux.TB))
            if rep.rows or rep.passed is not None or rep.failed is not None: p.fail('selection', 'unknown test selected but a report was printed')
            if aux.rc == 0: p.fail('selection', 'unknown test selected but the run succeeded')
            p.probe('rejected-selection'); return
        ran = sorted(x[1] for x in aux.TB); ended = sorted(x[1] for x in aux.TE)
        if ran != want or ended != want: p.fail('executions', 'tests started %r, ended %r, expected %r' % (ran, ended, want)); return
        te = {x[1]: x for x in aux.TE}
        modes = c.get('modes', '')
        exp = []
        for i in want:
            m = int(modes[i]) if i < len(modes) else 0
            exp.append(expect_row(i, nm(i), m, te[i][6]))
        full = rep.rows
        if c.get('rep', 1) == 0:
            bad = {i + 1 for i in want if (int(modes[i]) if i < len(modes) else 0)}
            have = {x[0] for x in full}
            if not have <= bad | set(): p.fail('brief-rows', 'rows %r though only %r are not passed' % (sorted(have), sorted(bad))); return
            if not {i for i in bad if modes[i - 1] != '4'} <= have: p.fail('brief-rows', 'rows %r miss some of %r' % (sorted(have), sorted(bad))); return
            exp = [e for e in exp if e[0] in have]
        got = [x[:4] for x in full]
        norm = lambda s: 'nan' if s.strip('-') == 'nan' else s
        if [(a, b, norm(x), q) for a, b, x, q in got] != exp:
            d = next(((g, e) for g, e in zip(got, exp) if (g[0], g[1], norm(g[2]), g[3]) != e), (len(got), len(exp)))
            p.fail('rows', 'row reported as %r, the test produced %r' % d); return
        tid2ord = {}
        for x in full:
            tid = te[x[0] - 1][4]
            if tid2ord.setdefault(tid, x[5]) != x[5]: p.fail('thread-number', 'rows of one thread carry the numbers %d and %d' % (tid2ord[tid], x[5])); return
        if len(set(tid2ord.values())) != len(tid2ord): p.fail('thread-number', 'two threads share a number: %r' % tid2ord)
        if c['n'] > 1 and not sel:
            if any(not 1 <= v <= c['n'] for v in tid2ord.values()): p.fail('thread-number', 'thread numbers %r with %d threads' % (tid2ord, c['n']))
        npass = sum(1 for i in want if (int(modes[i]) if i < len(modes) else 0) == 0)
        if rep.passed is not None and '4' not in modes:
            nf = sum(1 for i in want if i < len(modes) and modes[i] in '125'); ns = sum(1 for i in want if i < len(modes) and modes[i] in '36')
            if (rep.passed, rep.susp, rep.failed) != (npass, ns, nf): p.fail('totals', 'totals %r instead of %r' % ((rep.passed, rep.susp, rep.failed), (npass, ns, nf)))
        if not rep.complete: p.fail('incomplete', 'the report has no totals')

# ------------------------------------------------------------------ C03
class C03(ThreadCheck):
    id = 'C03'; quick_cases = 4000; quick_s = 40; K = 3; cli_share = 0.0
    rule = 'case: random synthetic battery with a counting generator; every test records the generator instance, its position before and after, and compares every drawn word with the value of that instance at that position.'
    technique = 'deterministic simulation: seeded thread schedules; ownership, continuity and release of the generator instances checked over the recorded history'
    def case(self, r, tier):
        d = api_params(r, mt=r.random() < 0.8); d['prints'] = 0
        if r.random() < 0.2: d['id'] = r.randrange(1, d['t'] + 1) if d['t'] else 1
        return {'api': d}
    def play(self, case, p):
        sc = self.scen(case)
        b = p.run('rr', sc, base=True); self.judge(case, p, b)
        if case['api']['n'] > 1:
            for name, s in self.schedules(case, p, sc, b): self.judge(case, p, p.run(name, s))
    def judge(self, case, p, r):
        c = case['api']; a = abnormal(r)
        if a: p.fail('abnormal', a); return
        aux = cm.parse_aux(r.aux.decode('latin-1'))[0]; filt = c.get('filter')
        if aux.bad: p.fail('ownership', aux.bad[0]); return
        made = [x[0] for x in aux.C]; freed = collections.Counter(x[0] for x in aux.F)
        for i in made:
            if freed[i] != 1: p.fail('release', 'instance %d released %d times' % (i, freed[i])); return
        pos = {}; owner = {}; usedby = collections.defaultdict(set)
        seenF = set(); keys = {x[0]: x[1:3] for x in aux.C}
        for e in aux.ev:
            if e[0] == 'F': seenF.add(e[1])
            elif e[0] == 'TB':
                _, run, test, inst, start, tid = e
                if inst in seenF: p.fail('release', 'instance %d used after its release' % inst); return
                usedby[inst].add(tid)
                first = inst not in pos
                lim = 1000 if (c['n'] == 1 or c.get('id')) and (c['bits'] == 32 or filt) else 0
                if first:
                    if start > lim and start != 0: p.fail('continuity', 'test %d starts at output %d of a fresh instance' % (test + 1, start)); return
                elif start != pos[inst]: p.fail('continuity', 'test %d starts at output %d of instance %d, the previous test ended at %d' % (test + 1, start, inst, pos[inst])); return
            elif e[0] == 'TE':
                _, run, test, inst, end, tid, bad = e
                usedby[inst].add(tid); pos[inst] = end
                if bad: p.fail('stream', 'test %d: %d of its words are not the next outputs of its own instance' % (test + 1, bad)); return
        bytid = collections.defaultdict(set)
        for inst, ts in usedby.items():
            if len(ts) != 1: p.fail('ownership', 'instance %d used by threads %r' % (inst, sorted(ts))); return
            bytid[next(iter(ts))].add(inst)
        for tid, s in bytid.items():
            if len(s) != 1: p.fail('ownership', 'thread %d used the instances %r' % (tid, sorted(s))); return
        ks = [keys[i] for i in usedby]
        if len(set(ks)) != len(ks): p.fail('ownership', 'two threads run the same stream')
        if aux.F:
            for i, end, tid in aux.F:
                if i in pos and end != pos[i]: p.fail('continuity', 'instance %d was at %d when the last test ended and at %d when released' % (i, pos[i], end)); return

# ------------------------------------------------------------------ C04
class C04(ThreadCheck):
    id = 'C04'; quick_cases = 1200; quick_s = 40; K = 4; cli_share = 0.1; menu = work.CHEAP
    rule = 'case: battery and threads under random schedules with long stalls of single threads, or with thread creation failing at the k-th thread; every run must end by exit(): complete report, or error message and failure status.'
    technique = 'deterministic simulation: seeded thread schedules with stalls and failing thread creation; deadlock, step-budget and abnormal-end detection by the simulator'
    def case(self, r, tier):
        k = r.random()
        if k < 0.12:
            c = cli_case(r, ['monobit', 'co', 'nw'], nt=r.choice([1, 2, 4])); c['n'] = r.choice([1, 2, 3, 16, 100, 250, 254, 255, 256, 257, 300, 1000, 65535, 65536, 4294967295])
            return {'cli': c, 'few': 1}
        c = {'cli': cli_case(r, work.CHEAP)} if k < 0.22 else {'api': api_params(r)}
        if 'api' in c and r.random() < 0.1: c['api']['n'] = r.choice([40, 100, 255, 256]); c['api']['t'] = r.choice([5, 60, 300]); c['api']['draws'] = 2
        if r.random() < 0.35:
            n = (c.get('api') or c['cli'])['n']; c['fault'] = ['thread_create %d %d eagain 0' % (r.randrange(n), r.choice([1, -1, 2]))]
        if 'cli' in c and r.random() < 0.3: c['threads'] = r.choice([1, 2, 3, 7, 300]); c.pop('fault', None)
        return c
    def play(self, case, p):
        sc = self.scen(case)
        if case.get('threads'):
            a = [x for x in sc['arg'] if not x.startswith('--nthreads')] + ['--threads']; sc['arg'] = a; sc['sysconf'] = ['84 %d' % case['threads'], '83 %d' % case['threads']]
        if case.get('fault'): sc['fault'] = case['fault']
        sc['max_steps'] = 60000000
        b = p.run('rr', sc, base=True); self.judge(case, p, b)
        if case.get('few') and case['cli']['n'] > 64: return
        for name, s in self.schedules(case, p, sc, b):
            self.judge(case, p, p.run(name, s))
    def judge(self, case, p, r):
        a = abnormal(r)
        if a: p.fail('no-exit:' + r.kind, a); return
        rep = cm.parse_reports(r.outtext())
        if r.fired.get('thread_create'):
            p.probe('thread-create-failed')
            if r.code == 0: p.fail('create-failure', 'a thread could not be created and the exit status is 0')
            if not r.err.strip(): p.fail('create-failure', 'a thread could not be created and no message was printed on standard error')
            if any(x.rows or x.passed is not None for x in rep): p.fail('create-failure', 'a thread could not be created and a report was printed')
            return
        if case.get('few') and (case['cli']['n'] > 255 or case['cli']['n'] < 1):
            if r.code == 0 and not (rep and rep[0].complete): p.fail('nthreads', 'neither a report nor an error')
            if r.code != 0 and not r.err.strip() and not (rep and rep[0].complete): p.fail('nthreads', 'exit status %d without a message' % r.code)
            return
        if 'cli' in case:
            nt = len(case['cli']['bat'].strip().split('\n')) - 1
            n = nt
        else: n = case['api']['t']
        if not rep or not rep[0].complete: p.fail('incomplete', 'exit status %d without a complete report' % r.code); return
        if case.get('api', {}).get('rep', 1) and len(rep[0].rows) != n: p.fail('incomplete', '%d rows for %d tests' % (len(rep[0].rows), n))

# ------------------------------------------------------------------ C05
MSG = re.compile(r'MSG run=(\d+) test=(\d+) n=(\d+) self=(\d+) pad=([a-z]*) end')
class C05(ThreadCheck):
    id = 'C05'; quick_cases = 2500; quick_s = 40; K = 4; cli_share = 0.15
    rule = 'case: synthetic tests and a synthetic generator printing tagged messages of random length (or real tests printing their logs) under random schedules; every message must appear once, whole, in one line, with its own thread number, in the order of its thread.'
    technique = 'deterministic simulation: seeded thread schedules at lock, print and memory-access granularity; history check of the printed lines'
    def case(self, r, tier):
        if r.random() < self.cli_share: return {'cli': cli_case(r, work.CHEAP)}
        d = api_params(r); d['prints'] = r.choice([1, 2, 4, 8]); d['plen'] = r.choice([3, 40, 300, 580]); d['draws'] = max(d['draws'], 6)
        if r.random() < 0.3: d['toerr'] = 1
        if d['t'] > 40: d['t'] = 40
        return {'api': d, 'outbuf': r.choice(['full', 'line', 'none'])}
    def play(self, case, p):
        sc = self.scen(case)
        if case.get('outbuf'): sc['outbuf'] = case['outbuf']
        b = p.run('rr', sc, base=True)
        if 'api' in case:
            self.judge(case, p, b)
            for name, s in self.schedules(case, p, sc, b): self.judge(case, p, p.run(name, s))
        else:
            lb = self.threadlog(b, p)
            for name, s in self.schedules(case, p, sc, b):
                l = self.threadlog(p.run(name, s), p)
                if l is None or lb is None: continue
                if l != lb:
                    for t in sorted(set(l) | set(lb)):
                        if l.get(t) != lb.get(t):
                            x, y = lb.get(t, []), l.get(t, [])
                            d = next(((a, b) for a, b in zip(x, y) if a != b), ('%d lines' % len(x), '%d lines' % len(y)))
                            p.fail('log', 'log of thread %d differs between schedules: %r / %r' % (t, d[0], d[1])); break
    def threadlog(self, r, p):
        if abnormal(r): p.fail('abnormal', abnormal(r)); return None
        out = collections.defaultdict(list)
        for ln in (r.outtext() + r.errtext()).split('\n'):
            m = re.match(r'^ *== TH # *(\d+) ==>(.*)$', ln)
            if m:
                if '== TH #' in m.group(2): p.fail('mixed', 'two prefixes in one line: %r' % ln[:200])
                t = re.sub(r'\d\d:\d\d:\d\d(\.\d+)?|[Ee]lapsed.*|[0-9.]+ (s|sec|seconds|ms)\b', '<time>', m.group(2))
                out[int(m.group(1))].append(t)
        return dict(out)
    def judge(self, case, p, r):
        c = case['api']
        if abnormal(r): p.fail('abnormal', abnormal(r)); return
        text = r.errtext() if c.get('toerr') else r.outtext()
        other = r.outtext() if c.get('toerr') else r.errtext()
        if 'MSG run=' in other: p.fail('stream', 'messages printed on the other stream')
        seen = collections.Counter(); order = collections.defaultdict(list); tid2ord = {}
        for ln in text.split('\n'):
            k = ln.count('MSG')
            if not k: 
                if ' end' in ln and re.search(r'pad=|self=', ln): p.fail('mixed', 'piece of a message: %r' % ln[:200]); return
                continue
            m = re.match(r'^ *== TH # *(\d+) ==> *' + MSG.pattern + '$', ln)
            if not m:
                p.fail('mixed', 'line with message text that is not one whole message: %r' % ln[:200]); return
            o, run, test, n, self_ = (int(m.group(i)) for i in range(1, 6))
            q = m.group(6)
            if q.strip(chr(97 + test % 26)): p.fail('mixed', 'message of test %d with foreign text: %r' % (test, ln[:200])); return
            seen[(run, test, n)] += 1
            if tid2ord.setdefault(self_, o) != o: p.fail('prefix', 'messages of one thread carry the numbers %d and %d' % (tid2ord[self_], o)); return
            order[(run, test)].append(n)
        ts = c['tseed']
        for k, v in seen.items():
            if v != 1: p.fail('lost-or-repeated', 'message %r printed %d times' % (k, v)); return
        if len(set(tid2ord.values())) != len(tid2ord): p.fail('prefix', 'two threads share a number: %r' % tid2ord); return
        aux = cm.parse_aux(r.aux.decode('latin-1'))[0]
        te = {x[1]: x for x in aux.TE}; tb = {x[1]: x for x in aux.TB}
        for t in te:
            have = sorted(n for (run, test, n) in seen if test == t)
            draws = te[t][3] - tb[t][3]
            exp = self.nprints(c, draws)
            if have != list(range(exp)): p.fail('lost-or-repeated', 'test %d printed %d messages, %r appear' % (t + 1, exp, have)); return
            if order[(0, t)] != sorted(order[(0, t)]): p.fail('order', 'messages of test %d in the order %r' % (t + 1, order[(0, t)])); return
        # order over the tests of one thread: by execution
        rows = cm.parse_reports(r.outtext())
        if rows and c.get('rep', 1):
            num = {x[0]: x[5] for x in rows[0].rows}
            for t, x in te.items():
                if t + 1 in num and x[4] in tid2ord and tid2ord[x[4]] != num[t + 1]:
                    p.fail('prefix', 'messages of test %d carry thread %d, its row thread %d' % (t + 1, tid2ord[x[4]], num[t + 1])); return
        pos = {}; last = {}
        exec_order = {t: i for i, t in enumerate(x[1] for x in aux.TB)}
        for ln in text.split('\n'):
            m = MSG.search(ln)
            if m:
                t = int(m.group(2)); s = int(m.group(4))
                if s in last and exec_order[last[s]] > exec_order[t]: p.fail('order', 'messages of tests %d and %d of one thread swapped' % (last[s] + 1, t + 1)); return
                last[s] = t
    @staticmethod
    def nprints(c, draws):
        pr = 0
        for i in range(draws):
            if pr < c['prints'] and i * c['prints'] >= pr * draws: pr += 1
        return pr

# ------------------------------------------------------------------ C06
class C06(ThreadCheck):
    id = 'C06'; quick_cases = 1000; quick_s = 40; K = 4; cli_share = 0.0
    rule = 'case: battery whose generators and tests request 64- and 32-bit seeds, alone or all at the same time, under random schedules; the requests seen by the callers must equal the log, in order per thread, all distinct, and the issued sequence must not depend on the schedule.'
    technique = 'deterministic simulation: seeded thread schedules; the seeds log checked against the recorded requests (multiset, thread, per-thread order, distinctness, schedule-independent sequence)'
    def case(self, r, tier):
        d = api_params(r, mt=r.random() < 0.85); d['rep'] = 1; d['seeds'] = r.choice([0, 1, 2, 5, 20]); d['draws'] = max(d['draws'], d['seeds'])
        d['gseeds'] = r.choice([0, 1, 2, 3, 8]); d['t'] = min(d['t'], 40); d['prints'] = 0
        k = r.random()
        if k < 0.1: d['direct'] = r.choice([1, 5, 1000, 1015, 1020, 1024, 1100, 3000])
        elif k < 0.106: d['direct'] = r.choice([(1 << 20) - 40, (1 << 20) - 1, 1 << 20, (1 << 20) + 5]); d['n'] = 2; d['t'] = min(d['t'], 5)
        return {'api': d}
    def play(self, case, p):
        if case['api'].get('direct', 0) > 5000: case = dict(case, K=1)
        sc = self.scen(case); b = p.run('rr', sc, base=True)
        s0 = self.judge(case, p, b)
        if case['api']['n'] > 1:
            for name, s in self.schedules(case, p, sc, b):
                s1 = self.judge(case, p, p.run(name, s))
                if s0 is not None and s1 is not None and s0 != s1:
                    d = next((i for i, (x, y) in enumerate(zip(s0, s1)) if x != y), min(len(s0), len(s1)))
                    p.fail('sequence', 'the issued sequence depends on the schedule (entry %d of %d/%d)' % (d, len(s0), len(s1)))
    def judge(self, case, p, r):
        if abnormal(r): p.fail('abnormal', abnormal(r)); return None
        aux = cm.parse_aux(r.aux.decode('latin-1'))[0]; rep = cm.parse_reports(r.outtext())
        if not rep: p.fail('reports', 'no report'); return None
        rep = rep[0]
        req = [(e[1], e[2], e[3], e[4]) for e in aux.ev if e[0] == 'S']
        log = rep.seeds
        if any(isinstance(x[0], str) for x in log): p.fail('log-format', repr([x for x in log if isinstance(x[0], str)][0])); return None
        if rep.nseeds is None: p.fail('log', 'no number of seeds in the report'); return None
        full = not rep.filler
        vals = [x[1] for x in log]
        if len(set(vals)) != len(vals): p.fail('distinct', 'a seed was issued twice'); return None
        v64 = [v for v, t, b, i in req if b == 64]
        if len(set(v64)) != len(v64): p.fail('distinct', 'two requests got the same seed'); return None
        limit = (1 << 20) - 1
        # the runner itself takes one seed to shuffle the tests between threads
        mt = case['api']['n'] > 1 and not case['api'].get('id')
        lo, hi = len(req), len(req) + (1 if mt else 0)
        if not min(limit, lo) <= rep.nseeds <= hi and not (rep.nseeds >= limit and lo >= limit): p.fail('log', '%d seeds logged for %d requests' % (rep.nseeds, len(req))); return None
        if full and len(log) != rep.nseeds: p.fail('log', '%d entries printed, %d counted' % (len(log), rep.nseeds)); return None
        if not full: p.probe('long-log'); return [x[1] for x in log][:1024] if case['api'].get('direct') else None
        # attribution and order. A worker's entries: the seeds of its generator, then the requests of its tests, in order;
        # number 0: everything else (direct requests, sanity check, single-thread runs, the runner's own shuffle seed)
        def same(v, b, logged): return v == logged if b == 64 else v == logged >> 32
        bylog = collections.defaultdict(list)
        for o, v in log: bylog[o].append(v)
        num = {}; rows = {x[0]: x[5] for x in rep.rows}; instof = {}
        for x in aux.TE:
            if x[1] + 1 in rows: num[x[4]] = rows[x[1] + 1]; instof[x[2]] = x[4]
        insts = [x[0] for x in aux.C]; nw = case['api']['n']
        exp = collections.defaultdict(list)
        if not mt:
            exp[0] = [(v, b) for v, t, b, i in req]
        else:
            if len(insts) != nw + 1: p.fail('generators', '%d instances for %d threads' % (len(insts), nw)); return None
            free = [o for o in range(1, nw + 1) if o not in num.values()]
            own = {}
            for i in insts[1:]:
                if i in instof: own[i] = num[instof[i]]
            for i in insts[1:]:
                if i not in own: own[i] = free.pop(0) if free else -1
            for v, t, b, i in req:
                o = own.get(i, 0) if i is not None else num.get(t, 0)
                exp[o].append((v, b))
        for o in sorted(set(exp) | set(bylog)):
            E, L = exp.get(o, []), bylog.get(o, [])
            if mt and o == 0 and len(L) == len(E) + 1: L = L[:-1]
            if len(E) != len(L) or not all(same(v, b, l) for (v, b), l in zip(E, L)):
                d = next((k for k, ((v, b), l) in enumerate(zip(E, L)) if not same(v, b, l)), min(len(E), len(L)))
                p.fail('attribution', 'log entries of thread number %d differ from its requests at entry %d (%d logged, %d requested)' % (o, d, len(L), len(E))); return None
        return vals

# ------------------------------------------------------------------ C22
class C22(ThreadCheck):
    id = 'C22'; quick_cases = 10000; quick_s = 40; cli_share = 0.0
    rule = 'case: a history of 1-4 earlier battery runs in the same process (other thread counts, selections, invalid selections, filters, seeds), then a run; its report must equal the report of the same run in a fresh process, under random schedules.'
    technique = 'deterministic simulation: random histories of runs in one simulated process under seeded schedules, compared with the run in a fresh process'
    def case(self, r, tier):
        hist = []
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            d = api_params(r, mt=r.random() < 0.7); d['t'] = min(d['t'], 20); d['n'] = min(d['n'], 16); d['free'] = r.choice([0, 1, 1])
            k = r.random()
            if k < 0.15: d['id'] = r.choice([1, d['t'] + 5])
            elif k < 0.25: d['name'] = r.choice(['t000', 'none'])
            if r.random() < 0.1: d['direct'] = r.choice([3, 2000])
            hist.append(d)
        if r.random() < 0.03:  # a long life: more threads in total than any table of them would hold
            n = r.choice([4, 8, 12, 16])
            for _ in range(r.choice([300, 400]) // n):
                d = api_params(r, mt=True); d['t'] = min(d['t'], 3); d['n'] = n; d['free'] = r.choice([0, 1, 1]); hist.append(d)
        last = api_params(r, mt=r.random() < 0.8); last.pop('seeds', None); last['t'] = min(last['t'], 20); last['n'] = min(last['n'], 16)
        return {'hist': hist, 'last': last, 'tid': r.choice([0, r.randrange(1, 1 << 30)])}
    def shrink(self, case):
        if case.get('tid'): yield dict(case, tid=0)
        h = case['hist']
        if len(h) > 8:
            for k in (2, 4, 8):
                w = len(h) // k
                for i in range(k): c = dict(case); c['hist'] = h[:i * w] + h[(i + 1) * w:]; yield c
        for i in range(len(case['hist'])):
            if len(case['hist']) > 1:
                c = dict(case); c['hist'] = case['hist'][:i] + case['hist'][i + 1:]; yield c
        for l in shrink_api(case['last']): c = dict(case); c['last'] = l; yield c
        for i, h in enumerate(case['hist']):
            for l in shrink_api(h): c = dict(case); c['hist'] = case['hist'][:i] + [l] + case['hist'][i + 1:]; yield c
    def play(self, case, p):
        f = p.run('fresh', work.api([case['last']]), base=True)
        if abnormal(f): p.fail('abnormal', abnormal(f)); return
        sc = work.api(case['hist'] + [case['last']])
        if case.get('tid'): sc['tid_reuse'] = case['tid']
        b = p.run('rr', sc, base=True); self.judge(case, p, f, b)
        for name, s in self.schedules(case, p, sc, b):
            if name in ('s0', 's1'): self.judge(case, p, f, p.run(name, s))
    def judge(self, case, p, f, r):
        if abnormal(r): p.fail('abnormal', 'after a history: ' + abnormal(r)); return
        n = len(case['hist'])
        fa = cm.parse_aux(f.aux.decode('latin-1'))[0]; ra = cm.parse_aux(r.aux.decode('latin-1'))
        if len(ra) != n + 1: p.fail('runs', '%d of %d runs' % (len(ra), n + 1)); return
        ra = ra[n]
        rep = [x for x in cm.parse_reports(r.out[ra.pos0:ra.pos1].decode('latin-1'))]
        d = cm.compare_reports(cm.parse_reports(f.outtext()), [self.rename(x, f) for x in rep])
        if d: p.fail('report', 'after %d earlier runs: %s' % (n, d)); return
        if fa.rc != ra.rc: p.fail('status', 'status %r instead of %r after earlier runs' % (ra.rc, fa.rc)); return
        if sorted(x[1:3] for x in fa.C) != sorted(x[1:3] for x in ra.C): p.fail('generators', 'generators created with other keys after earlier runs'); return
        fh = sorted((x[1], x[6]) for x in fa.TE); rh = sorted((x[1], x[6]) for x in ra.TE)
        if fh != rh: p.fail('results', 'tests read other numbers after earlier runs')
    @staticmethod
    def rename(rep, f):
        rep.name = 'simbat0'; return rep
