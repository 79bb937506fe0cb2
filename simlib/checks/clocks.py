"""C16: reported memory and optional buffers.  C17: clocks do not change results.  C18: measuring time under clock anomalies."""
import os, re, shutil
from ..engine import rng_of
from .. import build, common as cm, work
from .threads import abnormal
from .memory import TINY
from .io import IOCheck, VERDICT

PAGESIZE, PHYS, AVPHYS = 30, 85, 86

def exact(r):
    """Exact results traced by refbat, in the order of tests."""
    return sorted(l for l in r.aux.decode('latin-1').split('\n') if l.startswith('TR '))

def ref_tests(r, n, big, allow=None):
    out = []
    kinds = allow or ['bspace', 'bspace', 'bspace', 'co', 'co', 'co32', 'birthday', 'birthday', 'monobit', 'gap', 'hd', 'lc', 'us', 'nw', 'is', 'im', 'sc', 'mod3', 'ho', 'mr', 'b48', 'gap16', 'hl']
    for i in range(n):
        k = r.choice(kinds)
        if k == 'bspace':
            b, d = r.choice([(10, 4), (9, 4), (8, 5), (6, 6), (5, 8), (20, 2), (11, 3), (12, 3), (13, 3), (7, 5), (40, 1), (16, 3), (12, 4)] + ([(16, 4), (32, 2), (8, 8), (64, 1)] if big else []))
            t = 'bspace_nd:%d:%d:%d:%d' % (b, d, r.choice([1, 1, 2, 3]), r.choice([0, 1]))
        elif k == 'co': t = 'collisionover:%d:%d:%d:%d:%d' % (r.choice([(8, 2), (5, 3), (4, 4), (2, 8), (3, 5), (9, 2)]) + (r.choice([1, 2, 5]), r.choice([0, 1]), r.choice([1000, 5000, 30000])))
        elif k == 'co32': t = 'collisionover:%d:%d:%d:%d:%d' % (r.choice([(20, 2), (13, 3), (5, 8), (10, 4), (8, 5)]) + (1, r.choice([0, 1]), r.choice([20000, 300000])))
        elif k == 'birthday': t = 'birthday:%d:%d' % (r.choice([8, 9, 100, 1000, 5000]), r.choice([0, 0, 1, 3, 5]))
        elif k == 'monobit': t = 'monobit_freq:%d' % r.choice([1024, 5000])
        elif k == 'gap': t = 'gap:%d:%d' % (r.choice([1, 3, 5]), r.choice([10000, 20000]))
        elif k == 'hd': t = 'hamming_distr:%d:%d' % (65536, r.choice([1, 3, 6]))
        elif k == 'lc': t = 'linearcomp:%d:%d' % (r.choice([200, 1000]), r.choice([-1, -2, -3, 0, 7]))
        elif k == 'us': t = 'usphere:%d:1000' % r.choice([2, 3, 5])
        elif k == 'nw': t = 'nbit_words_freq:%d:8:16' % r.choice([2, 3, 4, 8])
        elif k == 'is': t = 'ising2d:100:3:0'
        elif k == 'im': t = 'ising2d:100:3:1'
        elif k == 'sc': t = 'sumcollector:%d' % r.choice([100000, 200000])
        elif k == 'mod3': t = 'mod3:%d' % r.choice([100000, 150000])
        elif k == 'ho': t = 'hamming_ot:65536:%d' % r.choice([0, 1, 2, 3])
        elif k == 'hl': t = 'hamming_ot_long:65536:%d' % r.choice([0, 1, 2, 3])
        elif k == 'mr': t = 'matrixrank:%d:%d' % (r.choice([64, 256]), r.choice([8, 32]))
        elif k == 'b48': t = 'bspace4_8d_decimated:%d' % r.choice([4, 16, 64])
        elif k == 'gap16': t = 'gap16_count0:10000000' if big else 'gap16_count0:300000'
        out.append(t)
    return ';'.join('t%d:%s' % (i, t) for i, t in enumerate(out))

class RefCheck(IOCheck):
    gens = ['@simbat', '@simgen', '@refbat', 'lcg64', 'xoroshiro128pp', 'sfc64', 'xorshift128', 'mwc64x', 'pcg32']
    def base_case(self, r):
        g = r.choice(['simgen'] + self.gens[3:] + ['simgen'])
        c = {'gen': g, 'param': None, 'n': r.choice([1, 1, 1, 2, 3]), 'seed': 'k%d' % r.randrange(10**6), 'x': r.randrange(1 << 40)}
        if g == 'simgen': c['param'] = r.choice([None, None, 'bits=32', 'counter', 'counter,bits=32', 'lowzero=3', 'lowzero=20', 'lowzero=45', 'counter,lowzero=40', 'lowzero=16,bits=32'])
        return c
    def ref_sc(self, c, **kw):
        a = ['s=refbat.so', c['gen'] + '.so', '--seed=' + c['seed'], '--batparam=' + c['tests']]
        if c['n'] > 1: a.append('--nthreads=%d' % c['n'])
        if c.get('param'): a.append('--param=' + c['param'])
        sc = self.cli(a, **kw)
        if c['n'] > 1: sc.update(cm.sched(rng_of(self.id, c['x']), None, 3000))
        return sc
    def shrink_tests(self, c):
        t = c['tests'].split(';')
        for i in range(len(t)):
            if len(t) > 1: d = dict(c); d['tests'] = ';'.join(t[:i] + t[i + 1:]); yield d

# ------------------------------------------------------------------ C16
class C16(RefCheck):
    id = 'C16'; quick_cases = 2500; quick_s = 60
    technique = 'deterministic simulation: the memory that the system reports is replaced by random and nonsensical amounts, changing between queries, and single memory requests fail; exact statistics are compared with the undisturbed run'
    rule = 'case: a battery of tests built through the public structures (random sizes, tuples of more than 32 bits so that the 64-bit sorting routines work) over random and degenerate generators; each is run with the default memory and with several reported amounts, with and without a failing memory request.'
    assumptions = ['the birthday paradox battery, which documents that its sample size depends on installed memory, is not run here']
    def case(self, r, tier):
        big = r.random() < (0.04 if tier == 'quick' else 0.15)
        c = self.base_case(r); c['tests'] = ref_tests(r, r.choice([1, 1, 2, 4]), big)
        v = lambda: r.choice([-1, 0, 1, 2, 100, 255, 256, 300, 1000, 4095, 4096, 65536, 1 << 20, 1 << 31, 1 << 40, (1 << 62), -(1 << 62), -4096, 4294967295, r.randrange(1 << 16), r.randrange(1 << 34)])
        c['plans'] = [[['%d %d' % (k, v()) for k in (PAGESIZE, PHYS, AVPHYS) if r.random() < (0.25 if k == PAGESIZE else 0.8)] or ['%d 0' % AVPHYS], r.random() if r.random() < 0.5 else None] for _ in range(r.choice([2, 3, 5]))]
        if r.random() < 0.5: c['plans'][0] = [['%d %d' % (AVPHYS, r.choice([0, 1, 100]))], None]
        return c
    def shrink(self, c):
        yield from self.shrink_tests(c)
        if len(c['plans']) > 1:
            for q in c['plans']: d = dict(c); d['plans'] = [q]; yield d
        if c['n'] > 1: d = dict(c); d['n'] = 1; yield d
    def play(self, c, p):
        sc = self.ref_sc(c)
        base = p.run('base', sc, base=True)
        if abnormal(base): p.fail('abnormal', abnormal(base)); return
        eb = exact(base); rb = cm.parse_reports(base.outtext())
        for j, (sysc, u) in enumerate(c['plans']):
            s2 = dict(sc); s2['sysconf'] = sysc
            r = p.run('mem%d' % j, s2)
            if abnormal(r): p.fail('abnormal', 'reported memory %r: %s' % (sysc, abnormal(r))); return
            if exact(r) != eb: p.fail('result', 'reported memory %r: %s' % (sysc, first_diff(eb, exact(r)))); return
            if r.code != base.code: p.fail('status', 'reported memory %r: exit status %d became %d' % (sysc, base.code, r.code)); return
            d = cm.compare_reports(rb, cm.parse_reports(r.outtext()))
            if d: p.fail('report', 'reported memory %r: %s' % (sysc, d)); return
            p.probe('same result')
            if u is None: continue
            n = r.cnt.get('alloc', 0); nb = base.cnt.get('alloc', 0)
            if n != nb: p.probe('other work buffers')
            s3 = dict(s2); s3['fault'] = 'alloc %d 1 null -' % int(n - 1 - u * u * min(n, 40))
            q = p.run('alloc%d' % j, s3)
            if abnormal(q): p.fail('abnormal', 'reported memory %r, %s: %s' % (sysc, s3['fault'], abnormal(q))); return
            rq = cm.parse_reports(q.outtext())
            if q.code == 0 or (rq and rq[0].complete):
                if 'ot enough memory' in q.outtext() and q.code != 0: p.probe('a test was not run'); continue
                if exact(q) != eb or q.code != base.code: p.fail('result', 'reported memory %r, %s: %s' % (sysc, s3['fault'], first_diff(eb, exact(q)))); return
                if q.fired: p.probe('same result without a buffer')
            else: p.probe('stopped without memory')

def first_diff(a, b):
    for x, y in zip(a, b):
        if x != y: return '%s became %s' % (x, y)
    return '%d results became %d' % (len(a), len(b))

# ------------------------------------------------------------------ C17
def clock_faults(r, nclk, which=(0, 1, 2, 3, 9), maxfreeze=20, fail=True):
    out = []
    for _ in range(r.choice([1, 1, 2, 3, 6])):
        w = r.choice(which); k = r.choice(['jump', 'jump', 'jump', 'freeze', 'gran', 'rate'] + (['fail'] if fail else [])); at = r.randrange(max(1, nclk)) if r.random() < 0.8 else 0
        if k == 'jump': out.append('%d jump %d %d' % (w, at, r.choice([1, -1]) * r.choice([1, 1000, 10**6, 10**9, 3600 * 10**9, 10**15, 10**17, 4 * 10**18])))
        elif k == 'freeze': out.append('%d freeze %d %d' % (w, at, r.choice([1, 2, 5, maxfreeze])))
        elif k == 'gran': out.append('%d gran %d' % (w, r.choice([1000, 10**6, 10**7, 10**9, 55 * 10**6])))
        elif k == 'rate': out.append('%d rate %d' % (w, r.choice([100, 500, 999, 1001, 3000, 10**6])))
        else: out.append('%d fail %d %d' % (w, at, r.choice([1, 2, 5])))
    return out

def fit_tick(sc):
    """A coarse or slow clock must advance within 20000 readings: otherwise the run only waits."""
    g = max([int(f.split()[2]) for f in sc['clk'] if ' gran ' in f] + [1000]); m = 1
    for f in sc['clk']:
        if ' rate ' in f: m = max(m, 1000 // max(1, int(f.split()[2])))
    sc['tick_ns'] = max(sc['tick_ns'], g * m // 20000)

class C17(RefCheck):
    id = 'C17'; quick_cases = 3000; quick_s = 60
    technique = 'deterministic simulation: the wall clock, the processor clock and the cycle counter jump, stand still, run backwards, coarsely, fast or slowly and fail; exact results, reports and dumped bytes are compared with the undisturbed run'
    rule = 'case: a battery of tests (birthday paradox test included, whose progress output reads clocks), a battery file, the birthday battery with little memory, dumped output, or sr_tiny; with a given seed; several random clock behaviours each.'
    def case(self, r, tier):
        m = r.choice(['ref', 'ref', 'ref', 'file', 'dump', 'selftest', 'birthday', 'sim', 'tiny'])
        if m in ('birthday', 'tiny') and r.random() < 0.8: m = 'ref'
        c = self.base_case(r); c['mode'] = m; c['tests'] = ref_tests(r, r.choice([1, 1, 2, 4]), False, ['birthday', 'birthday', 'gap', 'us', 'is', 'monobit', 'bspace', 'lc'] if r.random() < 0.6 else None)
        if m == 'file': c['bat'] = work.bat_file(r, r.choice([1, 2, 4]), work.CHEAP + ['is', 'im', 'us'])
        if m == 'dump': c['bat'] = r.choice(['stdout', 'stdoutfl', 'stdoutflx'])
        if m == 'sim': c['tests'] = ','.join('%d%s' % (r.choice([1, 20, 300]), r.choice(['', 'p7', 'm3', 'm1'])) for _ in range(r.choice([1, 3, 8])))
        if m == 'birthday': c['gen'] = 'simgen'; c['param'] = r.choice(['lowzero=29', 'counter,lowzero=31', 'lowzero=31', 'lowzero=29,bits=32', 'lowzero=29,counter', 'lowzero=30']); c['n'] = 1
        c['tick'] = r.choice([1000, 1000, 10, 10**6, 10**9]); c['nplans'] = r.choice([2, 3, 5]) if m != 'birthday' else 1
        if m == 'tiny': c['gen'] = r.choice(TINY); c['n'] = 1; c['nplans'] = 1; c['wall'] = r.choice([0, 1, 1 << 20, r.randrange(1 << 31)])
        c['y'] = r.randrange(1 << 40)
        return c
    def shrink(self, c):
        if c['mode'] == 'ref': yield from self.shrink_tests(c)
        if c['n'] > 1: d = dict(c); d['n'] = 1; yield d
    def scenario(self, c):
        kw = {'tick_ns': c['tick'], 'max_calls': 30000000}; m = c['mode']
        if m == 'ref': return self.ref_sc(c, **kw)
        if m == 'tiny': return dict(self.cli([], {}, **kw), prog='sr_tiny', arg=['sr_tiny', c['gen']], wall_base=c['wall'] * 10**9 + 5)
        a = {'file': ['f=bat.txt'], 'dump': [c.get('bat')], 'selftest': ['selftest'], 'birthday': ['birthday'], 'sim': ['s=simbat.so', '--batparam=' + c['tests']]}[m]
        a.insert(1, c['gen'] + '.so'); a.append('--seed=' + c['seed'])
        if c['param']: a.append('--param=' + c['param'] + (',selftest=1' if m == 'selftest' else ''))
        if c['n'] > 1: a.append('--nthreads=%d' % c['n'])
        if m == 'dump': a.append('--maxlen_log2=13')
        if m == 'birthday': kw['sysconf'] = ['%d 1000' % PHYS]
        sc = self.cli(a, {'bat.txt': c['bat']} if m == 'file' else None, **kw)
        if c['n'] > 1: sc.update(cm.sched(rng_of('C17', c['x']), None, 3000))
        return sc
    def out(self, c, r):
        if c['mode'] == 'dump': return r.out
        if c['mode'] == 'birthday': return sorted(re.findall(r'^  (x = .*|No duplicates.*|The generator is too.*)$', r.outtext(), re.M))
        if c['mode'] == 'selftest': return r.outtext()
        if c['mode'] == 'tiny': return re.sub(r'Elaplsed time.*', '', r.outtext())
        return [x.key() for x in cm.parse_reports(r.outtext())]
    def play(self, c, p):
        sc = self.scenario(c)
        base = p.run('base', sc, base=True)
        if abnormal(base): p.fail('abnormal', abnormal(base)); return
        rr = rng_of('C17', c['y']); eb = exact(base); ob = self.out(c, base)
        gf = [l for l in base.auxlines() if l[:3] in ('GC ', 'GF ')]
        for j in range(c['nplans']):
            s2 = dict(sc); s2['clk'] = clock_faults(rr, min(base.nclk, 60) if rr.random() < 0.7 else base.nclk, fail=True, **({'which': (1, 1, 2, 3)} if c['mode'] == 'tiny' else {}))
            if rr.random() < 0.5 and c['mode'] != 'tiny': s2['tick_ns'] = rr.choice([1, 100, 10**5, 10**8, 10**10]); s2['work_ps'] = rr.choice([0, 1000, 10**6])
            if c['mode'] != 'tiny': fit_tick(s2)
            r = p.run('clk%d' % j, s2)
            w = 'clocks %s' % '; '.join(s2['clk'])
            if abnormal(r): p.fail('abnormal', '%s: %s' % (w, abnormal(r))); return
            if exact(r) != eb: p.fail('result', '%s: %s' % (w, first_diff(eb, exact(r)))); return
            if r.code != base.code: p.fail('status', '%s: exit status %d became %d' % (w, base.code, r.code)); return
            if self.out(c, r) != ob: p.fail('report', '%s: the report or output differs' % w); return
            if gf != [l for l in r.auxlines() if l[:3] in ('GC ', 'GF ')] and c['n'] == 1: p.fail('stream', '%s: other use of the generator' % w); return
            p.probe('same ' + c['mode'])

# ------------------------------------------------------------------ C18
class C18(RefCheck):
    id = 'C18'; quick_cases = 5000; quick_s = 60
    technique = 'deterministic simulation: clocks jump, stand still for a while, run backwards or coarsely while speed is measured or progress is estimated; the run must end by itself after a bounded number of further measurements'
    rule = 'case: speed mode, sr_speed with several generators, sr_tiny speed mode, the birthday paradox battery or test, the estimate of the processor frequency; random clock behaviours placed over all clock readings; bound: the readings of the undisturbed run, plus a multiple of the readings that were disturbed, plus a constant.'
    def case(self, r, tier):
        m = r.choice(['speed', 'speed', 'srspeed', 'srspeed', 'srtiny', 'ref', 'ref', 'ref', 'cpufreq', 'birthday'])
        if m == 'birthday' and r.random() < 0.85: m = 'speed'
        c = self.base_case(r); c['mode'] = m; c['n'] = 1; c['y'] = r.randrange(1 << 40); c['tick'] = r.choice([2 * 10**8, 2 * 10**8, 3 * 10**8, 10**9])
        c['tests'] = ref_tests(r, 1, False, ['birthday'])
        if m == 'ref': c['tick'] = r.choice([10, 1000, 10**6, 10**8, 10**10])
        if c['gen'] == 'simgen' and m in ('speed', 'srspeed'): c['param'] = (c['param'] or 'lowzero=0') + ',fastsum'
        if m == 'srtiny': c['gen'] = r.choice(TINY); c['tick'] = r.choice([21 * 10**8, 5 * 10**9, 10**11])
        if m == 'srspeed': c['gens'] = [r.choice(['simgen'] + self.gens[3:]) for _ in range(r.choice([1, 2, 3]))]
        if m == 'birthday': c['gen'] = 'simgen'; c['param'] = r.choice(['lowzero=29', 'counter,lowzero=31', 'lowzero=29,bits=32']); c['tick'] = r.choice([1000, 10**5])
        if m == 'cpufreq': c['cpuinfo'] = r.choice([None, '', 'model name : x\n', 'cpu MHz\t\t: 2500.5\n', 'flags : ' + 'a' * 700 + '\ncpu MHz : 3\n', 'cpu MHz : 0\n', 'cpu MHz : x\n', '\x00\xff' * 400])
        c['nplans'] = 3 if m != 'birthday' else 1
        return c
    def shrink(self, c):
        if c['nplans'] > 1: d = dict(c); d['nplans'] = 1; yield d
        if c.get('gens') and len(c['gens']) > 1:
            for g in c['gens']: d = dict(c); d['gens'] = [g]; yield d
    def scenario(self, c):
        kw = {'tick_ns': c['tick']}; m = c['mode']
        if m == 'ref': return self.ref_sc(c, **kw)
        if m == 'srtiny': return dict(self.cli([], {}, **kw), prog='sr_tiny', arg=['sr_tiny', c['gen'], 'speed'])
        if m == 'srspeed': return dict(self.cli([], {}, **kw), prog='sr_speed', arg=['sr_speed'] + [g + '.so' for g in c['gens']])
        if m == 'cpufreq':
            sc = {'prog': 'unit', 'arg': ['unit', 'cpufreq'], **kw}
            if c['cpuinfo'] is not None: sc['file:/proc/cpuinfo'] = c['cpuinfo']
            return sc
        a = [m, c['gen'] + '.so', '--seed=' + c['seed']]
        if c['param']: a.append('--param=' + c['param'])
        if m == 'birthday': kw['sysconf'] = ['%d 1000' % PHYS]
        return self.cli(a, **kw)
    def play(self, c, p):
        sc = self.scenario(c); sc['max_calls'] = 30000000
        base = p.run('base', sc, base=True)
        if abnormal(base): p.fail('abnormal', abnormal(base)); return
        rr = rng_of('C18', c['y'])
        for j in range(c['nplans']):
            s2 = dict(sc); s2['clk'] = clock_faults(rr, base.nclk if c['mode'] not in ('birthday', 'ref') or rr.random() < 0.4 else 8, which=(0, 1, 1, 1, 2, 9), maxfreeze=rr.choice([10, 20, 40] if c['mode'] in ('cpufreq', 'ref', 'birthday') else [10] if c['mode'] == 'srtiny' else [10, 16, 20]), fail=rr.random() < 0.3)
            disturbed = 0; slow = 1.0
            for f in s2['clk']:
                w, k, a, *b = f.split()
                if k in ('freeze', 'fail'): disturbed += int(b[0])
                elif k == 'jump': disturbed += 4
                elif k == 'gran': disturbed += 4 * (1 + int(a) // c['tick']); slow *= 1 + int(a) // c['tick']
                elif k == 'rate': slow *= max(1.0, 1000.0 / int(a))
            if c['mode'] not in ('ref', 'birthday', 'cpufreq'):   # simulated time advances with clock readings only: a slower rate would never end there
                slow = 1.0; s2['clk'] = [f for f in s2['clk'] if not re.search(r'rate [1-9]\d?\d?$|gran 1000000000', f)]
            bound = (40 + base.nclk * 3 + 30 * disturbed) * slow
            if c['mode'] in ('ref', 'birthday'): bound = base.nclk + 10**6 * 6
            s2['max_calls'] = 1000000 + int(bound) * 20
            fit_tick(s2); r = p.run('clk%d' % j, s2)
            w = '%s, clocks %s' % (c['mode'], '; '.join(s2['clk']))
            if abnormal(r): p.fail('abnormal', '%s: %s' % (w, abnormal(r))); return
            if r.code != base.code and c['mode'] not in ('ref',): p.fail('status', '%s: exit status %d became %d: %s' % (w, base.code, r.code, r.errtext()[-200:])); return
            if r.nclk > bound: p.fail('unbounded', '%s: %d clock readings, %d when nothing is disturbed' % (w, r.nclk, base.nclk)); return
            if c['mode'] in ('speed', 'srspeed', 'srtiny'):
                neg = re.search(r'^.*(?<![\w.+\-])-(?:\d|inf).*$', re.sub(r'-?\d+%', '', r.outtext()), re.M) or re.search(r'^.*Raw result: +(?:0|nan|-nan)$', r.outtext().split('CPU ticks')[0], re.M)
                if neg: p.fail('insane', '%s: %r was reported' % (w, neg.group(0))); return
                if c['mode'] == 'srtiny' and not re.search(r'Generator speed: (?!0 )[\d.e+-]+ [KM]iB/sec', r.outtext()): p.fail('insane', '%s: %r was reported' % (w, r.outtext()[-60:])); return
                strip = lambda t: [''.join(sorted(re.sub(r'-?\d[\d.e+-]*|-?nan|-?inf|[ \-%]+|[KMG]iB/s(?:ec)?', '', l))) for l in t.split('\n')]
                a, b = sorted(strip(r.outtext())), sorted(strip(base.outtext()))
                if a != b: p.fail('report', '%s: the report lost lines: %r / %r' % (w, [x for x in b if x not in a][:3], [x for x in a if x not in b][:3])); return
            if c['mode'] == 'cpufreq':
                for l in r.auxlines():
                    if l.startswith('FREQ '):
                        f = float(l.split()[1])
                        if not (f >= 0 and f < 1e13): p.fail('insane', '%s: processor frequency %g MHz' % (w, f)); return
            p.probe('ended ' + c['mode'])

# ------------------------------------------------------------------ C25
def num(t):
    try: return float(t.replace('-nan', 'nan'))
    except ValueError: return None

class C25(RefCheck):
    gens = ['@simbat', '@simgen', '@refbat']
    id = 'C25'; variant = 'C'; quick_cases = 1200; quick_s = 60; ncost = 4; wall = 90
    technique = 'deterministic simulation: every generator call and basic block takes known simulated time; reported speeds, ticks, frequencies, comparison tables and elapsed times are compared with it while clocks that must not matter jump, stand still or fail'
    rule = 'case: the speed mode, sr_speed with 1-4 generators, a battery with 1-3 threads, the birthday paradox test or sr_tiny, with random costs of outputs, words of sums and basic blocks, rates and resolutions of the clocks; faults of the wall clock during speed measurement and of the processor clock and cycle counter during batteries.'
    assumptions = ['the cost of a call is constant in simulation', 'the corrected speeds are compared within the resolution of the clock over 0.5 s, other numbers within 1% and their printed digits', 'absolute values of sr_tiny are not known to the model: they must scale with the cost of a basic block']
    real = ['src/bat_special.c', 'src/core.c (report)', 'src/extratests.c (birthday paradox)', 'apps/smokerand.c', 'apps/sr_speed.c', 'apps/sr_tiny.c']
    def prepare(self):
        super().prepare()
        src = build.plugins(['@simcost'], self.variant)['@simcost']
        for i in range(1, self.ncost + 1):
            d = os.path.join(os.path.dirname(src), 'simcost%d.%s.so' % (i, os.path.basename(src)[:-3]))
            if not os.path.exists(d): shutil.copy(src, d + '.%d.tmp' % os.getpid()); os.rename(d + '.%d.tmp' % os.getpid(), d)
            self.so['so:simcost%d.so' % i] = d
    def case(self, r, tier):
        m = r.choice(['speed', 'speed', 'srspeed', 'srspeed', 'battery', 'battery', 'battery', 'birthday', 'birthday', 'tiny'])
        c = {'mode': m, 'x': r.randrange(1 << 40), 'seed': 'k%d' % r.randrange(10**6), 'y': r.randrange(1 << 40), 'tick': r.choice([1, 10, 100, 300])}
        lg = lambda a, b: int(10 ** r.uniform(a, b))
        c['bb'] = lg(4, 6.5) if m != 'tiny' else lg(4.5, 6)
        if m in ('speed', 'srspeed'):
            c['gens'] = [[r.choice([64, 64, 32]), int(c['bb'] * 10 ** r.uniform(-0.5, 3)), int(10 ** r.uniform(1.5, 6)), int(r.random() < 0.85)] for _ in range(1 if m == 'speed' else r.choice([1, 2, 3, 4, 4]))]
            if len(c['gens']) > 1 and r.random() < 0.2: c['gens'][1] = list(c['gens'][0])
        if m == 'battery':
            t = 10 ** r.uniform(0, r.choice([2, 4, 6.5])); n = r.choice([1, 2, 5, 12]); draws = [r.choice([1, 10, 300]) for _ in range(n)]
            c['tests'] = ','.join(str(d) for d in draws); c['cost'] = int(t * 1e12 / (sum(draws) + 60)); c['n'] = r.choice([1, 1, 2, 3])
        if m == 'birthday':
            c['n'] = r.choice([100, 1000, 5000]); c['e'] = r.choice([0, 0, 0, 1, 3]); c['cost'] = int(10 ** r.uniform(0, 5) * 1e12 / (c['n'] << c['e']))
        c['tsc'] = r.choice([1000, 1000, 2400, 3700, 500]); c['gran'] = r.choice([0, 0, 0, 10**6, 10**7, 55 * 10**6]); c['wall'] = r.choice([0, 0, 10**9 * r.randrange(1 << 31) + r.randrange(10**9)])
        return c
    def shrink(self, c):
        if len(c.get('gens', [])) > 1:
            for g in c['gens']: d = dict(c); d['gens'] = [g]; yield d
        for k, v in (('gran', 0), ('tsc', 1000), ('wall', 0), ('n', 1)):
            if k in c and c[k] != v and not (c['mode'] == 'birthday' and k == 'n'): d = dict(c); d[k] = v; yield d
    def scenario(self, c):
        m = c['mode']; kw = {'tick_ns': c['tick'], 'max_calls': 30000000, 'work_ps': 1, 'bb_ps': c['bb'], 'trace_time': 1}; rr = rng_of('C25', c['y']); clk = []
        if c['wall']: kw['wall_base'] = c['wall']
        if c['tsc'] != 1000: clk.append('2 rate %d' % c['tsc'])
        if m in ('speed', 'srspeed', 'tiny'):
            if c['gran']: clk.append('1 gran %d' % c['gran'])
            if rr.random() < 0.5: clk += clock_faults(rr, 8, which=(0,))
        elif m == 'battery' and rr.random() < 0.5: clk = clock_faults(rr, 40, which=(1, 2))
        if clk: kw['clk'] = clk
        if m in ('speed', 'srspeed'):
            for i, g in enumerate(c['gens']): kw['cost_simcost%d' % (i + 1)] = '%d %d %d %d' % tuple(g)
            if m == 'speed': return self.cli(['speed', 'simcost1.so', '--seed=' + c['seed']], {}, **kw)
            return dict(self.cli([], {}, **kw), prog='sr_speed', arg=['sr_speed'] + ['simcost%d.so' % (i + 1) for i in range(len(c['gens']))])
        if m == 'tiny': return dict(self.cli([], {}, **kw), prog='sr_tiny', arg=['sr_tiny', rr.choice(TINY)] + (['speed'] if c['x'] % 3 else []))
        if m == 'birthday': return self.cli(['s=refbat.so', 'simgen.so', '--seed=' + c['seed'], '--batparam=t0:birthday:%d:%d' % (c['n'], c['e']), '--param=cost=%d' % c['cost']], {}, **kw)
        a = ['s=simbat.so', 'simgen.so', '--seed=' + c['seed'], '--batparam=' + c['tests'], '--param=cost=%d' % c['cost']]
        if c['n'] > 1: a.append('--nthreads=%d' % c['n'])
        sc = self.cli(a, {}, **kw)
        if c['n'] > 1: sc.update(cm.sched(rng_of('C25', c['x']), None, 3000)); sc['step_ns_per_k'] = 0
        return sc
    @staticmethod
    def near(a, b, rel, ab=0.0):
        return a is not None and (a == b or a != a and b != b or abs(a) < 1e307 and abs(b) < 1e307 and abs(a - b) <= rel * max(abs(a), abs(b)) + ab)
    def section(self, c, p, w, txt, g, words):
        """One measurement: [raw ns, baseline ns, corrected ns, GiB/s, MHz, raw ticks, raw cpb, baseline ticks, corrected ticks, corrected cpb]; returns them or None."""
        L = [l.split(':', 1) for l in txt.split('\n') if ':' in l]
        v = [num(x[1].strip().split(' ')[0]) for x in L if x[1].strip()][:10]
        if len(v) < 10 or None in v: p.fail('report', '%s: incomplete report of a measurement: %r' % (w, txt[:200])); return None
        raw, base, cor, gib, mhz, rt, rcpb, bt, ct, ccpb = v; near = self.near
        true = (g[1] if words == 1 else g[2] * words) / 1000.0; nb = words * g[0] / 8; res = max(1000, c['gran']); rate = 3 * c['tsc'] / 1000.0   # the simulated counter runs at 3 GHz
        err = 2.2 * res / 0.5e9; tol = err * (raw + base) + 1e-5 * raw + 1e-9
        bad = None
        bb = c['bb'] / 1000.0
        if not (true * 0.999 - tol <= raw <= true * 1.001 + 25 * bb + tol and (words > 1 or base <= 25 * bb + tol)): bad = 'a call takes %g ns, reported %g (%g for the empty generator)' % (true, raw, base)
        elif not near(cor, raw - base if raw - base > 0 else float('nan'), 0.001, 2e-5 * raw) and abs(raw - base) > 3e-5 * raw: bad = 'corrected time %g is not %g - %g' % (cor, raw, base)
        elif cor == cor and cor > 1e-3 * raw and not near(gib, nb / cor * 1e9 / 2**30, 0.03, 0): bad = '%g ns for %d bytes reported as %g GiB/s' % (cor, nb, gib)
        elif not near(mhz, 1000 * rate, 0.002 + 2 * err, 0.06): bad = 'processor frequency %g MHz reported as %g' % (1000 * rate, mhz)
        elif not near(rt, raw * rate, 0.002 + err): bad = 'ticks: %g ns at %g ticks per ns reported as %g' % (raw, rate, rt)
        elif not near(bt, base * rate, 0.002 + err): bad = 'ticks of the empty generator: %g ns at %g ticks per ns reported as %g' % (base, rate, bt)
        elif not near(rcpb, rt / nb, 0.001): bad = '%g ticks for %d bytes reported as %g per byte' % (rt, nb, rcpb)
        elif not near(ct, rt - bt if rt > bt else float('nan'), 0.002, 2e-5 * rt) and abs(rt - bt) > 3e-5 * rt: bad = 'corrected ticks %g are not %g - %g' % (ct, rt, bt)
        elif ct == ct and not near(ccpb, ct / nb, 0.001): bad = '%g corrected ticks for %d bytes reported as %g per byte' % (ct, nb, ccpb)
        if bad: p.fail('speed', '%s: %s' % (w, bad)); return None
        return v
    def speed(self, c, p, w, text, g):
        """The report of the speed mode of one generator; returns [uint numbers, sum numbers or None, mean GiB/s corrected]."""
        a, _, b = text.partition('uint sum generation'); a = a.partition('uint generation')[2]
        u = self.section(c, p, w + ', single outputs', a, g, 1)
        if not u: return None
        if not g[3]:
            if 'Raw result' in b or 'Average' in b: p.fail('report', '%s: sums measured for a generator without them' % w); return None
            return u, None, u[3]
        s = self.section(c, p, w + ', sums', b, g, 32768)
        if not s: return None
        t = b.partition('Average')[2]; v = [num(l.split(':')[1].strip()) for l in t.split('\n') if re.match(r' .*: ', l)][:2]
        if len(v) < 2: p.fail('report', '%s: no average result: %r' % (w, t[:200])); return None
        ok = self.near(v[1], 0.5 * (u[9] + s[9]), 0.001) and (self.near(v[0], 2 / (1 / u[3] + 1 / s[3]) if 1 / u[3] + 1 / s[3] else float('inf'), 0.001) if u[3] > 0 and s[3] > 0 else v[0] != v[0])
        if not ok and not (self.near(v[1], s[9], 0.001) and self.near(v[0], s[3], 0.001)): p.fail('average', '%s: averages %g GiB/s, %g ticks per byte of %g, %g and %g, %g' % (w, v[0], v[1], u[3], s[3], u[9], s[9])); return None
        return u, s, v[0]
    def tables(self, p, w, text, order, res, gens):
        tabs = re.split(r'^-- .*$', text, flags=re.M)[1:]
        if len(tabs) != 3: p.fail('report', '%s: %d comparison tables' % (w, len(tabs))); return
        for k, t in enumerate(tabs):
            rows = [l.split() for l in t.strip().split('\n')]
            names = rows[0][1:]
            if sorted(names) != sorted(order) or [x[0] for x in rows[1:]] != names: p.fail('table', '%s: rows and columns %s / %s' % (w, names, [x[0] for x in rows[1:]])); return
            def true(nm):
                i = order.index(nm); u, s, mean = res[i]
                if k == 0: return gens[i][0] / 8 / u[0] * 1e9 / 2**20
                if k == 1: return 32768 * gens[i][0] / 8 / s[0] * 1e9 / 2**20 if s else None
                return mean * 1024
            for x in rows[1:]:
                v = true(x[0]); got = num(x[1])
                if v is None:
                    if got is not None and got > 0: p.fail('table', '%s: speed %s of sums for %s, which has none' % (w, x[1], x[0])); return
                    continue
                if not self.near(got, v, 1e-4, 0.51): p.fail('table', '%s: table %d: %s MiB/s for %s, measured %g' % (w, k + 1, x[1], x[0], v)); return
                for nm, q in zip(names, x[2:]):
                    v2 = true(nm); d = num(q.rstrip('%'))
                    if v2 is None or v != v or v2 != v2: continue
                    e = 100 * (v / v2 - 1)
                    if not self.near(d, e, 1e-3, 0.6): p.fail('table', '%s: table %d: %s is %s faster than %s, expected %g%%' % (w, k + 1, x[0], q, nm, e)); return
    @staticmethod
    def hms(t):
        m = re.match(r'(\d\d+):([0-5]\d):([0-5]\d)(?!\d)', t); return int(m.group(1)) * 3600 + int(m.group(2)) * 60 + int(m.group(3)) if m else None
    def play(self, c, p):
        sc = self.scenario(c); m = c['mode']; r = p.run('run', sc); text = r.outtext()
        w = '%s, clocks %s' % (m, '; '.join(sc.get('clk', ['right'])))
        if abnormal(r): p.fail('abnormal', '%s: %s' % (w, abnormal(r))); return
        if r.code not in (0, 1): p.fail('status', '%s: exit status %d: %s' % (w, r.code, r.errtext()[-200:])); return
        if m == 'speed': self.speed(c, p, w, text, c['gens'][0])
        elif m == 'srspeed':
            parts = re.split(r'^Running speed test for generator (\S+)$', text.partition('-- Results')[0], flags=re.M); order = parts[1::2]
            if order != ['simcost%d' % (i + 1) for i in range(len(c['gens']))]: p.fail('report', '%s: generators measured: %s' % (w, order)); return
            res = []
            for i, t in enumerate(parts[2::2]):
                v = self.speed(c, p, '%s, generator %d of %d' % (w, i + 1, len(order)), t, c['gens'][i])
                if not v: return
                res.append(v)
            self.tables(p, w, '-- Results' + text.partition('-- Results')[2], order, res, c['gens'])
        elif m == 'battery':
            tv = [int(l[3:]) for l in r.auxlines() if l.startswith('TV ')]; e = self.hms((re.findall(r'^Elapsed time: +(.*)$', text, re.M) or [''])[0])
            if not tv or e is None: p.fail('report', '%s: no elapsed time in the report' % w); return
            d = (tv[-1] - tv[0]) / 1e9
            if not d - 1.01 <= e <= max(d * 1.0001 + 2, 0): p.fail('elapsed', '%s: the tests took %.2f s, reported %d s' % (w, d, e)); return
        elif m == 'birthday':
            L = re.findall(r'([\d.]+) % completed; time elapsed: ([\d:]+), left: ([\d:]+)(?:; ([\d.]+|inf) ([MG])iB/s \((\S+) cpb\))?', text)
            one = c['cost'] / 1e12 * (1 << c['e']); n = c['n']
            if not L: p.fail('report', '%s: no progress' % w); return
            for pc, el, left, sp, un, cpb in L:
                i = float(pc) * n / 100; el = self.hms(el); left = self.hms(left); di = 0.06 * n / 100
                if el is None or left is None: p.fail('progress', '%s: malformed time' % w); return
                if c['e'] == 0 or i > 300:
                    f = 0.02 if c['e'] == 0 else 0.4
                    if abs(el - i * one) > one * (di + 2) + f * i * one + 2: p.fail('progress', '%s: %g of %d values of %g s done, reported after %d s' % (w, i, n, one, el)); return
                    if i >= 50 and el > 50 and abs(left - (n - i) * one) > one * (di + 2) * (n / i) + (f + 0.06) * (n - i) * one + 2: p.fail('progress', '%s: %g of %d values of %g s done, %d s left reported' % (w, i, n, one, left)); return
                    if sp and i >= 50 and el > 50:
                        v = float(sp) * (1024 if un == 'G' else 1); t = 8 * 1e12 / c['cost'] / 2**20
                        if abs(v - t) > t * (0.06 + f + 1.0 / el) + 0.06: p.fail('progress', '%s: %g MiB/s reported, %g true' % (w, v, t)); return
                        k = c['cost'] / 1000 / 8 * 3 * c['tsc'] / 1000
                        if abs(float(cpb) - k) > k * (0.08 + f): p.fail('progress', '%s: %s ticks per byte reported, %g true' % (w, cpb, k)); return
            p.probe('progress lines', len(L))
        else:
            if c['x'] % 3:
                s2 = dict(sc); s2['bb_ps'] = c['bb'] * 8; s2['clk'] = [x for x in sc.get('clk', []) if not x.startswith('0')]
                r2 = p.run('slower', s2)
                if abnormal(r2): p.fail('abnormal', '%s: %s' % (w, abnormal(r2))); return
                v = []
                for t in (text, r2.outtext()):
                    q = re.search(r'Generator speed: ([\d.e+-]+) ([KM])iB/sec', t)
                    if not q: p.fail('report', '%s: no speed' % w); return
                    v.append(float(q.group(1)) * (1024 if q.group(2) == 'M' else 1))
                if not self.near(v[0], 8 * v[1], 0.01 + 0.7 * c['gran'] / 1e9 * 2): p.fail('speed', '%s: %g KiB/s, %g KiB/s with a processor 8 times slower' % (w, v[0], v[1])); return
            else:
                q = re.search(r'Elaplsed time: (\d+):(\d\d):(\d\d)\.(\d\d\d)$', text, re.M)
                if not q: p.fail('report', '%s: no elapsed time' % w); return
                h, mi, s, ms = (int(x) for x in q.groups()); e = h * 3600 + mi * 60 + s + ms / 1000
                if not self.near(e, r.vns / 1e9, 0.03, 0.003 + 2 * c['gran'] / 1e9): p.fail('elapsed', '%s: %g s reported, %g s passed' % (w, e, r.vns / 1e9)); return
        p.probe('true ' + m)
