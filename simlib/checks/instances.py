"""C23: tests next to other tests.  C24: several instances of one shipped generator in one process."""
import glob, os, re
from ..engine import rng_of
from .. import build, common as cm
from .threads import ThreadCheck, abnormal

HARDWARE = {'rdrand', 'seed'}      # not a function of the seed by design: the processor's generator, the caller's seeds

def parse_inst(text):
    """{slot: [(op, start, n, hash, first, last, wide)...]}, self-test results, loaded, refused slots, ended."""
    o = {}; t = {}; loaded = None; refused = set(); end = False
    for ln in text.split('\n'):
        f = ln.split(' ')
        if f[0] == 'O': o.setdefault(int(f[1]), []).append((f[2], int(f[3]), int(f[4]), f[5], f[6], f[7], int(f[8])))
        elif f[0] == 'R': o.setdefault(int(f[1]), []).append(('R', int(f[2]), 0) + tuple(f[3:6]))
        elif f[0] == 'T': t.setdefault(int(f[1]), []).append(int(f[2]))
        elif f[0] == 'L': loaded = (f[1] == '1', int(f[2]) if len(f) > 2 else 0, f[3] == '1' if len(f) > 3 else False)
        elif f[0] == 'N': refused.add(int(f[1]))
        elif f[0] == 'END': end = True
    return o, t, loaded, refused, end

class C24(ThreadCheck):
    id = 'C24'; level = 'exploration'; quick_cases = 20000; quick_s = 60; K = 3
    technique = 'deterministic simulation: several instances of a shipped generator in one simulated process, their creation, outputs, sums and release interleaved at memory-access granularity under seeded schedules with failing allocations; every instance is compared with the same instance alone in a fresh process'
    rule = 'case: a generator library of the tree with one of its variants and possibly a filter, 2-6 instances (equal or different seeds) with random creation, use and release in 1-5 threads, before and after, internal self-tests in between, a memory request that fails; per instance the outputs must be those of the instance alone. Non-trivial: a thread switch or fault happened; distinct: by the hash of the event trace.'
    assumptions = ['rdrand (output of the processor) and seed (passes the seeds of the caller through) are left out']
    real = ['all generator libraries of the tree (instrumented build)', 'src/core.c (module loading, filters)']
    def prepare(self):
        build.host(self.variant)
        self.names = sorted(os.path.basename(f)[:-2] for f in glob.glob(build.REPO + '/generators/*.c'))
        self.names = [n for n in self.names if n not in HARDWARE]
        self.P = build.plugins(self.names, self.variant); self.lits = {}
        self.par = []; self.static = []
        for n in self.names:
            src = open(build.REPO + '/generators/%s.c' % n, errors='replace').read()
            if 'get_param' in src: self.lits[n] = sorted(set(re.findall(r'"([A-Za-z0-9_+\-/.]{1,20})"', src))); self.par.append(n)
            if re.search(r'^[ \t]*static\s+(?!const|inline|void|int\s+run_self|CHECK)[^()\n]*[;=\[]', src, re.M): self.static.append(n)
    def case(self, r, tier):
        g = r.choice(self.names) if r.random() < 0.6 else r.choice(self.par + self.static)
        c = {'gen': g, 'param': r.choice(self.lits[g] or ['']) if g in self.lits and r.random() < 0.7 else '', 'filter': r.choice([0, 0, 0, 1, 2, 3, 4])}
        nt = r.choice([0, 1, 2, 2, 2, 3, 4]); ni = r.choice([2, 2, 3, 4, 6]); big = r.choice([3, 20, 20, 100, 700, 3000])
        lines = [[] for _ in range(nt + 2)]; seeds = [r.randrange(1 << 32) for _ in range(3)]
        for s in range(ni):
            sd = r.choice(seeds) if r.random() < 0.4 else r.randrange(1 << 32)
            ops = ['C%d:%d' % (s, sd)]
            for _ in range(r.choice([1, 1, 2, 3])): ops.append('%s%d:%d' % (r.choice('DDDS'), s, r.choice([0, 1, 2, r.randrange(1, big + 1), big])))
            if r.random() < 0.7: ops.append('F%d' % s)
            where = r.choice(['thread', 'thread', 'thread', 'pre-thread', 'pre-post', 'thread-post', 'pre', 'post'] if nt else ['pre', 'pre', 'post', 'pre-post'])
            tl = 1 + r.randrange(nt) if nt else 0; k = r.randrange(1, len(ops) + 1)
            if where == 'thread' : lines[tl].append(ops)
            elif where == 'pre-thread': lines[0].append(ops[:k]); lines[tl].append(ops[k:])
            elif where == 'thread-post': lines[tl].append(ops[:k]); lines[-1].append(ops[k:])
            elif where == 'pre-post': lines[0].append(ops[:k]); lines[-1].append(ops[k:])
            elif where == 'pre': lines[0].append(ops)
            else: lines[-1].append(ops)
        if r.random() < 0.25: lines[r.randrange(len(lines))].append(['T0'])
        out = []
        for l in lines:                 # merge the instances of one thread, each in its own order
            l = [x for x in l if x]; m = []
            while l:
                x = r.choice(l); m.append(x.pop(0))
                if not x: l = [y for y in l if y]
            out.append(m)
        c['th'] = out; c['fault'] = r.choice([None, None, None, None, r.randrange(0, ni + 2)])
        return c
    def shrink(self, c):
        slots = sorted({int(re.match(r'\w(\d+)', o).group(1)) for l in c['th'] for o in l if o[0] != 'T'})
        for s in slots:
            if len(slots) > 1: d = dict(c); d['th'] = [[o for o in l if o[0] == 'T' or int(re.match(r'\w(\d+)', o).group(1)) != s] for l in c['th']]; yield d
        for i in range(1, len(c['th']) - 1):
            if not c['th'][i]: d = dict(c); d['th'] = c['th'][:i] + c['th'][i + 1:]; yield d
        for i, l in enumerate(c['th']):
            for j, o in enumerate(l):
                if o[0] in 'DST': d = dict(c); d['th'] = list(c['th']); d['th'][i] = l[:j] + l[j + 1:]; yield d
        for k in ('fault', 'filter', 'param'):
            if c[k]: d = dict(c); d[k] = None if k == 'fault' else 0 if k == 'filter' else ''; yield d
    def scen(self, c, th=None):
        sc = {'prog': 'inst', 'arg': ['inst'], 'so:gen.so': self.P[c['gen']], 'filter': c['filter'], 'param': c['param'], 'th': [' '.join(l) for l in (th or c['th'])], 'max_steps': 30000000}
        if th is None and c['fault'] is not None: sc['fault'] = ['alloc %d 1 null -' % (c['fault'] + 1)]
        return sc
    def play(self, c, p):
        if c['gen'] not in self.P: return
        flat = [o for l in c['th'] for o in l]
        slots = sorted({int(re.match(r'\w(\d+)', o).group(1)) for o in flat if o[0] != 'T'})
        alone = {}; bits = 64
        for s in slots:
            ops = [o for o in flat if o[0] != 'T' and int(re.match(r'\w(\d+)', o).group(1)) == s]
            r = p.run('alone%d' % s, self.scen(c, [ops]), base=True)
            if abnormal(r): p.probe('alone-abnormal'); return        # not this property's business
            o, t, loaded, ref, end = parse_inst(r.aux.decode('latin-1'))
            if not loaded or not loaded[0]: p.probe('no-such-variant'); return
            if c['filter'] > 1 and s == slots[0]:
                pass
            alone[s] = o.get(s, []) if s not in ref else None
        tests = sum(o[0] == 'T' for o in flat); tref = None
        if tests:
            r = p.run('selftest', dict(self.scen(c, [['T0']]), count_st=1), base=True)
            if abnormal(r) or r.steps > 3000000: p.probe('no-self-test'); return
            tref = parse_inst(r.aux.decode('latin-1'))[1].get(0, [None])[0]
        sc = self.scen(c)
        b = p.run('rr', sc, base=True)
        if not self.judge(c, p, alone, tref, b): return
        if len(c['th']) > 3:
            for name, s in self.schedules(c, p, sc, b):
                if not self.judge(c, p, alone, tref, p.run(name, s)): return
    def judge(self, c, p, alone, tref, r):
        if abnormal(r): p.fail('abnormal', 'with several instances: ' + abnormal(r)); return False
        o, t, loaded, ref, end = parse_inst(r.aux.decode('latin-1'))
        if not loaded[0]:
            if not r.fired.get('alloc'): p.fail('load', 'the generator was loaded alone and not with several instances'); return False
            return True
        if not end and r.fired.get('alloc') and r.code != 0 and r.err: p.probe('gave-up'); end = None
        if end is False: p.fail('end', 'the run did not end'); return False
        hit = r.fired.get('alloc', 0)
        for s, want in alone.items():
            if s in ref:
                if want is not None and not hit: p.fail('refused', 'instance %d could not be created next to the others' % s); return False
                continue
            if want is None: continue
            got = o.get(s, [])
            if end is None: want = want[:len(got)]
            if got != want:
                k = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
                p.fail('outputs', 'generator %s, instance %d: operation %d gives %r, alone %r' % (c['gen'] + (' ' + c['param'] if c['param'] else ''), s, k, got[k] if k < len(got) else None, want[k] if k < len(want) else None)); return False
        for l in t.values():
            for x in l:
                if x != tref and not hit: p.fail('self-test', 'generator %s: self-test result %r next to instances, %r alone' % (c['gen'], x, tref)); return False
        p.probe('compared')
        if hit: p.probe('creation-failed' if ref else 'allocation-failed')
        return True

# ------------------------------------------------------------------ C23
TESTS = {   # kind: (specification, rough cost)
 'monobit': (lambda r: 'monobit_freq:%d' % r.choice([1024, 2000, 5000]), 1),
 'bsp1':  (lambda r: 'bspace_nd:32:1:%d:%d' % (r.choice([1, 2]), r.randrange(2)), 17),
 'bsp2':  (lambda r: 'bspace_nd:16:2:1:%d' % r.randrange(2), 17),
 'bsp8':  (lambda r: 'bspace_nd:4:8:1:%d' % r.randrange(2), 20),
 'bs64':  (lambda r: 'bspace_nd:%s:%d:%d' % (r.choice(['10:4', '9:4', '8:5', '20:2', '40:1', '36:1', '12:3']), r.choice([1, 2, 3]), r.randrange(2)), 15),
 'b48':   (lambda r: 'bspace4_8d_decimated:%d' % r.choice([1, 2, 4]), 26),
 'co':    (lambda r: 'collisionover:8:2:2:%d:%d' % (r.randrange(2), r.choice([1000, 2000])), 1),
 'co5':   (lambda r: 'collisionover:4:4:2:%d:%d' % (r.randrange(2), r.choice([1000, 3000])), 2),
 'hd':    (lambda r: 'hamming_distr:%d:%d' % (r.choice([16384, 65536]), r.choice([1, 3, 6])), 9),
 'gap':   (lambda r: 'gap:%d:%d' % (r.choice([1, 3, 5]), r.choice([2000, 10000])), 4),
 'gap16': (lambda r: 'gap16_count0:%d' % r.choice([100000, 200000]), 12),
 'lc':    (lambda r: 'linearcomp:%d:%d' % (r.choice([100, 200, 500]), r.choice([-1, -2, -3, 0, 5])), 5),
 'mr':    (lambda r: 'matrixrank:%d:%d' % (r.choice([64, 128, 256]), r.choice([8, 32])), 40),
 'mod3':  (lambda r: 'mod3:%d' % r.choice([20000, 100000]), 4),
 'sc':    (lambda r: 'sumcollector:%d' % r.choice([20000, 100000]), 4),
 'nw':    (lambda r: 'nbit_words_freq:%d:8:%d' % (r.choice([2, 3, 4]), r.choice([16, 32])), 2),
 'ho':    (lambda r: 'hamming_ot:%d:%d' % (r.choice([8192, 16384, 65536]), r.randrange(4)), 30),
 'hl':    (lambda r: 'hamming_ot_long:%d:%d' % (r.choice([8192, 16384, 65536]), r.randrange(4)), 30),
 'is':    (lambda r: 'ising2d:%d:3:%d' % (r.choice([20, 50, 100]), r.randrange(2)), 12),
 'us':    (lambda r: 'usphere:%d:%d' % (r.choice([2, 3, 5, 8]), r.choice([100, 1000])), 1),
}
class C23(C24):
    id = 'C23'; quick_cases = 1500; quick_s = 70; K = 2; prof_max = 3000000
    gens = ['lcg64', 'xoroshiro128pp', 'sfc64', 'xorshift128', 'mwc64x', 'pcg32', 'weyl']
    technique = 'deterministic simulation: statistical tests of every kind running at the same time in simulated threads, interleaved at memory-access granularity under seeded schedules (preemption preferably where threads touch the same memory), and after other tests in the same process; every result is compared with the test alone in a fresh process'
    rule = 'case: 2-5 generator instances in 1-4 threads, each runs 1-3 tests (kinds and options drawn at random, often the same kind with equal or other options); statistic, p-value and the number of words read must be those of the test alone. Non-trivial: a thread switch happened; distinct: by the hash of the event trace.'
    assumptions = ['birthday_test is left out here (its size is set by the memory and time of the computer): C16, C17']
    real = ['src/coretests.c', 'src/extratests.c', 'src/hwtests.c', 'src/lineardep.c', 'src/specfuncs.c', 'src/core.c (sorting, helpers)']
    def prepare(self):
        build.host(self.variant); self.names = [g for g in self.gens if os.path.exists(build.REPO + '/generators/%s.c' % g)]
        self.P = build.plugins(self.names, self.variant)
    def case(self, r, tier):
        nt = r.choice([0, 2, 2, 2, 3, 4]); ni = r.choice([2, 2, 3]) if nt < 3 else nt
        budget = 130 if tier == 'quick' else 400; specs = []; lines = [[] for _ in range(nt + 2)]
        kinds = [r.choice(list(TESTS)) for _ in range(r.choice([1, 1, 2, 3]))]
        if r.random() < 0.6: kinds = [k for k in kinds if TESTS[k][1] <= 12] or [r.choice([k for k in TESTS if TESTS[k][1] <= 12])]
        made = {}
        for s in range(ni):
            ops = ['C%d:%d' % (s, r.choice([7, r.randrange(1 << 32)]))]
            for _ in range(r.choice([1, 1, 2, 3])):
                k = r.choice(kinds)
                if TESTS[k][1] > budget: continue
                budget -= TESTS[k][1]
                if k in made and r.random() < 0.4: j = made[k]
                else:
                    x = TESTS[k][0](r); j = specs.index(x) if x in specs else len(specs)
                    if j == len(specs): specs.append(x)
                    made[k] = j
                ops.append('R%d:%d' % (s, j)); ops.append('D%d:1' % s)
            ops.append('F%d' % s)
            lines[(1 + s % nt) if nt and r.random() < 0.9 else r.choice([0, -1])].append(ops)
        c = {'gen': r.choice(self.names), 'param': '', 'filter': r.choice([0, 0, 0, 0, 1, 2, 3]), 'fault': None, 'test': specs}
        c['th'] = [[o for x in l for o in x] for l in lines]
        return c
    def shrink(self, c):
        for d in super().shrink(c): yield d
    def scen(self, c, th=None):
        sc = super().scen(c, th); sc['test'] = c['test']; sc['max_steps'] = 200000000; return sc
