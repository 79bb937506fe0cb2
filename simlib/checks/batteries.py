"""C29: batteries written as scripts = built-in batteries.  C30: batteries for little memory run in it."""
import re, glob, os
from ..engine import rng_of
from .. import build, work
from .io import IOCheck, abnormal, read_report

def cfg(name): return open(build.REPO + '/batscripts/%s.cfg' % name).read()
def ntests(name):
    t = re.sub(r'#.*', '', cfg(name)); return len(re.findall(r'\btest\s*=', t))
SAME = ['express', 'brief', 'default', 'full', 'ising', 'unitsphere']
#  tests whose work after a few outputs is long: linear complexity of a million bits and the like
def norm(text):
    out = []
    for l in text.replace('\r', '\n').split('\n'):
        if 'lapsed time' in l: continue
        l = re.sub(r"'[^']*'(?= battery| summary)", 'BATTERY', l) if 'attery' in l else l
        l = re.sub(r"(?<=[Bb]attery )'[^']*'", 'BATTERY', l)
        out.append(l.rstrip())
    return out

class C29(IOCheck):
    id = 'C29'; wall = 60; quick_cases = 1500; quick_s = 60
    gens = ['@simgen']
    technique = 'deterministic simulation: the built-in battery and its script run one test each in the same simulated machine (memory, seed, generator) until it ends or until a chosen number of outputs was drawn; everything printed and every memory request of the test is compared'
    rule = 'case: battery with a script of the same name, one test of it selected by number or name, generator with 32 or 64 bits and special outputs, seed, memory of the machine, number of outputs after which the simulation is stopped, kind of report.'
    assumptions = ['tests too long for a simulation are compared up to the point where the simulation is stopped']
    def prepare(self):
        IOCheck.prepare(self)
        self.same = [b for b in SAME if os.path.exists(build.REPO + '/batscripts/%s.cfg' % b)]
        self.n = {b: ntests(b) for b in self.same}
        build.host('P'); self.plain = build.plugins(['@simgen'], 'P')['@simgen']
    def cases(self, tier, seed):
        for b in [x for x in ('brief', 'express') if x in self.same] + (['ising', 'default', 'full'] if tier != 'quick' else []):      # whole tests
            for t in range(1, self.n[b] + 1): yield {'bat': b, 'id': t, 'seed': 's2', 'opt': [], 'par': [], 'stop': 0, 'whole': 40 if tier == 'quick' else 600, 'i': t}
        for b in self.same:                                         # every test of every battery once
            yield {'bat': b, 'id': None, 'i': -1}
            for t in range(1, self.n[b] + 2): yield {'bat': b, 'id': t, 'seed': 's1', 'opt': [], 'par': [], 'stop': 300000, 'i': t}
        i = 0
        while True:
            r = rng_of(self.id, seed, i); b = r.choice(self.same); n = self.n[b]
            c = {'bat': b, 'id': r.choice([1, n, r.randrange(1, n + 1), r.randrange(1, n + 1), r.randrange(1, n + 1), n + 1]), 'seed': 's%d' % r.randrange(10**6), 'opt': [], 'par': [], 'i': i}
            if r.random() < 0.3: c['par'].append('bits=32')
            if r.random() < 0.1: c['par'].append('lowzero=%d' % r.choice([1, 8, 16]))
            if r.random() < 0.1: c['par'].append('sparse=%d' % r.choice([8, 16]))
            if r.random() < 0.2: c['opt'].append('--report-brief')
            if r.random() < 0.2: c['opt'].append('--nthreads=2')
            if r.random() < 0.2: c['byname'] = 1
            if r.random() < 0.2: c['mem'] = r.choice([1, 16, 64, 256, 1024, 65536])
            c['stop'] = r.choice([1, 1000, 65536, 300000]) if tier == 'quick' else r.choice([1000, 300000, 3000000, 30000000])
            if b == 'express' and r.random() < 0.15: c['stop'] = 0
            yield c; i += 1
    def shrink(self, c):
        for k in ('opt', 'par'):
            if c.get(k): d = dict(c); d[k] = []; yield d
        for k in ('mem', 'byname'):
            if c.get(k): d = dict(c); del d[k]; yield d
    def one(self, c, p, script):
        b = ['f=' + c['bat'] + '.cfg' if script else c['bat']]
        files = {c['bat'] + '.cfg': cfg(c['bat'])}
        if c['id'] is None: return p.run('list-' + ('script' if script else 'built-in'), self.cli(b + ['list'], files))
        sel = ['--testid=%d' % c['id']]
        if c.get('byname'):
            nm = self.names(c, p)
            if c['id'] <= len(nm): sel = ['--testname=' + nm[c['id'] - 1]]
        par = c['par'] + (['stopat=%d' % c['stop']] if c['stop'] else [])
        kw = {}
        if c.get('mem'): kw['sysconf'] = ['85 %d' % (c['mem'] * 512), '86 %d' % (c['mem'] * 256)]
        sc = self.cli(b + ['simgen.so', '--seed=' + c['seed'], '--param=' + ';'.join(par)] + sel + c['opt'], files, outbuf='none', trace_alloc=1, cpu_s=c.get('whole', 60), **kw)
        if c.get('whole'): sc['so:simgen.so'] = self.plain
        return p.run('script' if script else 'built-in', sc, *(('P', 2 * c['whole'] + 10) if c.get('whole') else ()))
    def names(self, c, p):
        return re.findall(r'^\s+\d+ (\S+)\s*$', p.run('names', self.cli(['f=b.cfg', 'list'], {'b.cfg': cfg(c['bat'])})).outtext(), re.M)
    def play(self, c, p):
        a = self.one(c, p, False)
        if c.get('whole') and a.kind == 'timeout': p.probe('too long to be run as a whole'); return
        b = self.one(c, p, True)
        if c.get('whole') and b.kind == 'timeout': p.probe('too long to be run as a whole'); return
        if c['id'] is None:
            if c['bat'] not in ('express', 'brief', 'default', 'full'): return
            la, lb = [re.findall(r'^\s+\d+ \S.*$', x.outtext(), re.M) for x in (a, b)]
            if la != lb: p.fail('list', 'the lists of tests differ: %s' % next(((x, y) for x, y in zip(la + [None] * 99, lb + [None] * 99) if x != y), None).__repr__())
            return
        for x, n in ((a, 'built-in'), (b, 'script')):
            if x.kind not in ('exit', 'budget'): p.fail('abnormal', '%s battery: %s' % (n, x.status)); return
        p.probe(a.kind)
        if (a.kind, a.code) != (b.kind, b.code): p.fail('ending', 'test %s of %s: the built-in battery ended with %s, the script with %s' % (c['id'], c['bat'], a.status, b.status)); return
        ta, tb = norm(a.outtext()), norm(b.outtext())
        if ta != tb:
            x, y = next((x, y) for x, y in zip(ta + ['<end>'], tb + ['<end>']) if x != y)
            p.fail('text', 'test %s of %s: the built-in battery prints %r, the script %r' % (c['id'], c['bat'], x, y)); return
        ma, mb = [(x.aux.decode('latin-1').split('\nGC ', 1) + [''])[1].split('\n') for x in (a, b)]
        ma, mb = [[l for l in x if l.startswith(('AL ', 'GC '))] for x in (ma, mb)]
        if c['opt'] == [] and ma != mb:
            x, y = next((x, y) for x, y in zip(ma + ['-'], mb + ['-']) if x != y)
            p.fail('requests', 'test %s of %s: the built-in battery asks for memory of %s, the script of %s' % (c['id'], c['bat'], x, y))

class C30(IOCheck):
    id = 'C30'; wall = 100; quick_cases = 2500; quick_s = 70
    gens = ['@simgen', 'sfc64', 'pcg32', 'kiss64']
    technique = 'deterministic simulation with fault injection: the simulated machine has just the memory that the battery is made for; every request beyond it fails; each test, and all tests one after another, must run on, also when the machine reports little or nonsensical amounts of memory'
    rule = 'case: one of the batteries for 4, 16 and 64 MiB, one test or all of them, generator, seed, reported memory, contents of fresh memory, number of outputs after which the simulation is stopped.'
    assumptions = ['the amount covers what the program requests (its code and stack are left out); one thread', 'tests too long for a simulation are judged up to the point where the simulation is stopped']
    def prepare(self):
        IOCheck.prepare(self)
        self.bats = {}
        for f in sorted(glob.glob(build.REPO + '/batscripts/lram_*m.cfg')):
            b = os.path.basename(f)[:-4]; self.bats[b] = (int(re.search(r'\d+', b).group(0)) << 20, ntests(b))
    def cases(self, tier, seed):
        for b in sorted(self.bats):
            for t in range(1, self.bats[b][1] + 1): yield {'bat': b, 'id': t, 'gen': 'simgen', 'bits': 64, 'seed': 's1', 'stop': 1000000, 'i': t}
        i = 0
        while True:
            r = rng_of(self.id, seed, i); b = r.choice(sorted(self.bats)); n = self.bats[b][1]
            c = {'bat': b, 'id': r.randrange(1, n + 1), 'gen': 'simgen', 'bits': r.choice([64, 64, 32]), 'seed': 's%d' % r.randrange(10**6), 'i': i}
            c['stop'] = r.choice([1000, 100000, 1000000, 1000000, 3000000]) if tier == 'quick' else r.choice([100000, 3000000, 30000000, 300000000])
            if b == 'lram_4m' and r.random() < 0.1: c['stop'] = 0
            if b == 'lram_4m' and r.random() < (0.01 if tier == 'quick' else 0.03): c['id'] = 0; c['stop'] = 0
            if r.random() < 0.4: c['mem'] = r.choice([0, -1, 1, 4, 16, 64, 1024, 1 << 22])
            if r.random() < 0.3: c['dirty'] = r.choice([0, 255])
            if not c['stop'] and r.random() < 0.5: c['gen'] = r.choice(['sfc64', 'pcg32', 'kiss64'])
            yield c; i += 1
    def play(self, c, p):
        lim = self.bats[c['bat']][0]
        par = [] if c['gen'] != 'simgen' else ['--param=bits=%d' % c['bits'] + (';stopat=%d' % c['stop'] if c['stop'] else '')]
        kw = {'memlimit': lim, 'cpu_s': 95}
        if c.get('mem') is not None: kw['sysconf'] = ['85 %d' % (c['mem'] * 512), '86 %d' % (c['mem'] * 256)]
        if c.get('dirty') is not None: kw['dirty'] = c['dirty']
        r = p.run('run', self.cli(['f=b.cfg', c['gen'] + '.so', '--seed=' + c['seed']] + (['--testid=%d' % c['id']] if c['id'] else []) + par, {'b.cfg': cfg(c['bat'])}, **kw))
        if r.kind == 'budget' and r.code == 9: p.probe('stopped')
        elif abnormal(r): p.fail('abnormal', abnormal(r)); return
        else: p.probe('ended')
        if r.fired.get('memlimit', 0) and r.kind != 'exit': p.probe('retried-with-less')
        if r.kind == 'exit':
            rep = read_report(r.outtext())
            if r.code not in (0, 1) or not rep or not rep.complete:
                p.fail('memory', 'test %s of %s with %d MiB ended with %s: %s' % (c['id'] or 'all', c['bat'], lim >> 20, r.status, r.errtext().strip().split('\n')[-1][:150])); return
        big = self.bats[c['bat']][0]
        if r.maxlive > big: p.fail('peak', 'test %s of %s held %d bytes' % (c['id'] or 'all', c['bat'], r.maxlive))
