"""C07 and C08: reproducing a run from its printed seed, and automatic seeding."""
import re
from ..engine import Check, rng_of
from .. import build, common as cm, work
from .threads import abnormal, cli_case

class SeedCheck(Check):
    variant = 'T'; wall = 60
    gens = ['@simbat', '@simgen'] + work.GENS64 + work.GENS32[:2]
    def prepare(self):
        build.host(self.variant); self.P = build.plugins(self.gens, self.variant)
        self.so = {'so:%s.so' % n.lstrip('@'): p for n, p in self.P.items()}
    def cases(self, tier, seed):
        i = 0
        while True:
            r = rng_of(self.id, seed, i); c = self.case(r, tier); c['i'] = i; yield c; i += 1

def entropy_env(r):
    """Random state of the entropy sources, some of them failing."""
    e = {'urandom_seed': r.randrange(1, 1 << 40), 'wall_base': r.randrange(10**9, 2 * 10**9) * 10**9, 'pid': r.randrange(2, 1 << 22), 'tsc_base': r.randrange(1 << 50), 'rdseed': r.randrange(1 << 60)}
    if r.random() < 0.2: e.pop('rdseed')   # a processor without the instruction
    if r.random() < 0.7: e['file:/etc/machine-id'] = '%032x\n' % r.getrandbits(128)
    f = []
    k = r.random()
    if k < 0.15: f.append('open 0 -1 %s -' % r.choice(['enoent', 'emfile', 'eio']))
    elif k < 0.3: f.append('read_urandom 0 -1 %s %d' % (r.choice(['eio', 'eintr', 'eof', 'eagain']), 0))
    elif k < 0.4: f.append('read_urandom 0 -1 short %d' % r.choice([1, 4, 31, 16]))
    if r.random() < 0.15: f.append('read_file 0 -1 %s -' % r.choice(['eio', 'eof']))
    if f: e['fault'] = f
    if r.random() < 0.1: e['clk'] = ['%d %s' % (r.choice([0, 1, 2, 9]), r.choice(['freeze 0 1000000', 'jump 0 -100000000000', 'fail 0 5']))]
    return e

class C07(SeedCheck):
    id = 'C07'; level = 'exploration'; quick_cases = 1500; quick_s = 45
    technique = 'deterministic simulation: a run with random seeding, failing entropy sources and a random schedule is followed by a run with the printed seed only, under other clocks, entropy and schedule; both reports must be equal'
    rule = 'case: battery (harness battery, battery file or one selected test), generator, filter, threads by --nthreads/--threads/seed, seeding by text, key or nothing with random entropy faults; the second run gets the printed seed and nothing else about seeds or threads.'
    def case(self, r, tier):
        g = r.choice(['simgen'] * 3 + work.GENS64 + work.GENS32[:2])
        c = {'gen': g}
        if r.random() < 0.75:
            nt = r.choice([1, 2, 3, 5, 9, 20])
            c['bat'] = 's=simbat.so'; c['opt'] = ['--batparam=' + ','.join('%d%s' % (r.choice([1, 5, 20, 100]), r.choice(['', '', '', 'm1', 'm3', 'm4'])) for _ in range(nt))]
        else:
            nt = r.choice([1, 2, 3]); c['bat'] = 'f=bat.txt'; c['file'] = work.bat_file(r, nt, work.CHEAP); c['opt'] = []
        if r.random() < 0.15: c['opt'].append('--filter=reverse-bits')
        elif r.random() < 0.3 and g in ('xoroshiro128pp', 'sfc64'): c['opt'].append('--filter=' + r.choice(['interleaved32', 'high32', 'low32']))
        if r.random() < 0.1: c['opt'].append('--testid=%d' % r.randrange(1, nt + 1))
        if g == 'simgen' and r.random() < 0.3: c['opt'].append('--param=' + r.choice(['seeds=3', 'bits=32;seeds=2', 'print']))
        if r.random() < 0.1: c['opt'].append('--report-brief')
        k = r.random(); n = r.choice([1, 2, 2, 3, 4, 8, 15, 16, 17, 100, 127, 128, 200, 254, 255]) if k < 0.9 else 1
        if nt <= 3 and n > 20 and r.random() < 0.8: n = r.choice([2, 3, 4])
        th = ['--nthreads=%d' % n]
        if r.random() < 0.2: th = ['--threads']; c['sysconf'] = ['84 %d' % n, '83 %d' % n]
        if r.random() < 0.1: th = []
        sd = r.random()
        if sd < 0.5: c['seeding'] = th
        elif sd < 0.8: c['seeding'] = th + ['--seed=' + r.choice(['a', 'hello', '_x', '_12', 'k' * 70, '42', '_0', '=', 'a=b'])]
        else:
            import base64
            c['seeding'] = th + ['--seed=_%02X_%s' % (r.choice([0, 1, 2, 3, 16, 255 if nt > 3 else 5]), base64.b64encode(bytes(r.randrange(256) for _ in range(32))).decode())]
        if r.random() < 0.2: c['seeding'].reverse()
        c['e1'] = entropy_env(r); c['e2'] = entropy_env(r)
        return c
    def scen(self, c, extra, env, sched):
        files = {'bat.txt': c['file']} if 'file' in c else {}
        sc = work.cli([c['bat'], c['gen'] + '.so'] + extra + c['opt'], files)
        sc.update(self.so)
        env = dict(env); f = env.get('fault')
        if f:   # failing opens concern the entropy sources only: libraries go through dlopen, the battery file would be hit too
            if 'file' in c: f = [x for x in f if not x.startswith(('open', 'read_file'))]
            env['fault'] = f
        sc.update(env); sc.update(sched)
        if c.get('sysconf'): sc['sysconf'] = c['sysconf']
        return sc
    def play(self, case, p):
        r1 = rng_of('C07', case['i'], 1); r2 = rng_of('C07', case['i'], 2)
        a = p.run('first', self.scen(case, case['seeding'], case['e1'], cm.sched(r1, None, 20000)))
        if abnormal(a): p.fail('abnormal', abnormal(a)); return
        ra = cm.parse_reports(a.outtext())
        if len(ra) != 1 or not ra[0].complete:
            p.fail('no-report', 'exit status %d without a report: %s' % (a.code, a.errtext()[-300:])); return
        used = ra[0].used
        if len(set(used)) != 1 or len(used) != 2: p.fail('seed-text', 'printed seeds %r' % used); return
        if used[0] == 'none': p.fail('seed-text', 'no seed printed'); return
        b = p.run('again', self.scen(case, ['--seed=' + used[0]], case['e2'], cm.sched(r2, None, 20000)))
        if abnormal(b): p.fail('abnormal', 'second run: ' + abnormal(b)); return
        rb = cm.parse_reports(b.outtext())
        if len(rb) != 1 or not rb[0].complete: p.fail('no-report', 'with the printed seed %s the run ended with exit status %d and no report: %s' % (used[0], b.code, b.errtext()[-300:])); return
        d = cm.compare_reports(ra, rb)
        if d: p.fail('differs', 'with the printed seed %s: %s' % (used[0], d)); return
        if a.code != b.code: p.fail('status', 'exit status %d, with the printed seed %d' % (a.code, b.code))

class C08(SeedCheck):
    id = 'C08'; level = 'exploration'; quick_cases = 8000; quick_s = 45
    technique = 'deterministic simulation: random failures and data of the entropy sources; runs that differ in the data of one working source only must print different keys'
    rule = 'case: state of the six sources with random failures; a base run and up to six variants, each with the data of one working source changed by a bit, a second, a tick or a character.'
    def case(self, r, tier):
        c = {'e': entropy_env(r), 'bit': r.randrange(256), 'dw': r.choice([1, -1, 60, 3600, 86400, -31536000, 256, 65536]), 'dp': r.choice([1, -1, 2, 256, 65536]), 'dt': r.choice([1, 2, 256, 1 << 20, 1 << 33, -1]), 'mc': r.randrange(32), 'n': r.choice([1, 1, 3])}
        c['e'].pop('clk', None)
        c['e']['urandom_hex'] = '%064x' % r.getrandbits(256)
        if r.random() < 0.15: c['e']['urandom_hex'] = r.choice(['00', 'ff']) * 32
        c['mode'] = r.choice(['bat', 'bat', 'stdout'])
        return c
    def play(self, case, p):
        env = dict(case['e']); fl = env.get('fault', [])
        uw = not any(x.startswith(('open', 'read_urandom')) for x in fl)
        mw = 'file:/etc/machine-id' in env and not any(x.startswith(('open', 'read_file')) for x in fl)
        def go(name, **kw):
            e = dict(env); e.update(kw)
            args = ['s=simbat.so', 'simgen.so', '--batparam=2', '--nthreads=%d' % case['n']] if case['mode'] == 'bat' else ['stdout', 'simgen.so', '--maxlen_log2=12']
            sc = work.cli(args); sc.update(self.so); sc.update(e)
            return p.run(name, sc)
        def key(r):
            if case['mode'] == 'bat':
                rep = cm.parse_reports(r.outtext())
                return rep[0].used[0] if rep and rep[0].used else None
            return r.out
        b = go('base')
        if abnormal(b): p.fail('abnormal', abnormal(b)); return
        if b.code != 0: p.fail('no-key', 'exit status %d: %s' % (b.code, b.errtext()[-200:])); return
        k = key(b)
        if not k or k == 'none': p.fail('no-key', 'no key was made'); return
        warned = bool(re.search(r'unaccessible|inaccessible|unavailable|not available|[Ww]arning|fallback', b.errtext()))
        if not uw and not warned: p.fail('no-warning', 'the system random source failed and nothing was said')
        if uw and warned: p.fail('no-warning', 'the system random source works and a warning was printed')
        again = go('same')
        if key(again) != k: p.fail('unstable', 'two identical environments gave different keys')
        var = {'wall': {'wall_base': env['wall_base'] + case['dw'] * 10**9}, 'pid': {'pid': max(1, env['pid'] + case['dp'])}, 'tsc': {'tsc_base': max(0, env['tsc_base'] + case['dt'])}}
        if env.get('rdseed'): var['rdseed'] = {'rdseed_flip': '%d %d' % (case['bit'] >> 6, case['bit'] & 63)}
        if uw:
            h = int(env['urandom_hex'], 16) ^ (1 << case['bit']); var['urandom'] = {'urandom_hex': '%064x' % h}
        if mw:
            m = env['file:/etc/machine-id']; i = case['mc']; var['machine-id'] = {'file:/etc/machine-id': m[:i] + ('0' if m[i] != '0' else '1') + m[i + 1:]}
        for n in sorted(var):
            if all(env.get(kk) == vv for kk, vv in var[n].items()): continue
            r = go(n, **var[n]); p.probe('varied-' + n)
            if abnormal(r): p.fail('abnormal', abnormal(r)); continue
            if key(r) == k: p.fail('ignored:' + n, 'a change of %s does not change the key' % n)
