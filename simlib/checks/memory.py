"""C15: failing memory requests.  C16: reported memory and optional buffers."""
import re, base64, os, glob
from ..engine import Check, rng_of
from .. import build, common as cm, work
from .threads import abnormal
from .io import IOCheck, VERDICT, data_bytes

CHEAP = ['monobit', 'co', 'co5', 'hd', 'gap', 'lc', 'lch', 'mod3', 'sc', 'nw', 'us', 'bsp1', 'bsp2', 'bsp8', 'is', 'im', 'b48', 'hl', 'hl5', 'ho', 'hov', 'mr']

TINY = ('alfib', 'lcg32', 'lcg64', 'mwc1616', 'mwc1616x', 'xorshift32', 'xorwow')
class C15(IOCheck):
    id = 'C15'; variant = 'A'; quick_cases = 12000; quick_s = 60
    technique = 'deterministic simulation: chosen memory requests fail (one, all from some point on, all large ones, a total limit) in every mode of the program under random thread schedules; the outcome is compared with the run in which nothing failed'
    rule = 'case: a workload (battery file with random tests, harness battery, output modes, standard input, lists, self-test, speed modes; threads, filter, seeding) and several memory failure plans spread over all requests that the workload makes.'
    gens = ['@simbat', '@simgen', 'lcg64', 'xoroshiro128pp', 'sfc64', 'xorshift128', 'mwc64x', 'pcg32', 'aes128', 'kuzn', 'hc256', 'mt19937', 'lfib_par', 'chacha', 'speck64_128', 'isaac64', 'r1279', 'ranlux48']
    def prepare(self):
        import os
        self.gens = [g for g in self.gens if g[0] == '@' or os.path.exists(build.REPO + '/generators/%s.c' % g)]
        super().prepare()
        build.host('P'); self.lib, self.lits = build.all_generators('P'); self.bat = build.plugins(['@simbat'], 'P')['@simbat']
    def case(self, r, tier):
        if r.random() < 0.2:
            n = r.choice(sorted(self.lib)) if r.random() < 0.8 else r.choice(sorted(self.lits))
            return {'mode': 'lib', 'gen': n, 'param': r.choice(self.lits[n]) if self.lits.get(n) and r.random() < 0.6 else '', 'way': r.choice(['sim', 'sim', 'selftest', 'selftest', 'dump', 'simn']), 'filter': r.choice([None, None, None, 'reverse-bits', 'interleaved32']),
                    'n': 1, 'brief': False, 'x': r.randrange(1 << 40), 'plans': [[r.choice(['one', 'one', 'one', 'from', 'size']), r.random(), 1] for _ in range(6)]}
        m = r.choice(['file', 'file', 'file', 'file', 'sim', 'sim', 'sim', 'stdin', 'dump', 'list', 'help', 'selftest', 'speed', 'srspeed', 'heavy', 'srtiny'])
        c = {'mode': m, 'seed': r.choice(['--seed=m%d' % r.randrange(10**6), '--seed=m%d' % r.randrange(10**6), '--seed=_%02X_%s' % (r.choice([0, 1, 2, 3]), base64.b64encode(r.randbytes(32)).decode()), None]),
             'n': r.choice([1, 1, 2, 3, 5]), 'gen': r.choice([g for g in self.gens if g != '@simbat']).lstrip('@'), 'filter': r.choice([None, None, None, 'reverse-bits', 'interleaved32', 'high32', 'low32']), 'brief': r.random() < 0.2, 'x': r.randrange(1 << 40)}
        if m == 'file': c['bat'] = work.bat_file(r, r.choice([1, 1, 2, 3]), CHEAP)
        if m == 'list': c['bat'] = r.choice(['express', 'brief', 'default', 'full']) if r.random() < 0.4 else work.bat_file(r, r.choice([1, 3, 9]))
        if m == 'sim': c['tests'] = ['%d%s' % (r.choice([1, 20, 300]), r.choice(['', '', 'm1', 'm3'])) for _ in range(r.choice([1, 2, 5, 12]))]; c['gen'] = 'simgen'; c['param'] = r.choice([None, 'seeds=3', 'seeds=300', 'seeds=700', 'seeds=2000', 'bits=32'])
        if m == 'stdin': c['tests'] = ['%dw' % r.choice([1, 200]) for _ in range(r.choice([1, 3]))]; c['n'] = 1; c['nb'] = r.choice([32, 64])
        if m == 'dump': c['bat'] = r.choice(['stdout', 'stdoutfl', 'stdoutflx'])
        if m == 'heavy': c['bat'] = r.choice(['express', 'brief', 'default', 'full', 'birthday', 'freq', 'ising', 'unitsphere']); c['gen'] = 'simgen'; c['param'] = 'stopat=%d' % r.choice([2000, 200000, 5000000])
        if m == 'srtiny': c['gen'] = r.choice(TINY); c['brief'] = r.random() < 0.85
        if m in ('help', 'selftest', 'speed'): c['gen'] = r.choice(['mt19937', 'aes128', 'chacha', 'lcg64', 'xoroshiro128pp'])
        c['plans'] = [[r.choice(['one', 'one', 'one', 'from', 'size', 'limit', 'few']), r.random(), r.choice([1, 2, 3, 10])] for _ in range(r.choice([2, 4, 8]) if m not in ('heavy', 'srtiny') else 3)]
        return c
    def shrink(self, c):
        if len(c['plans']) > 1:
            for q in c['plans']: d = dict(c); d['plans'] = [q]; yield d
        for k, v in (('n', 1), ('filter', None), ('brief', False)):
            if c[k] != v: d = dict(c); d[k] = v; yield d
    def scenario(self, c):
        if c['mode'] == 'lib':
            a = {'sim': ['s=simbat.so', 'g.so', '--batparam=20,7s3'], 'simn': ['s=simbat.so', 'g.so', '--batparam=20,7s3,1,1', '--nthreads=3'], 'selftest': ['selftest', 'g.so'], 'dump': ['stdout', 'g.so', '--maxlen_log2=11']}[c['way']] + ['--seed=m']
            if c['param']: a.append('--param=' + c['param'])
            if c['filter']: a.append('--filter=' + c['filter'])
            sc = work.cli(a, {}); sc.update({'so:simbat.so': self.bat, 'so:g.so': self.lib[c['gen']], 'tick_ns': 300000000, 'max_calls': 3000000})
            if c['way'] == 'simn': sc.update(cm.sched(rng_of('C15', c['x']), None, 300))
            return sc
        m = c['mode']; files = {}; kw = {'tick_ns': 200000000, 'max_calls': 3000000}; a = []
        if m == 'file': files['bat.txt'] = c['bat']; a = ['f=bat.txt']
        elif m == 'list':
            if '\n' in c['bat']: files['bat.txt'] = c['bat']; a = ['f=bat.txt', 'list']
            else: a = [c['bat'], 'list']
        elif m in ('sim', 'stdin'): a = ['s=simbat.so', '--batparam=' + ','.join(c['tests'])]
        elif m in ('dump', 'heavy'): a = [c['bat']]
        elif m == 'srtiny': return dict(self.cli([], {}, **dict(kw, tick_ns=3 * 10**9 if c['brief'] else 10**6)), prog='sr_tiny', arg=['sr_tiny', c['gen']] + (['speed'] if c['brief'] else []))
        elif m == 'srspeed': return dict(self.cli([], {}, **kw), prog='sr_speed', arg=['sr_speed', 'lcg64.so', c['gen'] + '.so'] if c['gen'] != 'simgen' else ['sr_speed', 'sfc64.so'])
        else: a = [m]
        if m == 'stdin': a.insert(1, 'stdin%d' % c['nb']); kw['stdin'] = data_bytes(c['x'], (1000 + sum(int(t[:-1]) for t in c['tests'])) * c['nb'] // 8 + 5000)
        elif m != 'list': a.insert(1, c['gen'] + '.so')
        if m == 'list': return self.cli(a, files, **kw)
        if c['seed']: a.append(c['seed'])
        if c['n'] > 1 and not (c['seed'] or '').startswith('--seed=_'): a.append('--nthreads=%d' % c['n'])
        if c['filter'] and m != 'stdin': a.append('--filter=' + c['filter'])
        if c['brief'] and m != 'dump': a.append('--report-brief')
        if c.get('param'): a.append('--param=' + c['param'])
        if m == 'dump': a.append('--maxlen_log2=12')
        sc = self.cli(a, files, **kw)
        if c['n'] > 1: sc.update(cm.sched(rng_of('C15', c['x']), None, 3000))
        return sc
    def play(self, c, p):
        sc = self.scenario(c); var = 'P' if c['mode'] == 'lib' else None
        if c['mode'] == 'lib': c = dict(c, mode={'simn': 'sim'}.get(c['way'], c['way']))
        if c['mode'] == 'heavy':      # too long to be run to its end: only the requests made before the tests start
            base = None; total = 14
        else:
            base = p.run('base', sc, var, base=True)
            if abnormal(base): p.probe('baseline ' + abnormal(base)[:40]); return
            total = base.cnt.get('alloc', 0)
            if not total: return
        for j, (kind, u, n) in enumerate(c['plans']):
            k = int(u * total)
            if kind == 'one': f = {'fault': ['alloc %d 1 null -' % k]}
            elif kind == 'few': f = {'fault': ['alloc %d %d null -' % (k, n)]}
            elif kind == 'from': f = {'fault': ['alloc %d -1 null -' % k]}
            elif kind == 'size': f = {'fault': ['alloc_size 0 -1 null %d' % (1 << int(u * 24))]}
            else: f = {'memlimit': 1 << (6 + int(u * 20))}
            s2 = dict(sc); s2.update(f)
            r = p.run('run%d' % j, s2, var)
            what = '%s%s, %s' % (c['mode'], ' of %s %s' % (c['gen'], c['param']) if var else '', ' '.join(f.get('fault', ['limit %s' % f.get('memlimit')])))
            if base is None and r.kind in ('budget', 'timeout'): p.probe('survived in a long mode'); continue
            if not any('alloc' in x or 'memlimit' in x for x in r.fired): p.probe('not reached'); continue
            if abnormal(r): p.fail('abnormal', '%s: %s' % (what, abnormal(r))); return
            text = r.outtext()
            if r.code == 0 or VERDICT.search(text):
                if base is None: p.probe('finished in a long mode'); continue
                if r.code != base.code: p.fail('outcome', '%s: exit status %d with a report, %d when nothing fails: %s' % (what, r.code, base.code, r.errtext()[-200:])); return
                if c['mode'] in ('dump',):
                    if r.out != base.out: p.fail('output', '%s: the output differs' % what); return
                elif c['mode'] in ('list', 'help', 'selftest', 'srtiny'):
                    if text != base.outtext(): p.fail('output', '%s: the printed text differs' % what); return
                elif c['mode'] in ('file', 'sim', 'stdin'):
                    d = cm.compare_reports(cm.parse_reports(text), cm.parse_reports(base.outtext()))
                    if d: p.fail('result', '%s: %s' % (what, d)); return
                p.probe('same result')
                if r.code != 0 or r.errtext() == base.errtext(): continue
            else:
                if c['mode'] == 'dump' and not base.out.startswith(r.out): p.fail('output', '%s: wrong output before the error' % what); return
                if base is not None:
                    old = set((base.outtext() + base.errtext()).split('\n'))
                    new = [l for l in (text + r.errtext()).split('\n') if l.strip() and l not in old]
                    if not new: p.fail('silent', '%s: exit status %d without a message' % (what, r.code)); return
                elif not r.err.strip(): p.fail('silent', '%s: no message' % what); return
                p.probe('stopped ' + c['mode'])
