"""C26: a finished run has released everything it acquired."""
import os, re, glob
from ..engine import Check, rng_of
from .. import build, runner, common as cm, work
from . import threads, seeds, io, loading, memory, clocks

OTHERS = {}
for _m in (threads, seeds, io, loading, memory, clocks):
    for _v in vars(_m).values():
        if isinstance(_v, type) and getattr(_v, 'id', None) and _v.__module__ == _m.__name__: OTHERS[_v.id] = _v
#  weights: how often the workload of another check is taken
MIX = ['C15'] * 12 + ['C14'] * 6 + ['C19'] * 6 + ['C04'] * 2 + ['C06'] * 1 + ['C07'] * 2 + ['C09'] * 2 + ['C11'] * 2 + ['C12'] * 2 + ['C13'] * 4 + ['C16'] * 1 + ['C17'] * 1 + ['C18'] * 2

class Watch:
    """Stands between the play of another check and the engine: judges what every run left behind."""
    def __init__(self, check, c, p): self.check = check; self.case = c; self.p = p; self.used = 0
    def rng(self, *a): return rng_of(self.check.id, self.case.get('i', 0), *a)
    def probe(self, *a): pass
    def fail(self, sig, msg): pass                 # the verdicts of the other check are its own business
    def __getattr__(self, n): return getattr(self.p, n)
    def run(self, name, sc, variant=None, wall=None, base=False):
        r = self.p.run(name, sc, variant or self.check.variant, wall or self.check.wall, base)
        C26.judge(self.p, name, sc, r); return r

class C26(Check):
    id = 'C26'; variant = 'P'; wall = 60; level = 'exploration'; quick_cases = 20000; quick_s = 70
    technique = 'deterministic simulation with fault injection: every memory request, opened file, opened library and thread is counted by the simulator; when the program returns, under any schedule and any injected failure of memory, files, libraries, threads or input, nothing may be left'
    rule = 'case: a workload of another check (its faults and schedule included; chosen by weight) or one generator library of the tree with a variant in a mode of the program; runs whose main function returned are judged.'
    assumptions = ['runs that end by exit() from inside (out of memory, failed input or output) leave the release to the operating system and are not judged']
    def prepare(self):
        self.o = {k: OTHERS[k]() for k in sorted(set(MIX))}
        for k in self.o.values(): k.tier = getattr(self, 'tier', 'quick'); k.prepare()
        build.host(self.variant)
        self.P, self.lits = build.all_generators(self.variant); self.names = sorted(self.P)
        self.bat = build.plugins(['@simbat'], self.variant)['@simbat']
    def cases(self, tier, seed):
        gens = {k: v.cases(tier, seed) for k, v in self.o.items()}; i = 0; order = list(self.names); rng_of(self.id, seed, 'order').shuffle(order); g = 0
        while True:
            r = rng_of(self.id, seed, i); i += 1
            if r.random() < 0.3:
                n = order[g % len(order)] if r.random() < 0.8 or not self.lits else r.choice(sorted(self.lits)); g += 1
                yield {'of': 'lib', 'gen': n, 'param': r.choice(self.lits[n] or ['']) if n in self.lits and r.random() < 0.7 else '', 'mode': r.choice(['sim', 'sim', 'selftest', 'selftest', 'dump', 'simn', 'speed']), 'filter': r.choice([None, None, 'reverse-bits', 'interleaved32', 'high32', 'low32']),
                       'fault': r.choice([None, None, None, 'alloc %d %d null -' % (r.choice([0, 1, 2, 3, 4, 6, 9]), r.choice([1, 1, -1])), 'thread_create %d 1 eagain -' % r.randrange(3)]), 'x': r.randrange(1 << 30), 'seed': r.choice(['', '--seed=r%d' % r.randrange(99)])}
                continue
            k = r.choice(MIX)
            yield {'of': k, 'c': next(gens[k])}
    def shrink(self, c):
        if c['of'] != 'lib':
            for d in self.o[c['of']].shrink(c['c']): yield {'of': c['of'], 'c': d}
            return
        for k, v in (('param', ''), ('filter', None), ('fault', None), ('seed', '')):
            if c[k] != v: d = dict(c); d[k] = v; yield d
    @staticmethod
    def judge(p, name, sc, r):
        if sc.get('prog', 'smokerand') not in ('smokerand', 'sr_speed', 'sr_tiny', 'api') or r.kind != 'exit': return
        if not r.returned: p.probe('ended by exit()'); return
        f = [k for k in r.fired]
        after = (', after the failure of: ' + ', '.join(sorted(f))) if f else ''
        a = ' '.join(sc.get('arg', []))[:150]
        if r.left_n: p.fail('memory', '%s (exit status %d%s): %d blocks (%d bytes) of memory are not freed' % (a, r.code, after, r.left_n, r.left_bytes))
        if r.left_dl: p.fail('library', '%s (exit status %d%s): %d libraries stay open' % (a, r.code, after, r.left_dl))
        if r.left_fd: p.fail('file', '%s (exit status %d%s): %d files stay open' % (a, r.code, after, r.left_fd))
        if r.left_thr: p.fail('thread', '%s (exit status %d%s): %d threads still run' % (a, r.code, after, r.left_thr))
        p.probe('judged, exit status %d%s' % (r.code, ', with a failure' if f else ''))
    def play(self, c, p):
        if c['of'] != 'lib':
            o = self.o[c['of']]; o.play(c['c'], Watch(o, c['c'], p)); return
        if c['gen'] not in self.P: return
        m = c['mode']; a = {'sim': ['s=simbat.so', 'g.so', '--batparam=20,7s3'], 'simn': ['s=simbat.so', 'g.so', '--batparam=20,7s3,1,1', '--nthreads=3'], 'selftest': ['selftest', 'g.so'], 'dump': ['stdout', 'g.so', '--maxlen_log2=11'], 'speed': ['speed', 'g.so']}[m]
        if c['param']: a.append('--param=' + c['param'])
        if c['filter']: a.append('--filter=' + c['filter'])
        if c['seed']: a.append(c['seed'])
        sc = work.cli(a, {}); sc.update({'so:simbat.so': self.bat, 'so:g.so': self.P[c['gen']], 'tick_ns': 300000000, 'max_calls': 3000000})
        if m == 'simn': sc.update(cm.sched(rng_of('C26', c['x']), None, 300))
        if c['fault']: sc['fault'] = [c['fault']]
        r = p.run('run', sc)
        if r.kind != 'exit': p.probe('lib ' + r.status); return
        self.judge(p, 'run', sc, r)
