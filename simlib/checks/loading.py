"""C19: libraries that fail to load.  C14: battery files."""
import re
from ..engine import Check, rng_of
from .. import build, common as cm, work
from .threads import abnormal
from .io import IOCheck, VERDICT, read_report

class C19(IOCheck):
    id = 'C19'; variant = 'A'; quick_cases = 12000; quick_s = 60
    technique = 'deterministic simulation: library opening, symbol lookup, initialisation and instance creation fail at a chosen point, in every mode of the program and for any of several generators, under random thread schedules; closing a library that is not open is reported by the simulator'
    rule = 'case: mode (harness battery, battery file, output modes, speed, self-test, speed tool with several generators), filter, threads and one failure: file missing, not a library, no entry point, initialisation refused, creation of the k-th instance refused or out of memory.'
    def case(self, r, tier):
        c = {'mode': r.choice(['sim', 'sim', 'sim', 'file', 'stdout', 'stdoutfl', 'stdoutflx', 'speed', 'srspeed', 'srspeed', 'help', 'express', 'freq', 'birthday', 'ising', 'unitsphere']), 'n': r.choice([1, 1, 2, 3, 8]), 'filter': r.choice([None, None, 'reverse-bits', 'interleaved32', 'high32', 'low32']), 'seed': 'l%d' % r.randrange(10**6)}
        f = r.choice(['open', 'missing', 'notlib', 'nosym', 'init', 'create', 'create', 'create', 'none', 'batopen', 'batsym', 'batmissing', 'batnotlib', 'batgen'])
        if f.startswith('bat') and c['mode'] != 'sim': f = 'create'
        if c['mode'] == 'help' and f == 'create': f = 'init'
        c['fail'] = f; c['k'] = r.choice([0, 0, 0, 1, 2]); c['ng'] = r.choice([1, 2, 3, 4]); c['at'] = r.randrange(c['ng'])
        if c['mode'] == 'srspeed': c['n'] = 1; c['filter'] = None
        if c['mode'] == 'srspeed' and f == 'none': c['fail'] = 'missing'
        c['brief'] = r.random() < 0.2
        return c
    def play(self, c, p):
        f = c['fail']; par = []; kw = {'tick_ns': 300000000, 'max_calls': 3000000}; fl = []; gname = 'simgen.so'; bat = 's=simbat.so'; files = {}
        if f == 'open': fl.append('dlopen 0 -1 eio simgen')
        if f == 'missing': kw['so:simgen.so'] = '/nonexistent/simgen.so'
        if f == 'notlib': kw['so:simgen.so'] = build.HERE + '/properties.jsonl'
        if f == 'nosym': fl.append('dlsym 0 -1 eio gen_getinfo')
        if f == 'init': par.append('failinit')
        if f == 'create': par.append('failcreate=%d' % c['k'])
        if f == 'batopen': fl.append('dlopen 0 -1 eio simbat')
        if f == 'batmissing': kw['so:simbat.so'] = '/nonexistent/simbat.so'
        if f == 'batnotlib': kw['so:simbat.so'] = build.HERE + '/properties.jsonl'
        if f == 'batsym': fl.append('dlsym 0 -1 eio battery_func')
        if f == 'batgen': bat = 's=simgen.so'
        if fl: kw['fault'] = fl
        if c['mode'] == 'srspeed':
            # the failing library among good ones: the program gets their names in order
            names = ['good%d.so' % i for i in range(c['ng'])]
            good = [n for n in self.P if not n.startswith('@')]
            for i, n in enumerate(names): kw['so:' + n] = self.P[good[i % len(good)]]
            if f == 'create' or f == 'init':
                names[c['at']] = 'simgen.so'      # takes its parameter from the command line elsewhere: not available, use another failure
                f = 'nosym'; kw['fault'] = ['dlsym %d 1 eio gen_getinfo' % c['at']]
            elif f == 'nosym': kw['fault'] = ['dlsym %d 1 eio gen_getinfo' % c['at']]
            elif f == 'open': kw['fault'] = ['dlopen %d 1 eio -' % c['at']]
            elif f == 'missing': kw['so:' + names[c['at']]] = '/nonexistent/x.so'
            elif f == 'notlib': kw['so:' + names[c['at']]] = build.HERE + '/properties.jsonl'
            else: kw['so:' + names[c['at']]] = self.P['@simbat']
            sc = self.cli([]); sc['prog'] = 'sr_speed'; sc['arg'] = ['sr_speed'] + names; sc.update(kw)
        else:
            b = {'sim': bat, 'file': 'f=bat.txt'}.get(c['mode'], c['mode'])
            if c['mode'] == 'file': files['bat.txt'] = 'battery name=x end\na test=monobit_freq nvalues=2000 end\nb test=monobit_freq nvalues=1024 end\n'
            a = [b, gname, '--seed=' + c['seed']]
            if c['mode'] == 'sim': a.append('--batparam=5,5,5m3')
            if par: a.append('--param=' + ';'.join(par))
            if c['n'] > 1: a.append('--nthreads=%d' % c['n'])
            if c['filter']: a.append('--filter=' + c['filter'])
            if c['brief']: a.append('--report-brief')
            if c['mode'].startswith('stdout'): a.append('--maxlen_log2=12')
            sc = self.cli(a, files, **kw)
            sc.update(cm.sched(rng_of('C19', c.get('i')), None, 3000))
        heavy = c['mode'] in ('express', 'freq', 'birthday', 'ising', 'unitsphere', 'speed')
        if f == 'none' or (f == 'create' and c['k'] > 0):
            if heavy: return
        r = p.run('run', sc)
        if abnormal(r): p.fail('abnormal', '%s, %s: %s' % (c['mode'], f, abnormal(r))); return
        aux = r.aux.decode('latin-1')
        if f == 'none':
            if r.code != (3 if c['mode'] == 'help' else 0) and c['mode'] != 'help': p.fail('works', 'nothing failed and the exit status is %d: %s' % (r.code, r.errtext()[-200:]))
            return
        failed = f != 'create' or 'GCF' in aux
        p.probe('%s-%s' % (c['mode'], f) if failed else 'not reached')
        if not failed: return
        if r.code == 0: p.fail('status', '%s, %s: exit status 0' % (c['mode'], f))
        if c['mode'] not in ('stdout', 'stdoutfl', 'stdoutflx') and VERDICT.search(r.outtext()): p.fail('verdict', '%s, %s: a verdict was printed' % (c['mode'], f))
        if c['mode'].startswith('stdout') and r.out: p.fail('output', '%s, %s: %d bytes of output' % (c['mode'], f, len(r.out)))
        if not r.err.strip(): p.fail('silent', '%s, %s: no message' % (c['mode'], f))
        if (f != 'create' or c['k'] == 0) and re.search(r'^TB ', aux, re.M): p.fail('ran', '%s, %s: a test was run' % (c['mode'], f))
        if c['mode'] == 'srspeed' and 'Results for function calls' in r.outtext(): p.fail('verdict', 'speed tool: results were printed')

# ------------------------------------------------------------------ C14
HOT = ['values', 'bytes', 'bytes_low8', 'bytes_low1']; HOL = ['w128', 'w256', 'w512', 'w1024']; ISA = ['wolff', 'metropolis']; LCB = {'low': -1, 'mid': -2, 'high': -3}
# test: [(key, kind, lowest, highest, values to draw from)]
SPEC = {
 'bspace_nd': [('nbits_per_dim', 'i', 1, 64, None), ('ndims', 'i', 1, 64, None), ('nsamples', 'i', 1, 1 << 30, [1, 2]), ('get_lower', 'i', 0, 1, [0, 1])],
 'collisionover': [('nbits_per_dim', 'i', 1, 64, [4, 5, 8, 10]), ('ndims', 'i', 1, 64, [1, 2]), ('nsamples', 'i', 1, 1 << 30, [1, 2, 3]), ('get_lower', 'i', 0, 1, [0, 1]), ('n', 'i', 1000, 1 << 30, [1000, 1500, 4000])],
 'bspace4_8d_decimated': [('step', 'i', 1, 1 << 30, [1, 2, 3, 8])],
 'gap': [('shl', 'i', 1, None, [1, 2, 3, 4]), ('ngaps', 'i', 10000, 1 << 40, [10000, 12345])],
 'gap16_count0': [('ngaps', 'i', 10000, 1 << 40, [10000000])],
 'hamming_distr': [('nvalues', 'i', 65536, 1 << 50, [65536, 70000]), ('nlevels', 'i', 1, 20, [1, 2, 5])],
 'hamming_ot': [('nbytes', 'i', 65536, 1 << 50, [65536, 80000]), ('mode', HOT, None, None, None)],
 'hamming_ot_long': [('nvalues', 'i', 65536, 1 << 50, [65536, 70000]), ('wordsize', HOL, None, None, None)],
 'ising2d': [('sample_len', 'i', 100, 10000000000, [100, 120]), ('nsamples', 'i', 3, 100000, [3, 4]), ('algorithm', ISA, None, None, None)],
 'linearcomp': [('nbits', 'i', 8, 1 << 30, [100, 300, 500]), ('bitpos', 'b', 0, None, None)],
 'matrixrank': [('n', 'i', 256, 65536, [256]), ('max_nbits', 'i', 8, 64, [8, 32])],
 'mod3': [('nvalues', 'i', 100000, 1 << 50, [100000, 120000])],
 'monobit_freq': [('nvalues', 'i', 1024, 1 << 50, [1024, 3000])],
 'nbit_words_freq': [('bits_per_word', 'i', 1, 16, [1, 3, 4, 8]), ('average_freq', 'i', 8, 1 << 20, [8, 16]), ('nblocks', 'i', 16, 1 << 30, [16, 32])],
 'sumcollector': [('nvalues', 'i', 100000, 1 << 50, [100000, 150000])],
 'usphere': [('ndims', 'i', 2, 20, [2, 3, 4]), ('npoints', 'i', 1000, 1 << 40, [1000, 2000])],
}
SLOW14 = ['gap16_count0', 'matrixrank']
BSP = [(32, 1), (16, 2), (4, 8), (8, 4), (10, 3), (20, 1)]

def entry(r, test, name):
    """One entry: name, test, {key: text value}, reference text."""
    kv = {}; ref = []
    for key, kind, lo, hi, vals in SPEC[test]:
        if kind == 'i':
            v = r.choice(vals) if vals else 0
            kv[key] = str(v); ref.append(v)
        elif kind == 'b':
            v = r.choice(['low', 'mid', 'high', 0, 1, 7, 31, 32, 40, 63]); kv[key] = str(v); ref.append(LCB.get(v, v))
        else:
            v = r.randrange(len(kind)); kv[key] = kind[v]; ref.append(v)
    if test == 'bspace_nd':
        a, b = r.choice(BSP); kv['nbits_per_dim'], kv['ndims'] = str(a), str(b); ref[0], ref[1] = a, b
    return [name, test, kv, '%s:%s:%s' % (name, test, ':'.join(map(str, ref)))]

def under(r, s):
    """An integer with separators, as the documentation of battery files allows."""
    if not s.isdigit() or r.random() < 0.6: return s
    o = s[0]
    for ch in s[1:]: o += '_' * (r.random() < 0.3) + ch
    return o

def render(r, ents, batname, style):
    nl = '\r\n' if style & 1 else '\n'
    def sp(): return r.choice([' ', ' ', '\t', '  ', ' \t ']) if not style & 2 else r.choice([' ', '\t', nl, nl + nl, ' # comment end' + nl + '  ', nl + '#' + 'x=1 end ' * r.choice([0, 3, 50]) + nl])
    out = []; items = [('b', batname)] if batname else []
    items += [('t', e) for e in ents]
    if batname and r.random() < 0.3: items.remove(items[0]); items.insert(r.randrange(len(items) + 1), ('b', batname))
    for kind, e in items:
        if r.random() < 0.2: out.append(r.choice(['# comment', '', '   ', '#', '\t# end end battery', '#' + 'long ' * 90]) + nl)
        if kind == 'b': toks = ['battery', 'name=' + e, 'end']
        else:
            mid = ['test=' + e[1]] + ['%s=%s' % (k, under(r, v)) for k, v in e[2].items()]; r.shuffle(mid); toks = [e[0]] + mid + ['end']
        out.append(''.join(t + (sp() if i < len(toks) - 1 else '') for i, t in enumerate(toks)) + (nl if not style & 4 or r.random() < 0.5 else ' '))
    s = ''.join(out)
    if style & 8: s = s.rstrip()
    if style & 16: s = '# ' + nl + ('#' + 'y' * 70 + nl) * 120 + s
    # no physical line may be longer than the documented buffer
    res = []
    for ln in s.split('\n'):
        if style & 32 and r.random() < 0.3 and len(ln) < 509:      # exactly as long as a line may be
            cr = ln.endswith('\r'); b = ln.rstrip('\r') + ' '; ln = (b + '#' + 'e' * 600)[:509] + '\r' * cr if '#' not in ln else ln
        if len(ln) > 510: return None
        res.append(ln)
    return '\n'.join(res)

HUGE = {'monobit_freq': 'nvalues', 'mod3': 'nvalues', 'sumcollector': 'nvalues', 'hamming_distr': 'nvalues', 'hamming_ot': 'nbytes', 'hamming_ot_long': 'nvalues', 'gap': 'ngaps', 'usphere': 'npoints', 'ising2d': 'sample_len',
        'linearcomp': 'nbits', 'bspace_nd': 'nsamples', 'collisionover': 'nsamples', 'nbit_words_freq': 'nblocks'}

class C14(IOCheck):
    id = 'C14'; quick_cases = 12000; quick_s = 60; variant = 'A'
    gens = ['@simbat', '@simgen', '@refbat'] + ['lcg64', 'xoroshiro128pp', 'sfc64', 'xorshift128', 'mwc64x', 'pcg32']
    technique = 'deterministic simulation: battery files in random layouts are read through short, failing and interrupted reads and run under random schedules; rows are compared with the same tests built directly from the option structures; damaged files must be rejected before any test starts; the address sanitizer watches random corruption'
    rule = 'case: (a) a random valid file against the reference battery, (b) a file with one defect of a known kind, (c) a valid file whose opening or k-th read fails, (d) random damage of bytes.'
    def prepare(self):
        build.host('P'); super().prepare()
        self.PP = {'so:%s.so' % n.lstrip('@'): p for n, p in build.plugins(self.gens, 'P').items()}
    def gen_entries(self, r, n, slow):
        out = []; kinds = [k for k in SPEC if k not in SLOW14 or slow]
        for i in range(n):
            out.append(entry(r, r.choice(kinds), r.choice(['t%d', 'test_%d', 'Name-with.dots_%d', 'x' * 40 + '%d', 'y' * 62 + '%d', '%d', 'end%d', 'end_%d', 'battery%d', 'test=%d', 'End%d']) % i))
        return out
    def case(self, r, tier):
        k = r.choice('vvvbbbbfddd') if r.random() < 0.96 else 'h'
        c = {'kind': k, 'ents': self.gen_entries(r, r.choice([1, 1, 2, 3, 5] if k == 'v' else [1, 2, 3, 8]), r.random() < 0.08), 'batname': r.choice([None, 'custom', 'B' * 63, 'x=y']),
             'style': r.randrange(64), 'fs': r.randrange(1 << 40), 'gen': r.choice(self.gens[3:]), 'seed': 'f%d' % r.randrange(10**6), 'n': r.choice([1, 1, 1, 2, 3]), 'io': r.choice([None, 'short', 'short'])}
        if k == 'b': c['bad'] = r.choice(list(BAD)); c['at'] = r.randrange(len(c['ents']))
        if k == 'f': c['fault'] = r.choice(['open', 'read', 'read', 'missing', 'eintr']); c['k'] = r.choice([0, 1, 1, 2, 2, 3]); c['style'] |= 16
        if k == 'd': c['edits'] = [[r.random(), r.choice(['set', 'del', 'ins', 'dup', 'cut']), r.choice([0, 9, 10, 13, 32, 35, 61, 95, 45, 255, 128, 101, 110, 100, 48, 57]) if r.random() < 0.7 else r.randrange(256), r.choice([1, 1, 2, 10, 64, 600])] for _ in range(r.choice([1, 1, 2, 4, 10]))]
        if k == 'h':
            t = r.choice(sorted(HUGE)); e = entry(r, t, 'huge'); c['ents'] = [e]
            if e[2].get('bits_per_word') == '1': e[2]['average_freq'] = '64'      # else a block takes no output at all
            hi = next(s[3] for s in SPEC[t] if s[0] == HUGE[t]); c['add'] = 1 << r.choice([b for b in (24, 26, 29) if t == 'nbit_words_freq'] or [b for b in ((16, 20, 24, 30) if hi <= 1 << 30 and t != 'linearcomp' else (24,) if t == 'linearcomp' else (31, 32, 33) if hi < 1 << 34 else (31, 32, 32, 33, 36, 39)) if (1 << b) <= hi // 2]); c['batname'] = None
        if k == 'v' and r.random() < 0.012:
            c['ents'] = [entry(r, r.choice(['monobit_freq', 'monobit_freq', 'linearcomp']), 't%03d' % i) for i in range(r.choice([70, 130, 260, 300]))]
        c['extra'] = [r.random(), r.choice([1, 3, 12, 40])] if k == 'v' and r.random() < 0.06 else None
        c['testid'] = r.choice([None, None, None, 'num', 'name', 'huge']) if k == 'v' else None
        return c
    def shrink(self, c):
        for i in range(len(c['ents'])):
            if len(c['ents']) > 1 and c.get('at', -1) != i:
                d = dict(c); d['ents'] = c['ents'][:i] + c['ents'][i + 1:]
                if 'at' in d and d['at'] > i: d['at'] -= 1
                yield d
        for k, v in (('style', 0), ('n', 1), ('io', None), ('batname', None), ('testid', None)):
            if c[k] != v: d = dict(c); d[k] = v; yield d
        if c.get('edits') and len(c['edits']) > 1:
            for i in range(len(c['edits'])): d = dict(c); d['edits'] = c['edits'][:i] + c['edits'][i + 1:]; yield d
    def text(self, c):
        r = rng_of(c['fs']); t = None; ents = c['ents']
        if c.get('extra'):        # keys that no test knows, in one entry
            e = ents[int(c['extra'][0] * len(ents))]; kv = {'note%d' % i: 'v%d' % i for i in range(c['extra'][1])}
            ents = [[x[0], x[1], dict(kv, **x[2]), x[3]] if x is e else x for x in ents]
        style = c['style'] | (2 if c.get('extra') else 0)
        while t is None: t = render(r, ents, c['batname'], style)
        return t
    def play(self, c, p):
        txt = self.text(c); k = c['kind']; kw = {}; fl = []
        if c['io'] == 'short': fl.append('read_file %d %d short %d' % (c['fs'] % 3, 1 + c['fs'] % 5, 1 + c['fs'] % 700))
        args = ['f=bat.txt', c['gen'] + '.so', '--seed=' + c['seed']] + (['--nthreads=%d' % c['n']] if c['n'] > 1 else [])
        if k == 'v': return self.valid(c, p, txt, args, fl)
        if k == 'h': return self.huge(c, p)
        if k == 'b':
            txt = BAD[c['bad']](rng_of(c['fs'], 'bad'), c['ents'], c['at'], txt)
            if txt is None: return
        if k == 'f':
            if c['fault'] == 'open': fl.append('open 0 -1 emfile bat.txt')
            elif c['fault'] == 'read':
                if c['k'] * 4096 > len(txt): return
                fl = ['read_file %d -1 eio bat.txt' % c['k']]
            elif c['fault'] == 'eintr': fl = ['read_file %d 1 eintr bat.txt' % c['k']]
        data = txt.encode('latin-1')
        if k == 'd':
            b = bytearray(data)
            for pos, op, v, n in c['edits']:
                i = int(pos * (len(b) + 1))
                if op == 'set' and b: b[i % len(b)] = v
                elif op == 'del': del b[i:i + n]
                elif op == 'ins': b[i:i] = bytes([v]) * n
                elif op == 'dup': b[i:i] = b[max(0, i - n):i]
                elif op == 'cut': del b[i:]
            data = bytes(b)
        files = {} if c.get('fault') == 'missing' else {'bat.txt': data}
        if fl: kw['fault'] = fl
        # parse only: the program prints what it would run
        r = p.run('list', self.cli(['f=bat.txt', 'list'], files, **kw))
        what = c.get('bad') or c.get('fault') or 'damage'
        if abnormal(r): p.fail('abnormal', '%s: %s' % (what, abnormal(r))); return
        if k == 'd':
            p.probe('accepted' if r.code == 0 else 'rejected')
            if r.code != 0 and not r.err.strip(): p.fail('silent', 'rejected without a message')
            return
        if c.get('fault') in ('read', 'open', 'eintr') and not any('read_file' in f or 'open' in f for f in r.fired): p.probe('not reached'); return
        p.probe(what)
        if c.get('fault') == 'eintr' and r.code == 0: return
        if r.code == 0: p.fail('accepted', '%s: the file was accepted: %s' % (what, r.outtext()[-300:])); return
        if not r.err.strip(): p.fail('silent', '%s: no message' % what)
        r = p.run('run', self.cli(args, files, **kw))
        if abnormal(r): p.fail('abnormal', '%s: %s' % (what, abnormal(r))); return
        if r.code == 0: p.fail('accepted', '%s: exit status 0' % what)
        if VERDICT.search(r.outtext()): p.fail('verdict', '%s: a verdict was printed' % what)
        if not r.err.strip(): p.fail('silent', '%s: no message' % what)
    def huge(self, c, p):
        """A count that does not fit 32 (16) bits is not cut to its lower part: the test still runs when the small count would be long done."""
        e = c['ents'][0]; key = HUGE[e[1]]; outs = []
        for big in (0, c['add']):
            x = [e[0], e[1], dict(e[2], **{key: str(int(e[2][key]) + big)}), e[3]]
            r = p.run('big' if big else 'small', self.cli(['f=bat.txt', 'simgen.so', '--seed=' + c['seed'], '--param=stopat=3000000'], {'bat.txt': render(rng_of(c['fs']), [x], None, 0)}, **self.PP), variant='P')
            if r.kind == 'budget' and r.code == 9: outs.append((None, False)); continue
            if abnormal(r): p.fail('abnormal', abnormal(r)); return
            rep = cm.parse_reports(r.outtext()); outs.append((r.code, bool(rep and rep[0].complete)))
        if not outs[0][1]: p.probe('small count runs too long'); return
        p.probe('huge ' + e[1])
        if outs[1][1]: p.fail('huge', '%s=%d ran as few generator outputs as %s' % (key, int(e[2][key]) + c['add'], e[2][key]))
    def valid(self, c, p, txt, args, fl):
        kw = dict(self.PP)
        if fl: kw['fault'] = fl
        extra = []; ents = c['ents']
        if c['testid'] == 'num': extra = ['--testid=%d' % (1 + c['fs'] % len(ents))]
        if c['testid'] == 'name': extra = ['--testname=' + ents[c['fs'] % len(ents)][0]]
        if c['testid'] == 'huge': extra = ['--testid=%d' % (len(ents) + 1 + c['fs'] % 3)]
        ref = ';'.join(e[3] for e in ents)
        if c['batname']: ref = '@' + c['batname'] + ';' + ref
        sch = cm.sched(rng_of('C14', c['fs']), None, 3000) if c['n'] > 1 else {}
        a = p.run('file', self.cli(args + extra, {'bat.txt': txt}, **dict(kw, **sch)), variant='P')
        rargs = ['s=refbat.so'] + args[1:] + ['--batparam=' + ref] + extra
        b = p.run('ref', self.cli(rargs, {}, **self.PP), variant='P')
        if abnormal(a): p.fail('abnormal', abnormal(a)); return
        if abnormal(b) or 'BATTERY_ERROR' in b.errtext():
            from ..engine import HarnessError
            raise HarnessError('reference battery: %s %s' % (abnormal(b), ref))
        p.probe('valid'); [p.probe('test ' + e[1]) for e in ents]
        if c.get('extra') and a.code == 2 and a.err.strip() and not VERDICT.search(a.outtext()): p.probe('unknown keys rejected'); return
        if a.code != b.code: p.fail('status', 'exit status %d, the described tests give %d: %s' % (a.code, b.code, a.errtext()[-300:])); return
        x, y = cm.parse_reports(a.outtext()), cm.parse_reports(b.outtext())
        if c['testid'] == 'huge':
            if a.code == 0 or any(q.rows or q.complete for q in x): p.fail('testid', 'a test that does not exist was run')
            return
        d = cm.compare_reports(x, y)
        if d: p.fail('rows', 'the file and the tests it describes differ: %s' % d); return
        # a lone test in a one-thread run prints everything: parameters that do not change the statistic show up as well
        strip = lambda t: re.sub(r'\d\d:\d\d:\d\d|\d+\.\d+ sec|elapsed.*|Elapsed.*', '', re.sub(r'(?m)^.*(time|sec|Speed|speed).*$', '', t))
        if c['n'] == 1:
            ta, tb = strip(a.outtext()), strip(b.outtext())
            if ta != tb:
                i = next((i for i, (u, v) in enumerate(zip(ta, tb)) if u != v), min(len(ta), len(tb)))
                p.fail('text', 'printed text differs: %r / %r' % (ta[max(0, i - 60):i + 60], tb[max(0, i - 60):i + 60]))

def _edit(fn):
    """Defect applied to one entry before it is written."""
    def f(r, ents, at, txt):
        es = [[e[0], e[1], dict(e[2]), e[3]] for e in ents]
        if fn(r, es[at]) is False: return None
        t = None
        while t is None: t = render(r, es, 'damaged', r.randrange(32))
        return t
    return f
def _ints(e): return [s for s in SPEC[e[1]] if s[1] == 'i']
def _bound(r, e, low):
    ks = [s for s in _ints(e) if (s[2] if low else s[3]) is not None]
    if not ks: return False
    s = r.choice(ks); e[2][s[0]] = str(s[2] - r.choice([1, 1, 2, 1000, 10**12]) if low else s[3] + r.choice([1, 1, 2, 1000, 2**62 - 1, 2**63, 2**64, 2**64 + s[2]]))
def _nonint(r, e):
    s = r.choice(_ints(e)); v = e[2][s[0]]; e[2][s[0]] = r.choice(['', 'abc', v + 'x', v + '.0', v + 'e5', '0x' + v, v + '-', v + '=', '-', '_', v + ',000', '--' + v, v + '\x7f'])
def _missing(r, e): del e[2][r.choice(list(e[2]))]
def _misspelt(r, e):
    k = r.choice(list(e[2])); e[2][r.choice([k + 's', k[:-1], k.upper()])] = e[2].pop(k)
def _enum(r, e):
    ks = [s for s in SPEC[e[1]] if isinstance(s[1], list) or s[1] == 'b']
    if not ks: return False
    s = r.choice(ks); e[2][s[0]] = r.choice(['', 'x', 'w64', 'byte', 'LOW', e[2][s[0]] + '1x'])
def _unknown(r, e): e[1] = r.choice(['foo', e[1] + 's', e[1][:-1], e[1].upper(), '', 'bspace', 'end2'])
def _notest(r, e): e[1] = None
def _longname(r, e): e[0] = 'n' * r.choice([64, 65, 100, 300])
def _longkey(r, e): e[2]['k' * r.choice([64, 65, 80, 200])] = '1'
def _longval(r, e):
    s = r.choice(_ints(e)); e[2][s[0]] = '0' * r.choice([64, 70, 200]) + e[2][s[0]]
def _n256(r, e):
    if e[1] != 'matrixrank': e[1] = 'matrixrank'; e[2] = {'n': '256', 'max_nbits': '8'}
    e[2]['n'] = str(r.choice([257, 300, 511, 1000, 65535]))
def _raw(pre, post=''):
    def f(r, ents, at, txt):
        a = pre(r) if callable(pre) else pre; b = post(r) if callable(post) else post
        return (a + '\n' if a else '') + txt + ('\n' + b if b else '')
    return f
def _render_notest(r, ents, at, txt):
    toks = []
    for i, e in enumerate(ents):
        toks.append(' '.join([e[0]] + (['test=' + e[1]] if i != at else []) + ['%s=%s' % kv for kv in e[2].items()] + ['end']))
    return '\n'.join(toks) + '\n'
def _longline(r, ents, at, txt):
    e = ents[at]; n = r.choice([512, 513, 600, 1023, 1024, 5000])
    line = e[0] + ' test=' + e[1]
    while len(line) < n: line += ' ' + 'pad%d=%d' % (len(line), r.randrange(10))
    return txt + '\n' + line + ' ' + ' '.join('%s=%s' % kv for kv in e[2].items()) + ' end\n'
BAD = {
 'value too small': _edit(lambda r, e: _bound(r, e, True)), 'value too large': _edit(lambda r, e: _bound(r, e, False)), 'not an integer': _edit(_nonint),
 'missing parameter': _edit(_missing), 'misspelt parameter': _edit(_misspelt), 'unknown choice': _edit(_enum), 'unknown test': _edit(_unknown),
 'no test field': _render_notest, 'long entry name': _edit(_longname), 'long key': _edit(_longkey), 'long value': _edit(_longval), 'n not divisible': _edit(_n256), 'long line': _longline,
 'entry not closed': _raw('', lambda r: r.choice(['last test=mod3 nvalues=100000', 'last', 'battery name=x', 'x test=mod3 nvalues=100000 End'])),
 'end without entry': _raw(lambda r: r.choice(['end', ' end end', 'battery name=a end end']), ''), 'end twice': _raw('', 'end'),
 'token without =': _raw('', lambda r: r.choice(['a test=mod3 nvalues 100000 end', 'a test = mod3 nvalues=100000 end', 'b word end', 'a test=mod3 nvalues=100000 b test=mod3 nvalues=100000 end'])),
 'battery without name': _raw(lambda r: r.choice(['battery end', 'battery title=x end']), ''),
 'nothing': lambda r, ents, at, txt: r.choice(['', '\n', '# only a comment\n', '\r\n\r\n', 'battery name=x end\n', '   \t ', '# x']),
}
