"""C27: what the command line asks for is what is done, or the run is refused."""
import re, base64
from ..engine import rng_of
from .. import build, work
from .io import IOCheck, abnormal, read_report

FILTERS = {'reverse-bits': 'ReversedBits', 'interleaved32': 'Interleaved', 'high32': 'High32', 'low32': 'Low32'}
RANGE = {'nthreads': (1, 255), 'testid': (1, (1 << 31) - 1), 'maxlen_log2': (12, 63)}
#  values of numeric options that are not a decimal number, or no number a machine word of the program can hold
NONUM = ['', 'x', '1x', '2abc', '16.', '12.5', '0x10', '1e1', '13 ', '14,', '15;', '1_', '--1', '+', '-', ' ', '=3', '12=', '4294967297', '4294967309', '18446744073709551617', '-4294967295', '9' * 30, '1' + '0' * 40, '-1', '0', '00', '-0']
#  a reader may take these as the number they spell or refuse them; nothing else
LENIENT = {' 3': 3, '+3': 3, '03': 3, '0013': 13, '+14': 14, '012': 12}
NAMES = ['nthread', 'nThreads', 'NTHREADS', 'thread', 'threads', 'testids', 'test', 'test_id', 'testnam', 'report', 'report-brief', 'filters', 'filte', 'seeds', 'see', 'params', 'par', 'maxlen', 'maxlen_log', 'maxlen_log22', 'batparams', 'bat', '', ' ', 'testid ', ' testid',
         'x' * 31, 'x' * 32, 'x' * 200, 'seed' + 'x' * 40, 'testid\t', 'h', 'help', 'nthreads-']

def model_cores(n):
    k = n - 1 if n > 4 else n
    return min(k, 255)

class C27(IOCheck):
    id = 'C27'; variant = 'P'; wall = 30; quick_cases = 40000; quick_s = 45
    technique = 'deterministic simulation: the program is started with generated command lines in simulated surroundings (number of processors, entropy, input); what the battery and the generator were told is recorded inside the run and compared with a reference reading of the options'
    rule = 'case: battery of the harness (shared library) or dump, generator from a library or from standard input, 0 to 7 options in any order with repetitions, among them at most one which is misspelt, malformed or out of range; plus the options which the help of the program names.'
    assumptions = ['other characters inside the text of a 256-bit key may be passed over or refused', 'of a repeated option the last one counts; a number of threads inside a seed counts more than the option', 'signs and leading blanks or zeros of a number may be accepted or refused']
    def prepare(self):
        IOCheck.prepare(self)
    def cases(self, tier, seed):
        yield {'kind': 'help', 'i': -1}
        yield from IOCheck.cases(self, tier, seed)
    def case(self, r, tier):
        nt = r.choice([1, 2, 3, 5]); c = {'kind': 'run', 'nt': nt, 'mode': r.choice(['bat'] * 6 + ['dump']), 'gen': r.choice(['simgen'] * 7 + ['stdin32', 'stdin64']), 'pfx': r.choice(['', '', 'bspace_', 'T'])}
        if r.random() < 0.1: c['cores'] = r.choice([1, 2, 3, 4, 5, 6, 8, 16, 64, 255, 256, 257, 300])
        elif r.random() < 0.5: c['cores'] = r.choice([1, 2, 3, 4, 5, 6, 7])
        else: c['cores'] = 2
        o = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 7])):
            o.append(self.option(r, c))
        c['bad'] = None
        if r.random() < 0.45:
            k = r.random()
            if k < 0.45:
                n = r.choice(list(RANGE)); lo, hi = RANGE[n]
                v = r.choice(NONUM + [str(lo - 1), str(hi + 1), str(hi + 2), str(hi + (1 << 32)), str(lo + (1 << 32)), str(lo - (1 << 32)), str(lo + (1 << 64)), '%d%s' % (r.randrange(lo, min(hi, 60) + 1), r.choice(['x', '.', ' ', '\t1', 'e', '%', '/2', 'k', ',']))])
                b = '--%s=%s' % (n, v)
            elif k < 0.55: b = '--%s=%s' % (r.choice(list(RANGE)), r.choice(list(LENIENT)))
            elif k < 0.66:
                n, v = (self.option(r, c) + '=').split('=', 1); v = v[:-1]; n = n[2:]; j = r.randrange(len(n) + 1); q = r.random()
                n = n[:j] + n[j + 1:] if q < 0.2 and j < len(n) else n[:j] + r.choice('abz012_-. ') + n[j:] if q < 0.4 else n + r.choice(['x', '2', 's', '_', '-', ' ', 'x' * 20, 'x' * 40, '\t', '\n']) if q < 0.7 else n[:j] + n[j:].upper() if q < 0.8 else n[:max(1, j - 1)]
                b = '--' + n + ('=' + v if v or r.random() < 0.3 else '')
            elif k < 0.75: b = '%s%s=%s' % (r.choice(['--', '--', '--', '-', '', '---', '\u2013'.encode().decode('latin-1')]), r.choice(NAMES), r.choice(['1', '3', '', 'low32', 'x']))
            elif k < 0.8: b = r.choice(['--nthreads', '--testid', '--testname', '--filter', '--seed', '--param', '--report-briefx', '--report_brief', '--report-brief ', '--threads ', '--Threads', '-threads', 'threads', '-', '--', '', '=', '-=', '--=', '--=1', 'low32', '2', '-n', '-n2', '--version', '--help'])
            elif k < 0.87: b = '--filter=' + r.choice(['', 'none', 'low', 'low33', 'low32 ', ' low32', 'LOW32', 'high', 'reverse', 'reverse_bits', 'reverse-bit', 'reverse-bitsx', 'interleaved', 'interleaved64', 'x' * 100])
            elif k < 0.93: b = '--param=' + 'p' * r.choice([126, 127, 128, 129, 200, 255, 256, 1000])
            else:
                good = base64.b64encode(bytes(r.randrange(256) for _ in range(32))).decode()
                b = '--seed=' + r.choice(['_0_' + good, '_ZZ_' + good, '_0G_' + good, '_-1_' + good, '_ 1_' + good, '_01' + good, '_001_' + good, '_01_' + good[:-2], '_01_' + good[:20], '_01_' + good + 'A', '_01_' + good + good, '_01_' + good[:10] + '!' + good[11:], '_01_' + good[:10] + ' ' + good[10:], '_01__' + good])
            c['bad'] = b; o.insert(r.randrange(len(o) + 1), b)
        c['o'] = o
        return c
    def option(self, r, c):
        k = r.random(); nt = c['nt']
        if k < 0.18: return '--nthreads=%d' % r.choice([1, 2, 3, 4, 5, r.choice([16, 31, 100, 254, 255])])
        if k < 0.26: return '--threads'
        if k < 0.38: return '--testid=%d' % r.choice([1, nt, r.randrange(1, nt + 1), r.choice([nt + 1, 255, 256, 65535, 65536, 65537, 2147483647])])
        if k < 0.46: return '--testname=' + r.choice([c['pfx'] + 's%02d' % r.randrange(nt)] * 6 + [c['pfx'] + 's%02d' % nt, '', 's', c['pfx'] + 's00x', c['pfx'] + 'S00'])
        if k < 0.54: return '--report-brief'
        if k < 0.74:
            if r.random() < 0.35: return '--seed=_%s_%s' % (r.choice(['00', '01', '02', '03', '0a', '0A', 'fF', '10', '04']), base64.b64encode(bytes(r.randrange(256) for _ in range(32))).decode())
            return '--seed=' + r.choice(['a', 'b', '1', 'a=b', '=', 'k' * 70, 'k' * 71, ' ', '--threads', 'o%d' % r.randrange(100)])
        if k < 0.84: return '--param=' + r.choice(['', 'bits=32', 'x=1', 'x', 'a=b=c', ' ', 'seeds=2', 'q' * 60, '--param=x', '%s%d%n'])
        if k < 0.95: return '--filter=' + r.choice(list(FILTERS))
        return '--maxlen_log2=%d' % r.choice([12, 13, 16, 63, 20])
    def shrink(self, c):
        if c['kind'] != 'run': return
        for i in range(len(c['o'])): d = dict(c); d['o'] = c['o'][:i] + c['o'][i + 1:]; yield d
        if c['nt'] > 1: d = dict(c); d['nt'] = 1; yield d
        if c['gen'] != 'simgen': d = dict(c); d['gen'] = 'simgen'; yield d
    # ---- the reference reading of a list of options: a list of acceptable outcomes, None means refused
    def read(self, c, lenient_ok):
        s = {'id': 0, 'name': None, 'n': 1, 'brief': False, 'seed': None, 'sn': 0, 'param': '', 'filter': None, 'maxlen': 0}
        for a in c['o']:
            if a == '--threads': s['n'] = model_cores(c['cores']); continue
            if a == '--report-brief': s['brief'] = True; continue
            m = re.match(r'^--([a-z0-9_]+)=(.*)$', a, re.S)
            if not m: return None
            n, v = m.groups()
            if n in RANGE:
                if v in LENIENT and lenient_ok: x = LENIENT[v]
                elif re.match(r'^[1-9][0-9]*$', v): x = int(v)
                else: return None
                if not RANGE[n][0] <= x <= RANGE[n][1]: return None
                s[{'nthreads': 'n', 'testid': 'id', 'maxlen_log2': 'maxlen'}[n]] = x
            elif n == 'testname': s['name'] = v
            elif n == 'param':
                if len(v) > 127: return None
                s['param'] = v
            elif n == 'filter':
                if v not in FILTERS: return None
                s['filter'] = v
            elif n == 'seed':
                if len(v) > 5 and v[0] == '_':
                    m = re.match(r'^_([0-9A-Fa-f]{2})_(.*)$', v, re.S)
                    if not m or len(re.sub('[^A-Za-z0-9+/]', '', m.group(2))) != 43: return None
                    if not lenient_ok and not re.match('^[A-Za-z0-9+/]{43}=?$', m.group(2)): return None
                    s['sn'] = int(m.group(1), 16)
                s['seed'] = v
            elif n == 'batparam': pass
            else: return None
        if s['sn']: s['n'] = s['sn']
        stdin = c['gen'].startswith('stdin')
        if stdin and s['n'] > 1: return None
        bits = {'stdin32': 32, 'stdin64': 64}.get(c['gen']) or (32 if s['param'] == 'bits=32' else 64)
        if bits == 32 and s['filter'] in ('interleaved32', 'high32', 'low32'): return None
        if s['id'] and s['name'] is not None: return None
        if c['mode'] == 'bat':
            if s['id'] > c['nt']: return None
            if s['name'] is not None and s['name'] not in [c['pfx'] + 's%02d' % i for i in range(c['nt'])]: return None
        return s
    def scen(self, c, opts):
        bp = (['=' + c['pfx']] if c['pfx'] else []) + ['3'] * c['nt']
        bat = ['s=simbat.so', c['gen'] + ('' if c['gen'].startswith('stdin') else '.so')] + ['--batparam=' + ','.join(bp)] if c['mode'] == 'bat' else ['stdout', c['gen'] + ('' if c['gen'].startswith('stdin') else '.so')]
        kw = {}
        if c['gen'].startswith('stdin'): kw = {'stdin_gen': 7, 'stdin_len': 1 << 18}
        if c['mode'] != 'bat': kw['stdout_limit'] = 1 << 17
        return self.cli(bat + opts, sysconf=['84 %d' % c['cores'], '83 %d' % c['cores']], **kw)
    def play(self, c, p):
        if c['kind'] == 'help': return self.play_help(p)
        r = p.run('run', self.scen(c, c['o']))
        if abnormal(r): p.fail('abnormal', abnormal(r)); return
        aux = r.aux.decode('latin-1').split('\n'); err = r.errtext(); rep = read_report(r.outtext()) if c['mode'] == 'bat' else None
        wants = [self.read(c, True)]; w2 = self.read(c, False)
        if w2 != wants[0]: wants.append(w2); p.probe('lenient')
        acted = [x for x in aux if x.startswith(('TB ', 'W '))] or (c['mode'] != 'bat' and len(r.out))
        if r.code == 2 and not (c['mode'] != 'bat' and 'Writing to stdout failed' in err):
            if None in wants:
                p.probe('refused')
                if acted: p.fail('refused-ran', 'the run is refused (exit status 2), but a test was run or a dump begun')
                if not err.strip(): p.fail('silent', 'exit status 2 without a message')
                if rep and rep.complete: p.fail('refused-report', 'the run is refused, and a complete report is printed')
                return
            p.fail('refused', 'a valid command line is refused: %s' % (err.strip().split('\n')[-1][:200])); return
        if wants[-1] is None and wants[0] is None:
            p.fail('accepted', 'the command line asks for something that does not exist, and the exit status is %d' % r.code); return
        s = wants[0]; p.probe('accepted')
        if c['mode'] != 'bat':
            #  dump: length, generator parameter, filter
            n = 1 << s['maxlen'] if 0 < s['maxlen'] < 17 else 1 << 17
            if len(r.out) < n if n == 1 << 17 else len(r.out) != n: p.fail('maxlen', 'the dump has %d bytes, 2^%d were asked for' % (len(r.out), s['maxlen']))
        else:
            o = next((x.split('\t') for x in aux if x.startswith('OPT ')), None)
            if not o: p.fail('no-battery', 'the battery was not called; exit status %d' % r.code); return
            got = {'id': int(o[0][4:]), 'name': None if o[1] == '-' else o[1], 'n': int(o[2]), 'brief': o[3] == '0', 'gname': o[5]}
            exp = {'id': s['id'], 'name': s['name'], 'n': s['n'], 'brief': s['brief'], 'gname': FILTERS[s['filter']] if s['filter'] else c['gen']}
            for k in exp:
                if got[k] != exp[k]: p.fail('option-' + k, 'the battery was given %s = %r, the command line says %r' % (k, got[k], exp[k])); return
            if not rep: p.fail('no-report', 'no report; exit status %d' % r.code); return
            sel = [i for i in range(c['nt']) if (not s['id'] or i == s['id'] - 1) and (s['name'] is None or s['name'] == c['pfx'] + 's%02d' % i)]
            ran = sorted(int(x.split(' ')[1]) for x in aux if x.startswith('TB '))
            if ran != sel: p.fail('selection', 'tests %s were run, the command line selects %s' % (ran, sel))
        if c['gen'] == 'simgen':
            par = next((x[4:] for x in aux if x.startswith('PAR ')), None)
            if par != s['param']: p.fail('param', 'the generator was given the parameter %r instead of %r' % (par, s['param']))
            if s['seed'] is not None and not p.fails:
                #  the same run asked for in the plainest way: the same seeds
                q = p.run('plain', self.scen(c, ['--seed=' + s['seed'], '--nthreads=%d' % s['n'], '--param=' + s['param']] + (['--testid=%d' % s['id']] if s['id'] else []) + (['--testname=' + s['name']] if s['name'] is not None else []) + (['--filter=' + s['filter']] if s['filter'] else []) + (['--maxlen_log2=%d' % s['maxlen']] if s['maxlen'] else [])))
                ka = sorted(x.split(' ')[2] for x in aux if x.startswith('GC ')); kb = sorted(x.split(' ')[2] for x in q.aux.decode('latin-1').split('\n') if x.startswith('GC '))
                if ka != kb: p.fail('seed', 'the generators were seeded with %s, with the same seed in another order of options with %s' % (ka[:3], kb[:3]))
    def play_help(self, p):
        r = p.run('help', self.cli([]))
        if abnormal(r) or r.code: p.fail('help', 'the help ended with %s' % r.status); return
        val = {'filter': 'reverse-bits', 'maxlen_log2': '13', 'seed': 'x', 'testid': '1', 'testname': 's00', 'nthreads': '2', 'param': 'x=1', 'batparam': '3', 'threads': '2'}
        for n, eq in re.findall(r'^\s+--([A-Za-z0-9_-]+)(=\w+)?', r.outtext() + r.errtext(), re.M):
            if eq and n not in val: p.probe('unknown-option'); continue
            q = p.run('form-' + n, self.cli(['dummy', 'simgen.so', '--%s%s' % (n, '=' + val[n] if eq else '')]))
            p.probe('form')
            if abnormal(q) or q.code: p.fail('help-form', 'the help names --%s%s, and the program refuses it: %s' % (n, eq, q.errtext().strip().split('\n')[-1][:200]))
