"""C09-C13 and C20: standard input and output, exit statuses, pipes."""
import re, base64, random, struct
from ..engine import Check, rng_of
from .. import build, common as cm, work
from .threads import abnormal

def data_bytes(seed, n):
    return random.Random(seed).randbytes(n)

class IOCheck(Check):
    variant = 'P'; wall = 30; level = 'exploration'
    gens = ['@simbat', '@simgen', 'lcg64', 'xoroshiro128pp', 'sfc64', 'xorshift128', 'mwc64x', 'pcg32']
    bits = {'lcg64': 32, 'xoroshiro128pp': 64, 'sfc64': 64, 'xorshift128': 32, 'mwc64x': 32, 'pcg32': 32}
    def prepare(self):
        build.host(self.variant); self.P = build.plugins(self.gens, self.variant)
        self.so = {'so:%s.so' % n.lstrip('@'): p for n, p in self.P.items()}
    def cases(self, tier, seed):
        i = 0
        while True:
            r = rng_of(self.id, seed, i); c = self.case(r, tier); c['i'] = i; yield c; i += 1
    def cli(self, args, files=None, **kw):
        sc = work.cli(args, files); sc.update(self.so); sc.update(kw); return sc

def test_words(aux, nb):
    """Words and sums recorded by the harness battery, in order: list of ('w', value) / ('s', k, sum)."""
    out = []; cur = {}
    d = nb // 4
    for ln in aux.split('\n'):
        if ln.startswith('W '):
            t = ln.split(' ')[2]
            out += [('w', int(t[i:i + d], 16)) for i in range(0, len(t), d)]
        elif ln.startswith('S '):
            f = ln.split(' '); out.append(('s', int(f[3]), int(f[4], 16)))
    return out

def read_report(text):
    rep = cm.parse_reports(text)
    return rep[0] if rep else None

VERDICT = re.compile(r'^(Passed: |Failed: |Suspicious: |All tests have been passed|Used seed: )|(\bOk|SUSPICIOUS|FAIL) +\d+$', re.M)

# ------------------------------------------------------------------ C10
class C10(IOCheck):
    id = 'C10'; quick_cases = 12000; quick_s = 45
    technique = 'deterministic simulation: standard input delivered in random pieces with short reads and delays; the words recorded inside the tests are compared with the bytes that were sent'
    rule = 'case: 32 or 64-bit input of random bytes, random sizes of reads, a harness battery that takes single words and sums and records them; the recorded words must be one uninterrupted part of the input that starts at most 1000 words in (the program samples the generator first).'
    def case(self, r, tier):
        nb = r.choice([32, 64]); n = r.choice([1, 2, 3, 5])
        draws = [r.choice([1, 3, 100, 127, 128, 129, 255, 256, 257, 1000, 3000]) for _ in range(n)]
        if tier != 'quick' and r.random() < 0.1: draws[0] = r.choice([50000, 200000])
        mode = r.random()
        t = []
        for d in draws:
            s = '%dw' % d
            if r.random() < 0.3: s += 's%d' % r.choice([1, 2, 7, 100, 300, 1000, 4097, 9000])
            t.append(s)
        return {'nb': nb, 'tests': t, 'seed': r.randrange(1 << 40), 'chunk': r.choice([0, 1, 3, 5, 7, 8, 64, 1000, 1023, 1024, 1025, 4096, 9999]), 'io': r.randrange(1, 1 << 30),
                'extra': r.choice([0, 0, 1, 5, 100, 1024, 5000]), 'short': r.choice([None, None, [r.randrange(0, 20), r.choice([1, 2, 5, -1]), r.choice([1, 2, 3, 7, 1023])]]),
                'brief': r.random() < 0.2, 'id': r.choice([0, 0, 0, 1, n])}
    def shrink(self, c):
        for i in range(len(c['tests'])):
            if len(c['tests']) > 1: d = dict(c); d['tests'] = c['tests'][:i] + c['tests'][i + 1:]; d['id'] = 0; yield d
        for k in ('chunk', 'extra', 'id'):
            if c[k]: d = dict(c); d[k] = 0; yield d
        if c['short']: d = dict(c); d['short'] = None; yield d
    def play(self, case, p):
        nb = case['nb']; ws = nb // 8
        tests = case['tests'] if not case['id'] else [case['tests'][case['id'] - 1]] if case['id'] <= len(case['tests']) else case['tests']
        need = 0
        for t in tests:
            m = re.match(r'(\d+)w(?:s(\d+))?', t); d = int(m.group(1)); k = int(m.group(2) or 0)
            need += d if not k else sum(k if i % k == 0 else 1 for i in range(d))
        data = data_bytes(case['seed'], (need + 1000) * ws + case['extra'])
        args = ['s=simbat.so', 'stdin%d' % nb, '--batparam=' + ','.join(case['tests'])]
        if case['id'] and case['id'] <= len(case['tests']): args.append('--testid=%d' % case['id'])
        if case['brief']: args.append('--report-brief')
        kw = {'stdin': data, 'in_chunk': case['chunk'], 'ioseed': case['io']}
        if case['short']: kw['fault'] = ['read_stdin %d %d short %d' % tuple(case['short'])]
        r = p.run('run', self.cli(args, **kw))
        if abnormal(r): p.fail('abnormal', abnormal(r)); return
        rep = read_report(r.outtext())
        if r.code != 0 or not rep or not rep.complete:
            p.fail('no-report', 'sufficient input, exit status %d: %s' % (r.code, r.errtext()[-200:])); return
        got = test_words(r.aux.decode('latin-1'), nb)
        words = struct.unpack('<%d%s' % (len(data) // ws, 'I' if nb == 32 else 'Q'), data[:len(data) // ws * ws])
        first = next((i for i in range(0, 1001) if self.match(got, words, i)), None)
        if first is None:
            q = self.prefix(got, words)
            p.fail('words', 'the words seen by the tests are not an uninterrupted part of the input: %s' % q); return
        p.probe('offset %d' % first)
        m = re.search(r'Bytes processed: (\d+) \(2\^(\S+), 10\^(\S+)\)', r.outtext() + r.errtext())
        if not m: p.fail('processed', 'no number of processed bytes'); return
        n = int(m.group(1)); low = (first + need) * ws
        if n < low or n > r.stdin_pos or n > low + 8192: p.fail('processed', '%d bytes reported, %d used by the tests, %d taken from the input' % (n, low, r.stdin_pos))
    def match(self, got, words, i):
        for g in got:
            if i >= len(words): return False
            if g[0] == 'w':
                if g[1] != words[i]: return False
                i += 1
            else:
                if sum(words[i:i + g[1]]) & (2**64 - 1) != g[2]: return False
                i += g[1]
        return True
    def prefix(self, got, words):
        best = (0, 0)
        for st in range(0, 1001):
            i = st; k = 0
            for g in got:
                n = 1 if g[0] == 'w' else g[1]
                if i + n > len(words) or (g[1] != words[i] if g[0] == 'w' else sum(words[i:i + n]) & (2**64 - 1) != g[2]): break
                i += n; k += 1
            if k > best[0]: best = (k, st)
        return 'best match %d of %d steps from word %d' % (best[0], len(got), best[1])

# ------------------------------------------------------------------ C11
class C11(IOCheck):
    id = 'C11'; quick_cases = 30000; quick_s = 40
    technique = 'deterministic simulation: standard input ends, or its reads fail, at a random position; compared with the run that had enough input'
    rule = 'case: a harness battery, a battery of real tests, or an output mode fed from standard input; the input is cut or fails at a random byte or read; below the needed length the run must end with an error and no verdict, from there on with the full outcome.'
    def case(self, r, tier):
        c = {'nb': r.choice([32, 64]), 'seed': r.randrange(1 << 40), 'io': r.randrange(1, 1 << 30), 'chunk': r.choice([0, 0, 1, 100, 1000, 1024, 4096])}
        k = r.random()
        if k < 0.5: c['kind'] = 'sim'; c['tests'] = ['%dw' % r.choice([1, 10, 128, 256, 500, 2000]) for _ in range(r.choice([1, 2, 4]))]
        elif k < 0.8: c['kind'] = 'real'; c['bat'] = work.bat_file(r, r.choice([1, 2]), ['monobit', 'co', 'nw', 'gap', 'lc'])
        else: c['kind'] = 'dump'; c['mode'] = r.choice(['stdout', 'stdoutfl', 'stdoutflx']); c['log2'] = r.choice([12, 13])
        c['cut'] = r.random(); c['near'] = r.choice([None, None, -1, 0, 1, -8, -1024, 1024, 8, -4, 4]); c['how'] = r.choice(['eof', 'eof', 'eof', 'eio', 'eintr', 'eagain'])
        c['brief'] = r.random() < 0.2; c['seek'] = r.random() < 0.4
        if c['how'] != 'eof':
            c['cnt'] = r.choice([-1, -1, 1, 1, 2, 3])
            if r.random() < 0.5: c['pieces'] = r.choice([100, 999, 3000, 4096, 5000])
        return c
    def play(self, case, p):
        nb = case['nb']; ws = nb // 8; files = {}; args = ['s=simbat.so', 'stdin%d' % nb]; full_len = None
        if case['kind'] == 'sim':
            args.append('--batparam=' + ','.join(case['tests'])); total = 1000 * ws + sum(int(t[:-1]) for t in case['tests']) * ws + 4096
        elif case['kind'] == 'real':
            args[0] = 'f=bat.txt'; files['bat.txt'] = case['bat']; total = 24 << 20
        else:
            args[0] = case['mode']; args.append('--maxlen_log2=%d' % case['log2']); total = (1 << case['log2']) * ws * 3 + 4096
        if case['brief'] and case['kind'] != 'dump': args.append('--report-brief')
        gen = {'stdin_gen': case['seed'] & 0xffffffff}
        if case.get('seek'): gen['stdin_seek'] = 1
        base = self.cli(args, files, **gen)
        b = p.run('full', dict(base, stdin_len=total), base=True)
        if abnormal(b): p.fail('abnormal', 'with enough input: ' + abnormal(b)); return
        full = self.summary(case, b)
        if full is None: p.fail('no-report', 'with enough input the exit status is %d: %s' % (b.code, b.errtext()[-200:])); return
        m = re.search(r'Bytes processed: (\d+)', b.outtext() + b.errtext())
        if not m: p.fail('no-report', 'no number of processed bytes'); return
        hi = min(int(m.group(1)), total)              # that much certainly suffices
        if case['kind'] == 'sim':
            lo = sum(int(t[:-1]) for t in case['tests']) * ws + (1000 * ws if nb == 32 else 0)
            got = test_words(b.aux.decode('latin-1'), nb)
            lo = min(lo, hi)
        elif case['kind'] == 'dump' and case['mode'] == 'stdout': lo = 1 << case['log2']
        else: lo = max(0, hi - 1024)                  # blocks of at most 1024 bytes
        if case['kind'] == 'dump' and case['mode'] == 'stdout': hi = lo
        if case['kind'] == 'sim': hi = lo             # the last word is the end
        n = int(case['cut'] * hi * 1.3) if case['near'] is None else max(0, hi + case['near'])
        n = min(n, total)
        kw = {'stdin_len': n, 'in_chunk': case['chunk'], 'ioseed': case['io']}
        if case['how'] != 'eof':
            # reads fail for good once n bytes were delivered: give exactly that many reads
            k = 1 + n // 4096; kw = {'stdin_len': total, 'ioseed': case['io'], 'fault': ['read_stdin %d %d %s -' % (k - 1, case['cnt'], case['how'])]}
            if case.get('pieces'): kw['in_chunk'] = case['pieces']; kw['fault'] = ['read_stdin %d %d %s -' % (int(case['cut'] * 1.3 * hi * 2 / min(4096, case['pieces'])), case['cnt'], case['how'])]
        r = p.run('cut', dict(base, **kw))
        if case['how'] != 'eof' and case['cnt'] < 0: n = r.stdin_pos
        elif case['how'] != 'eof': n = r.in_fail_pos - 1 if r.in_fail_pos else r.stdin_pos
        if abnormal(r): p.fail('abnormal', 'input of %d bytes of %d: %s' % (n, hi, abnormal(r))); return
        got = self.summary(case, r)
        if n >= hi and case['how'] == 'eof':
            p.probe('enough')
            if r.code != b.code or got != full: p.fail('enough', 'input of %d bytes (%d are needed) gives exit status %d and another outcome than a longer input (%d): %s' % (n, hi, r.code, b.code, r.errtext()[-200:]))
            return
        if case['how'] != 'eof' and not r.in_fail_pos:
            p.probe('not-reached')
            if r.code != b.code or got != full: p.fail('enough', 'no read failed and the outcome is another one')
            return
        if case['how'] in ('eintr', 'eagain') and case['cnt'] > 0 and r.code == b.code and got == full: p.probe('retried'); return
        if n < lo:
            p.probe('too-short' if case.get('cnt', -1) < 0 else 'failed-once')
            if r.code == 0: p.fail('status', 'input ended (%s) at %d of %d bytes and the exit status is 0' % (case['how'], n, lo))
            if case['kind'] != 'dump' and VERDICT.search(r.outtext()): p.fail('verdict', 'input ended (%s) at %d of %d bytes and a verdict was printed: %r' % (case['how'], n, lo, VERDICT.search(r.outtext()).group(0)))
            if not re.search(r'stdin|standard input', r.errtext().replace('stdin32', '').replace('stdin64', '')): p.fail('silent', 'input ended at %d of %d bytes without an error message: %r' % (n, lo, r.errtext()[-200:]))
        else:
            p.probe('border')
            if r.code == 0 and got != full: p.fail('status', 'input of %d bytes: exit status 0 and another outcome' % n)
            if got is not None and got != full: p.fail('verdict', 'input of %d bytes: another outcome' % n)
        # whatever was delivered is the beginning of the truth
        if case['kind'] == 'sim':
            a = test_words(r.aux.decode('latin-1'), nb); w = test_words(b.aux.decode('latin-1'), nb)
            if a != w[:len(a)]: p.fail('invented', 'a test was given words that are not in the input')
        if case['kind'] == 'dump' and r.out != b.out[:len(r.out)]: p.fail('invented', 'the output is not a prefix of the full output')
    def summary(self, case, r):
        if case['kind'] == 'dump': return r.out if r.code == 0 else None
        rep = read_report(r.outtext())
        return rep.key() if rep and rep.complete else None

# ------------------------------------------------------------------ C12, C13: dumps
def ref_words(chk, p, gen, nb, n, seedargs, extra=(), name='ref', env=None):
    """First n outputs of the generator seeded as in a battery run with one thread."""
    skip = 1000 if nb == 32 else 0
    args = ['s=simbat.so', gen + '.so', '--batparam=%dw' % max(1, n)] + list(seedargs) + list(extra)
    r = p.run(name, chk.cli(args, **(env or {})), base=True)
    if abnormal(r) or r.code not in (0, 1): return None, None
    w = [x[1] for x in test_words(r.aux.decode('latin-1'), nb)]
    return w, skip

def float_text(words, nb):
    inv = 2.0 ** -nb
    return ''.join('%.20g\n' % (float(w) * inv) for w in words).encode()

def accurate_match(text, words, nb):
    """Checks the accurate floats against the outputs: mantissa from one 64-bit output, exponent from its leading zeros,
    one or two further outputs when it starts with more than 11 zeros. Returns None or the first difference."""
    pos = 0
    def u64():
        nonlocal pos
        if nb == 64: pos += 1; return words[pos - 1]
        pos += 2; return words[pos - 2] | words[pos - 1] << 32
    for i, ln in enumerate(text):
        try:
            out = u64(); lz = 64 - out.bit_length()
            if lz <= 11: exps = [0x3fe - lz]
            else:
                l2 = 64 - u64().bit_length()
                if l2 == 64: l2 += 64 - u64().bit_length()
                exps = [0x3fe - 11 - l2, 0x3fe - 12 - l2]
        except IndexError: return None if False else 'ran out of reference words at number %d' % i
        ok = ['%.20g' % struct.unpack('<d', struct.pack('<Q', e << 52 | out & 0xfffffffffffff))[0] for e in exps]
        if ln not in ok: return 'number %d is %s, expected %s' % (i, ln, ok[0])
    return None

class DumpCheck(IOCheck):
    def dump_case(self, r, big):
        c = {'gen': r.choice(['simgen', 'simgen'] + [g for g in self.bits]), 'mode': r.choice(['stdout', 'stdout', 'stdoutfl', 'stdoutflx']), 'opt': []}
        c['nb'] = self.bits.get(c['gen'], 64)
        if c['gen'] == 'simgen':
            pr = []
            if r.random() < 0.5: pr.append('bits=32'); c['nb'] = 32
            if r.random() < 0.3: pr.append('seeds=%d' % r.choice([2, 5]))
            if r.random() < 0.3: pr.append('print')
            if r.random() < 0.35: pr.append('sparse=%d' % r.choice([11, 12, 13, 20, 31, 32, 33, 63, 64]))
            if pr: c['opt'].append('--param=' + ';'.join(pr))
        f = r.random(); c['outnb'] = c['nb']
        if f < 0.15: c['filter'] = 'reverse-bits'
        elif f < 0.4 and c['nb'] == 64: c['filter'] = r.choice(['interleaved32', 'high32', 'low32']); c['outnb'] = 32
        if c.get('filter'): c['opt'].append('--filter=' + c['filter'])
        lim = 18 if c['mode'] == 'stdout' else 14
        c['log2'] = r.choice([12, 12, 13, 14, 15, 16, 17, lim if big else 12]); c['log2'] = min(c['log2'], lim)
        k = r.random()
        c['seeding'] = ['--seed=' + ('s%d' % r.randrange(10**6) if k < 0.7 else '_01_' + base64.b64encode(bytes(r.randrange(256) for _ in range(32))).decode())]
        c['nt'] = r.choice([None, None, None, 1, 2, 8])
        c['outbuf'] = r.choice(['full', 'full', 'line', 'none']) if c['mode'] == 'stdout' else r.choice(['full', 'full', 'line'])
        c['chunk'] = r.choice([0, 0, 1000, 4096]); c['io'] = r.randrange(1, 1 << 30)
        return c
    def dump_sc(self, c, **kw):
        if c['gen'].startswith('stdin'): kw = dict(kw, stdin_gen=c['io'], stdin_len=1 << 26)
        a = [c['mode'], c['gen'] + ('' if c['gen'].startswith('stdin') else '.so'), '--maxlen_log2=%d' % c['log2']] + c['seeding'] + c['opt']
        if c['nt']: a.append('--nthreads=%d' % c['nt'])
        return self.cli(a, outbuf=c['outbuf'], out_chunk=c['chunk'], ioseed=c['io'], **kw)
    def reference(self, c, p):
        n = 1 << c['log2']
        words = n * 8 // c['outnb'] if c['mode'] == 'stdout' else n if c['mode'] == 'stdoutfl' else 4 * n + 64 if c['outnb'] == 32 else 2 * n + 64
        w, skip = ref_words(self, p, c['gen'], c['outnb'], words, c['seeding'], c['opt'])
        return w, skip
    def compare(self, c, out, w, skip, complete=True):
        """The output against the words of the battery run (32 bit: those from the 1001st on; the first thousand were sampled). None or a text."""
        nb = c['outnb']; n = 1 << c['log2']
        if c['mode'] == 'stdout':
            if complete and len(out) != n: return '%d bytes instead of %d' % (len(out), n)
            exp = struct.pack('<%d%s' % (len(w), 'I' if nb == 32 else 'Q'), *w); exp_skip = skip * nb // 8
            part = out[exp_skip:]
            if part != exp[:len(part)]:
                k = next((i for i in range(min(len(part), len(exp))) if part[i] != exp[i]), -1)
                return 'byte %d differs from the generator output seen by a battery' % (exp_skip + k)
            return None
        lines = out.decode('latin-1').split('\n')
        last = lines.pop()
        if complete and (last or len(lines) != n): return '%d numbers%s instead of %d' % (len(lines), ' and a rest %r' % last[:40] if last else '', n)
        if c['mode'] == 'stdoutfl':
            t = lines[skip:]; e = float_text(w[:len(t)], nb).decode().split('\n')[:-1]
            for i, (x, y) in enumerate(zip(t, e)):
                if x != y: return 'number %d is %s, expected %s' % (skip + i, x[:60], y)
            if last and len(t) < len(w) and not float_text([w[len(t)]], nb).decode().startswith(last): return 'cut number %r' % last[:40]
            if len(t) > len(w): return 'too many numbers'
            return None
        if skip == 0: return accurate_match(lines, w, nb)
        # 32 bit: the position of the thousandth output is not always the start of a number; numbers take 2, 4 or 6 outputs
        return 'unaligned'

class C12(DumpCheck):
    id = 'C12'; quick_cases = 6000; quick_s = 60
    technique = 'deterministic simulation: the dumped bytes, delivered in random pieces, are compared with the generator output recorded inside a battery run with the same seed; short writes, buffering modes and library messages vary'
    rule = 'case: output mode, generator (real ones and a harness generator that prints messages), filter, requested length, seed, number of threads, buffering of standard output, sizes of writes; also dumps of standard input, and unlimited dumps cut by a closed receiver.'
    def case(self, r, tier):
        if r.random() < 0.15:
            return {'stdin': r.choice([32, 64]), 'mode': r.choice(['stdout', 'stdoutfl', 'stdoutflx']), 'log2': r.choice([12, 13, 14]), 'seed': r.randrange(1 << 40), 'chunk': r.choice([0, 1, 100, 1000, 1024])}
        c = self.dump_case(r, tier != 'quick')
        if r.random() < 0.1: c['unlimited'] = r.choice([1000, 5000, 65536, 100001])
        return c
    def play(self, c, p):
        if 'stdin' in c:
            nb = c['stdin']; n = 1 << c['log2']; need = n if c['mode'] == 'stdout' else n * nb // 8 * (1 if c['mode'] == 'stdoutfl' else 3 if nb == 64 else 5)
            data = data_bytes(c['seed'], need + 3000)
            if c['mode'] == 'stdoutflx':
                g = rng_of(c['seed'], 'zeros'); w = nb // 8; z = bytes(w); data = b''.join(z if g.random() < 0.2 else data[i:i + w] for i in range(0, len(data) // w * w, w))
            r = p.run('dump', self.cli([c['mode'], 'stdin%d' % nb, '--maxlen_log2=%d' % c['log2']], stdin=data, in_chunk=c['chunk'], ioseed=5))
            if abnormal(r): p.fail('abnormal', abnormal(r)); return
            if r.code != 0: p.fail('status', 'exit status %d' % r.code)
            if c['mode'] == 'stdoutflx':
                lines = r.outtext().split('\n'); last = lines.pop()
                if last or len(lines) != n: p.fail('content', '%d numbers instead of %d' % (len(lines), n)); return
                t = accurate_match(lines, struct.unpack('<%d%s' % (need * 8 // nb, 'I' if nb == 32 else 'Q'), data[:need]), nb)
                if t: p.fail('content', t)
                return
            exp = data[:n] if c['mode'] == 'stdout' else float_text(struct.unpack('<%d%s' % (n, 'I' if nb == 32 else 'Q'), data[:need]), nb)
            if r.out != exp: p.fail('content', '%d bytes of output differ from the %d bytes of the standard input' % (len(r.out), len(exp)))
            return
        if 'unlimited' in c and c['mode'] == 'stdout':
            d = dict(c); a = self.dump_sc(d); a['arg'] = [x for x in a['arg'] if not x.startswith('--maxlen')]
            a['stdout_limit'] = c['unlimited']
            r = p.run('dump', a); w, skip = self.reference(dict(c, log2=17), p)
            if abnormal(r): p.fail('abnormal', abnormal(r)); return
            if w is None: return
            t = self.compare(dict(c, log2=17), r.out, w, skip, complete=False)
            if t: p.fail('content', t)
            if len(r.out) != c['unlimited']: p.fail('content', 'an unlimited dump ended after %d bytes' % len(r.out))
            return
        r = p.run('dump', self.dump_sc(c))
        if abnormal(r): p.fail('abnormal', abnormal(r)); return
        if r.code != 0: p.fail('status', 'the dump was complete and the exit status is %d: %s' % (r.code, r.errtext()[-200:]))
        w, skip = self.reference(c, p)
        if w is None: p.fail('reference', 'the battery run with the same seed failed'); return
        t = self.compare(c, r.out, w, skip)
        if t == 'unaligned':   # accurate floats of a 32-bit source: take its outputs from a binary dump (checked by itself)
            b = p.run('binary', self.dump_sc(dict(c, mode='stdout', log2=c['log2'] + 4, outbuf='full')))
            if b.kind != 'exit': p.fail('abnormal', abnormal(b)); return
            ww = struct.unpack('<%dI' % (len(b.out) // 4), b.out)
            if list(ww[skip:skip + len(w)]) != w[:max(0, len(ww) - skip)]: p.fail('content', 'the binary dump differs from the generator output seen by a battery'); return
            lines = r.out.decode('latin-1').split('\n'); last = lines.pop()
            if last or len(lines) != 1 << c['log2']: p.fail('content', '%d numbers instead of %d' % (len(lines), 1 << c['log2'])); return
            t = accurate_match(lines, ww, 32)
        if t: p.fail('content', t)

class C13(DumpCheck):
    id = 'C13'; quick_cases = 12000; quick_s = 60
    technique = 'deterministic simulation: a write of dumped output fails at a random byte or operation (full disk, input/output error, closed receiver with and without signal, short writes before it), once or for good'
    rule = 'case: a dump as in C12 with a failing write; the delivered bytes must be a prefix of the fault-free output, the exit status non-zero (or death by SIGPIPE), and the work after the failure bounded.'
    assumptions = ['work after the failure is counted in outputs of the harness generator; at most 2^17 of them are accepted']
    def case(self, r, tier):
        c = self.dump_case(r, tier != 'quick')
        if r.random() < 0.5: c['gen'] = 'simgen'; c['nb'] = c['outnb'] = r.choice([32, 64]); c['opt'] = ['--param=bits=32'] if c['nb'] == 32 else []; c.pop('filter', None)
        if r.random() < 0.15: c['gen'] = 'stdin%d' % r.choice([32, 64]); c['opt'] = []; c['nb'] = c['outnb'] = int(c['gen'][-2:]); c.pop('filter', None); c['seeding'] = []; c['nt'] = None
        c['unlimited'] = r.random() < 0.3; c['huge'] = r.choice([None, 24, 30, 33, 40, 50, 60])
        k = r.random()
        if k < 0.4: c['limit'] = r.choice([0, 1, 1023, 1024, 1025, 4095, 4096, 4097, r.randrange(0, 1 << c['log2'])])
        else:
            act = r.choice(['enospc', 'eio', 'epipe', 'sigpipe', 'edquot', 'efbig', 'eagain'])
            c['fault'] = 'write_stdout %d %d %s -' % (r.choice([0, 1, 2, 3, r.randrange(0, max(2, (1 << c['log2']) // 4096))]), r.choice([-1, -1, 1, 2]), act)
            if act == 'sigpipe': c['sigign'] = r.choice([0, 1])
        return c
    def play(self, c, p):
        full = p.run('full', self.dump_sc(dict(c, log2=c['log2'] + (2 if c['unlimited'] else 0), chunk=0)), base=True)
        if abnormal(full) or full.code: p.fail('abnormal', 'without faults: %s' % full.status); return
        a = self.dump_sc(c)
        if c['unlimited'] and (c['huge'] or c['mode'] == 'stdout'):
            a['arg'] = [x for x in a['arg'] if not x.startswith('--maxlen')]
            if c['huge']: a['arg'].append('--maxlen_log2=%d' % c['huge'])
        if 'limit' in c: a['stdout_limit'] = c['limit']
        else: a['fault'] = [c['fault']]
        if 'sigign' in c: a['sigpipe_ignored'] = c['sigign']
        r = p.run('dump', a)
        hit = r.fired.get('write_stdout', 0)
        if not hit:
            p.probe('not-reached')
            if abnormal(r): p.fail('abnormal', abnormal(r))
            return
        if r.kind == 'signal' and r.code == 13: p.probe('died-by-sigpipe')
        elif abnormal(r): p.fail('abnormal', 'after a failed write: ' + abnormal(r)); return
        elif r.code == 0: p.fail('status', 'a write failed (%s) and the exit status is 0' % (c.get('fault') or 'disk full at %d' % c['limit']))
        good = r.out[:max(0, r.out_fail_pos - 1)]
        if good != full.out[:len(good)]: p.fail('prefix', 'the bytes delivered before the failure are not a prefix of the output')
        if r.work_after_fail > 1 << 17: p.fail('unbounded', '%d outputs were made after the first failed write' % r.work_after_fail)

# ------------------------------------------------------------------ C20
class C20(IOCheck):
    id = 'C20'; quick_cases = 3000; quick_s = 60
    technique = 'deterministic simulation of a pipe: the bytes one simulated instance writes, in random pieces, are the standard input of another, in other random pieces; its report is compared with the direct test of the generator'
    rule = 'case: generator, seed, battery of real tests or harness tests, word size 32 or 64, filter (of the writer or of the reader), sizes of writes and reads; the rows of both reports must be equal.'
    def case(self, r, tier):
        g = r.choice(list(self.bits)); c = {'gen': g, 'nb': self.bits[g], 'opt': []}
        f = r.random()
        if f < 0.15: c['opt'] = ['--filter=reverse-bits']
        elif f < 0.35 and c['nb'] == 64: c['opt'] = ['--filter=' + r.choice(['interleaved32', 'high32', 'low32'])]; c['nb'] = 32
        if c['opt'] and r.random() < 0.4: c['side'] = 'reader'; c['nb'] = self.bits[g]
        if r.random() < 0.7: c['bat'] = work.bat_file(r, r.choice([1, 2, 3, 5]), ['monobit', 'co', 'co5', 'nw', 'gap', 'lc', 'lch', 'hd', 'mod3', 'us', 'ho', 'hov', 'hol', 'hl', 'sc', 'is', 'mr'])
        else: c['sim'] = ','.join('%d%s' % (r.choice([1, 100, 255, 1000, 5000]), r.choice(['', 's3', 'm1', 's300'])) for _ in range(r.choice([1, 3, 6])))
        c['seed'] = 'p%d' % r.randrange(10**6); c['oc'] = r.choice([0, 1000, 4096, 100]); c['ic'] = r.choice([0, 1, 7, 1000, 1023, 1024, 4095]); c['io'] = r.randrange(1, 1 << 30)
        if c['oc'] == 100 or c['ic'] in (1, 7): c['slow'] = 1
        return c
    def play(self, c, p):
        bat = ['f=bat.txt'] if 'bat' in c else ['s=simbat.so']; files = {'bat.txt': c['bat']} if 'bat' in c else {}
        par = [] if 'bat' in c else ['--batparam=' + c['sim']]
        d = p.run('direct', self.cli(bat + [c['gen'] + '.so', '--seed=' + c['seed']] + c['opt'] + par, files))
        if abnormal(d): p.fail('abnormal', abnormal(d)); return
        rd = read_report(d.outtext())
        if not rd or not rd.complete: p.fail('no-report', 'direct test: exit status %d' % d.code); return
        # how much does the battery take?  ask a run on an endless input of the same word size
        for lg in (16, 20, 23, 25):
            if lg < 20 and 'bat' in c: continue
            s = p.run('dump%d' % lg, self.cli(['stdout', c['gen'] + '.so', '--seed=' + c['seed'], '--maxlen_log2=%d' % lg] + (c['opt'] if c.get('side') != 'reader' else []), out_chunk=0 if lg > 20 else c['oc'], ioseed=c['io']))
            if abnormal(s) or s.code: p.fail('dump', 'dump ended with %s' % s.status); return
            if len(s.out) != 1 << lg: p.fail('dump', 'dump of %d bytes instead of 2^%d' % (len(s.out), lg)); return
            q = p.run('pipe%d' % lg, self.cli(bat + ['stdin%d' % c['nb']] + par + (c['opt'] if c.get('side') == 'reader' else []), files, stdin=s.out, in_chunk=0 if lg > 20 and c['ic'] < 100 else c['ic'], ioseed=c['io'] + 1))
            if abnormal(q): p.fail('abnormal', 'reader: ' + abnormal(q)); return
            rq = read_report(q.outtext())
            if rq and rq.complete: break
            p.probe('dump-too-short')
        else:
            p.probe('gave-up'); return
        if [x for x in rq.rows] != [x for x in rd.rows]:
            k = next((i for i, (x, y) in enumerate(zip(rd.rows, rq.rows)) if x != y), -1)
            p.fail('rows', 'through the pipe row %d %r became %r' % (k, rd.rows[k] if k >= 0 else len(rd.rows), rq.rows[k] if k >= 0 else len(rq.rows))); return
        if q.code != d.code: p.fail('status', 'exit status %d through the pipe, %d directly' % (q.code, d.code))

# ------------------------------------------------------------------ C09
BADARGS = ['--nosuch=1', '--nthreads=0', '--nthreads=x', '--nthreads=256', '--nthreads=-1', '--testid=0', '--testid=x', '--testid=65000', '--testname=nosuch', '--filter=none', '-x', 'x', '--', '--seed=_1_%s' % ('A' * 43 + '='),
           '--seed=_ZZ_%s' % ('A' * 43 + '='), '--seed=_01_short', '--seed=_01_%s' % ('!' * 44), '--nthreads', '--testid=1 --testname=s00', '--maxlen_log2=99']
def runs_of(xs):
    out = []
    for x in xs:
        if out and out[-1][0] == x: out[-1][1] += 1
        else: out.append([x, 1])
    return out

class C09(IOCheck):
    id = 'C09'; quick_cases = 40000; quick_s = 40
    technique = 'deterministic simulation: batteries whose tests return every kind of result, with failing writes of the report, failing thread creation and invalid requests; the exit status is compared with the report and with the results that were returned'
    rule = 'case: harness battery with random result kinds (passed, suspicious, failed, no p-value) or battery file, threads, selected test, brief or full report, and one of: nothing else, a failing write of standard output at a random operation, an invalid argument, battery or generator, an internal self-test.'
    assumptions = ['result kinds of harness tests: p-value inside [0, 1] or not a number']
    FAILM = {1, 2, 5}; NANM = {4, 9}; SUSP = {3, 6}
    def case(self, r, tier):
        k = r.random(); nt = r.choice([1, 1, 2, 3, 5, 12])
        c = {'modes': [r.choice([0, 0, 0, 0, 0, 3, 6, r.choice([0, 1, 2, 4, 5, 9])]) for _ in range(nt)], 'n': r.choice([1, 1, 2, 3, 7]), 'brief': r.random() < 0.3, 'id': r.choice([0, 0, 0, 1, nt]), 'byname': r.random() < 0.3,
             'seed': 'q%d' % r.randrange(10**6), 'bits': r.choice([32, 64]), 'draws': r.choice([1, 5, 50])}
        if r.random() < 0.4: c['modes'] = [r.choice([0, 0, 3, 6]) for _ in range(nt)]
        if r.random() < 0.3: c['modes'] = [r.choice([10, 10, m]) for m in c['modes']]
        pens = r.choice([[50], [0], [0, 25, 50], [0, 25, 100, 200, 300, 400], [1, 2, 3]])
        c['pens'] = [r.choice(pens) for _ in c['modes']]
        if r.random() < 0.02:      # large batteries, most tests with one and the same result
            m = r.choice([1, 1, 2, 3, 4, 0]); q = r.choice([128, 255, 256, 256, 257, 512]); c['modes'] = [m] * q + c['modes'][:1]; c['pens'] = [r.choice(pens)] * len(c['modes']); c['draws'] = 1; c['id'] = r.choice([0, 0, 1, q]); c['n'] = min(c['n'], 3)
            if r.random() < 0.6: c['modes'] = c['modes'][:-1]; c['pens'] = c['pens'][:-1]
        if r.random() < 0.2: c['pfx'] = r.choice(['bspace_', 'a_name_of_fifteen', 'x' * 31, 'x' * 40])
        if r.random() < 0.1: c['src'] = 'stdin'; c['n'] = 1
        if k < 0.45: c['kind'] = 'plain'
        elif k < 0.75:
            c['kind'] = 'write'
            act = r.choice(['enospc', 'eio', 'epipe', 'edquot', 'efbig', 'ebadf'])
            if r.random() < 0.5: c['limit'] = r.choice([0, 1, 100, r.randrange(0, 4000), r.randrange(0, 1500)])
            else: c['fault'] = 'write_stdout %d %d %s -' % (r.choice([0, 0, 1, 2, r.randrange(0, 12)]), r.choice([-1, 1, 1, 2]), act)
            c['outbuf'] = r.choice(['full', 'line', 'none'])
        elif k < 0.9: c['kind'] = 'args'; c['bad'] = r.choice(BADARGS + ['bat:nosuch', 'bat:f=nosuch.txt', 'bat:f=', 'bat:s=', 'bat:s=nosuch.so', 'bat:s=simgen.so', 'gen:nosuch.so', 'gen:simbat.so', 'gen:stdin16', 'opt:failinit', 'opt:failcreate=0', 'opt:failcreate=1', 'opt:bits=16'])
        else: c['kind'] = 'self'; c['st'] = r.choice([0, 1, None])
        return c
    def shrink(self, c):
        for i in range(len(c['modes'])):
            if len(c['modes']) > 1: d = dict(c); d['modes'] = c['modes'][:i] + c['modes'][i + 1:]; d['pens'] = c['pens'][:i] + c['pens'][i + 1:]; d['id'] = 0; yield d
        if c['n'] > 1: d = dict(c); d['n'] = 1; yield d
    def play(self, c, p):
        par = 'bits=%d' % c['bits']; bat = 's=simbat.so'; gen = 'simgen.so'; extra = []; kw = {}
        if c['kind'] == 'self':
            if c['st'] is not None: par += ';selftest=%d' % c['st']
            r = p.run('run', self.cli(['selftest', gen, '--param=' + par]))
            if abnormal(r): p.fail('abnormal', abnormal(r)); return
            if (r.code == 0) != (c['st'] == 1): p.fail('self-test', 'self-test result %s, exit status %d' % (c['st'], r.code))
            return
        bad = c.get('bad') if c['kind'] == 'args' else None
        if bad:
            if bad.startswith('bat:'): bat = bad[4:]
            elif bad.startswith('gen:'): gen = bad[4:]
            elif bad.startswith('opt:'): par = bad[4:]
            else: extra = bad.split(' ')
        nb = c['bits']
        if c.get('src') == 'stdin' and not (bad and bad.startswith(('gen:', 'opt:'))):
            gen = 'stdin%d' % nb; kw = {'stdin_gen': 5, 'stdin_len': 1 << 20}
        a = [bat, gen, '--batparam=' + ('=%s,' % c['pfx'] if c.get('pfx') else '') + ','.join('%dm%dg%d%s' % (c['draws'], m, g, '*%d' % k if k > 1 else '') for (m, g), k in runs_of(list(zip(c['modes'], c['pens'])))), '--seed=' + c['seed']]
        if not gen.startswith('stdin'): a.append('--param=' + par)
        if c['n'] > 1 and not gen.startswith('stdin'): a.append('--nthreads=%d' % c['n'])
        if c['brief']: a.append('--report-brief')
        sel = c['id'] if 0 < c['id'] <= len(c['modes']) else 0
        if sel and not bad: a.append('--testname=%ss%02d' % (c.get('pfx', ''), sel - 1) if c['byname'] else '--testid=%d' % sel)
        a += extra
        sc = self.cli(a, **kw)
        if c['kind'] == 'write':
            sc['outbuf'] = c['outbuf']
            if 'limit' in c: sc['stdout_limit'] = c['limit']
            else: sc['fault'] = [c['fault']]
        if c['n'] > 1: sc.update(cm.sched(rng_of('C09', c.get('i')), None, 5000))
        r = p.run('run', sc)
        if abnormal(r): p.fail('abnormal', abnormal(r)); return
        rep = read_report(r.outtext())
        if bad:
            if bad == 'opt:failcreate=1' and c['n'] == 1: return   # one instance only
            if bad == '--maxlen_log2=99' or True:
                if r.code == 0: p.fail('bad-request', '%s: exit status 0' % bad)
                if rep and rep.complete: p.fail('bad-request', '%s: a verdict was printed' % bad)
                if not r.err.strip(): p.fail('silent', '%s: no message' % bad)
            return
        hit = r.fired.get('write_stdout', 0)
        if hit:
            p.probe('write-failed')
            if r.code == 0: p.fail('write', 'the report could not be written in full and the exit status is 0')
            return
        modes = c['modes'] if not sel else [c['modes'][sel - 1]]
        pens = c['pens'] if not sel else [c['pens'][sel - 1]]
        if 10 in modes:
            # the p-value of such a test follows from the words it was given
            hs = {int(f[1]): int(f[3], 16) for f in (ln.split(' ') for ln in r.aux.decode('latin-1').split('\n')) if f[0] == 'TE' and len(f) == 4}
            eff = []; near = False
            for i, m in enumerate(c['modes']):
                if m == 10 and i in hs:
                    e = -1.0 - 20.0 * ((hs[i] & 0xffff) / 65536.0); m = 1 if e < -10 else 3 if e < -3 else 0
                    if abs(e + 10) < 1e-4 or abs(e + 3) < 1e-4: near = True
                    if (hs[i] & 0x10000) and abs(e + 10) < 1e-4: near = True
                elif m == 10: p.fail('not-run', 'test %d was not run' % i) if not sel or i == sel - 1 else None; m = 0
                eff.append(m)
            if near: p.probe('border'); return
            p.probe('extreme'); c = dict(c, modes=eff); modes = eff if not sel else [eff[sel - 1]]
        nf = sum(m in self.FAILM for m in modes); nn = sum(m in self.NANM for m in modes); ns = sum(m in self.SUSP for m in modes)
        want = 'failed' if nf else 'error' if nn else 'passed'
        if want == 'passed' and r.code != 0: p.fail('status', 'every test passed and the exit status is %d' % r.code)
        if want == 'failed' and r.code != 1: p.fail('status', '%d tests failed and the exit status is %d' % (nf, r.code))
        if want == 'error' and r.code == 0: p.fail('status', '%d tests have no p-value and the exit status is 0' % nn)
        if not rep or not rep.complete: p.fail('no-report', 'no complete report'); return
        if rep.failed != nf or rep.susp != ns or rep.passed != len(modes) - nf - ns - nn: p.fail('totals', 'passed/suspicious/failed %r, the tests gave %r' % ((rep.passed, rep.susp, rep.failed), (len(modes) - nf - ns - nn, ns, nf)))
        exp = [(i + 1, 'FAIL' if m in self.FAILM else '???' if m in self.NANM else 'SUSPICIOUS' if m in self.SUSP else 'Ok') for i, m in enumerate(c['modes']) if not sel or i == sel - 1]
        if c['brief']: exp = [e for e in exp if e[1] != 'Ok']
        grade = max(0.0, 4.0 - sum(g for m, g in zip(modes, pens) if m in self.FAILM) / 100.0)
        q = re.search(r'^Quality \(0-4\): (\S+) \((.*)\)$', r.outtext(), re.M)
        if q and abs(float(q.group(1)) - grade) > 0.006: p.fail('grade', 'quality %s in the report, the failed tests make it %.2f' % (q.group(1), grade))
        if q: p.probe('grade')
        if [(x[0], x[4]) for x in rep.rows] != exp: p.fail('rows', 'verdicts in the report %r, the tests gave %r' % ([(x[0], x[4]) for x in rep.rows][:20], exp[:20]))

# ------------------------------------------------------------------ C28
M64 = (1 << 64) - 1
def splitmix(s):
    s = (s + 0x9e3779b97f4a7c15) & M64; z = s
    z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & M64; z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & M64
    return z ^ (z >> 31)
class C28(IOCheck):
    id = 'C28'; quick_cases = 6000; quick_s = 40; gens = []
    technique = 'deterministic simulation with fault injection: test_syscrypto runs on a simulated random device with a known stream; failing opens, failing, short, interrupted and ended reads at chosen places; every word given to a battery is looked up in what the device delivered'
    rule = 'case: battery name, numbers of words drawn from one or several generator states (around the size of the buffer), states that live at the same time, contents of fresh memory, device faults from a chosen read on for a chosen time, status returned by the battery; sometimes the real express battery.'
    assumptions = ['after a read that failed the program may try again or end with an error']
    def prepare(self):
        build.host(self.variant); self.P = {}; self.so = {}
    known_cases = [{'bat': 'brief', 'ret': 0, 'base': 77, 'dirty': 0xA5, 'plan': [[9000]]}, {'bat': 'brief', 'ret': 0, 'base': 78, 'dirty': 0xA5, 'plan': [[9000]], 'fault': 'read_urandom 1 -1 eio -'},
                   {'bat': 'full', 'ret': 1, 'base': 79, 'dirty': 0, 'plan': [[100]]}, {'bat': 'nosuch', 'ret': 0, 'base': 80, 'dirty': 0, 'plan': [[1]]}]
    def case(self, r, tier):
        c = {'bat': r.choice(['speed', 'express', 'brief', 'default', 'full']), 'ret': r.choice([0, 0, 0, 1, 2]), 'base': r.randrange(1, 1 << 60), 'dirty': r.choice([0, 0xA5, 255])}
        n = lambda: r.choice([0, 1, 2, 100, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 12289, 20000, r.randrange(1, 9000)])
        c['plan'] = [[n()] if r.random() < 0.8 else [n(), n()] for _ in range(r.choice([1, 1, 2, 3]))]
        if r.random() < 0.3:
            for _ in range(r.choice([1, 2, 5])): c['plan'].insert(r.randrange(len(c['plan']) + 1), ['F%d' % r.choice([0, 1, 7, 8, 32, 128, 255, 256, 257, 4096, 8192, 8193, 32768, 65536, r.randrange(1, 65536)])])
        if r.random() < 0.02: c['bat'] = r.choice(['nosuch', '', 'Express', 'express2', 'expres'])
        if r.random() < 0.006: c['bat'] = 'express'; c['plan'] = None
        if r.random() < 0.5:
            cls = r.choice(['read_urandom'] * 4 + ['open'])
            act = r.choice(['eio', 'eintr', 'short', 'eof']) if cls == 'read_urandom' else r.choice(['emfile', 'enoent', 'eacces'])
            arg = r.choice([1, 4, 7, 8, 100, 256, 4096, 8192, 16384, 32760, 32767]) if act == 'short' else '-'
            c['fault'] = '%s %d %d %s %s' % (cls, r.choice([0, 0, 1, 1, 2, 3, 4, 5]) if c['plan'] else r.randrange(0, 900), r.choice([-1, -1, 1, 1, 2]), act, arg)
        return c
    def shrink(self, c):
        if c['plan']:
            for i in range(len(c['plan'])):
                if len(c['plan']) > 1: d = dict(c); d['plan'] = c['plan'][:i] + c['plan'][i + 1:]; yield d
                if len(c['plan'][i]) > 1: d = dict(c); d['plan'] = c['plan'][:i] + [c['plan'][i][:1]] + c['plan'][i + 1:]; yield d
        if c.get('ret'): d = dict(c); d['ret'] = 0; yield d
    def play(self, c, p):
        sc = {'prog': 'test_syscrypto', 'arg': ['test_syscrypto', c['bat']], 'urandom_stream': c['base'], 'dirty': c['dirty'], 'sysret': c['ret']}
        if c['plan'] is not None: sc['sysplan'] = ','.join('+'.join(map(str, x)) for x in c['plan'])
        if 'fault' in c: sc['fault'] = [c['fault']]
        r = p.run('run', sc)
        if abnormal(r): p.fail('abnormal', abnormal(r)); return
        hit = sum(r.fired.get(k, 0) for k in ('read_urandom', 'open'))
        aux = r.aux.decode('latin-1').split('\n'); good = c['bat'] in ('speed', 'express', 'brief', 'default', 'full')
        if not good:
            if r.code == 0: p.fail('unknown', 'there is no battery %r, and the exit status is 0' % c['bat'])
            return
        if c['plan'] is None:
            rep = read_report(r.outtext())
            if r.code not in (0, 1) or not rep or not rep.complete:
                if not hit: p.fail('no-report', 'the express battery on a working device ended with %s' % r.status)
                elif r.code == 0: p.fail('status', 'no complete report and exit status 0')
                elif not r.errtext().strip(): p.fail('silent', 'no message')
                else: p.probe('refused')
            else:
                p.probe('real-battery')
                bad = any(x[4] in ('FAIL', 'FAILED') or 'FAIL' in str(x) for x in rep.rows)
                if r.code != (1 if bad else 0): p.fail('verdict-lost' if r.code == 0 else 'battery-status', 'exit status %d, the report has %s failed tests' % (r.code, 'some' if bad else 'no'))
                if not bad and hit and '-1' == c['fault'].split(' ')[2] and 'short' not in c['fault'] and 'eintr' not in c['fault'] and int(c['fault'].split(' ')[1]) < 100: p.fail('stale', 'a full report though the device failed for good at read %s' % c['fault'].split(' ')[1])
            return
        #  the words: where they are in the stream of the device
        total = sum(int(x[4:]) for x in aux if x.startswith('DEV '))
        nw = (total + 7) // 8 + 1; stream = b''.join(splitmix((c['base'] + i) & M64).to_bytes(8, 'little') for i in range(nw))[:total]
        where = None; pos = {}; num = {}; drawn = 0; seen = set(); fpos = 0; fi = None; said = set()
        def known(sig, msg):
            if sig not in said: said.add(sig); p.fail(sig, msg)
        def judge_fill():
            nonlocal fpos
            ok, n, data = fi
            if ok == 99: p.fail('fill-outside', 'bytes outside of the %d requested ones were changed' % n); return
            if not ok:
                if not hit: p.fail('fill-refused', 'the device works, and a request for %d bytes failed' % n)
                return
            if len(data) != n: p.fail('internal-fill', 'recorded %d bytes instead of %d' % (len(data), n)); return
            k = stream.find(data, fpos)
            if k < 0: p.fail('fill', 'a request for %d bytes was reported as fulfilled, and gave other bytes than the device delivered' % n); return
            fpos = k + n; p.probe('filled')
        for ln in aux + ['FI 0 0']:
            if ln.startswith('FI '):
                if fi: judge_fill()
                if set(x for x, _ in p.fails) - said: return
                _, ok, n = ln.split(' '); fi = (int(ok), int(n), b'') if hit or int(ok) or int(n) else None
            elif ln.startswith('FD '): fi = fi[:2] + (fi[2] + bytes.fromhex(ln[3:]),)
            if not ln.startswith('DW '): continue
            _, inst, t = ln.split(' ')
            for i in range(0, len(t), 16):
                w = int(t[i:i + 16], 16); n = num[inst] = num.get(inst, -1) + 1; drawn += 1
                if where is None:
                    where = {}
                    for k in range(0, total - 7, 8): where.setdefault(int.from_bytes(stream[k:k + 8], 'little'), k)
                k = where.get(w)
                if k is None: k = stream.find(w.to_bytes(8, 'little'))
                if k >= 0 and k not in seen and k > pos.get(inst, -1): seen.add(k); pos[inst] = k; continue
                #  known: the first buffer of a state is never filled; a failure of the device is ignored and the old buffer is given again
                if n < 4096: known('unfilled', 'word %d of generator state %s is %016x: the first 4096 words of a state come from memory that was never filled' % (n, inst, w)); continue
                if hit: known('stale', 'the device failed, and word %d of generator state %s is %016x from the old contents of the buffer' % (n, inst, w)); continue
                if k < 0: p.fail('not-from-device', 'word %d of generator state %s is %016x, which the device never delivered' % (n, inst, w)); return
                if k in seen: p.fail('again', 'word %d of generator state %s was given before: %016x' % (n, inst, w)); return
                p.fail('order', 'generator state %s gives words out of the order of the device' % inst); return
        ended = 'SYSEND' in aux
        want = sum(int(y) for x in c['plan'] for y in x if str(y)[0] != 'F')
        if ended:
            p.probe('ended')
            if drawn != want: p.fail('internal-count', 'recorded %d words instead of %d' % (drawn, want))
            if r.code != c['ret']: p.fail('verdict-lost' if r.code == 0 else 'status', 'the battery returned %d, the exit status is %d' % (c['ret'], r.code))
        else:
            p.probe('stopped')
            if not hit: p.fail('stopped', 'the device works, and the run ended with %s' % r.status)
            elif r.code == 0: p.fail('status', 'the device failed, and the exit status is 0')
            elif not r.errtext().strip(): p.fail('silent', 'the device failed, and there is no message')
