"""Search engine: generates cases from a seed, plays them on simulator hosts in parallel, gates every
violation (same seed twice, fresh process), minimises it, writes the replay file and the evidence."""
import os, sys, json, time, random, hashlib, traceback, subprocess, collections, multiprocessing as mp, re
from . import build
from .runner import Host, Host32, HostDied, encode

HERE = build.HERE
WORKERS = int(os.environ.get('SIM_WORKERS', '0')) or min(8, os.cpu_count() or 8)

class HarnessError(Exception):
    pass

def rng_of(*a):
    return random.Random(int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:8], 'big'))

class Hosts:
    def __init__(self, cpu=None):
        self.h = {}; self.cpu = cpu; self.cache = collections.OrderedDict()
    def get(self, v):
        if v not in self.h: self.h[v] = Host32(self.cpu) if v == 'X' else Host(v, self.cpu)
        return self.h[v]
    def run(self, v, sc, wall):
        try:
            return self.get(v).run(sc, wall)
        except (HostDied, BrokenPipeError) as e:
            self.h.pop(v, None)
            raise HarnessError('host died: %s' % e)
    def close(self):
        for h in self.h.values(): h.close()
        self.h = {}

class Play:
    """One execution of a case. Runs are named so that a replay can override their schedule or faults."""
    def __init__(self, hosts, check, case, overrides=None, use_cache=True):
        self.hosts = hosts; self.check = check; self.case = case; self.over = overrides or {}; self.use_cache = use_cache
        self.fails = []; self.log = []; self.digests = []; self.stats = collections.Counter(); self.fired = collections.Counter()
        self.ops = collections.Counter(); self.seen = set(); self.ilv = set(); self.vns = 0; self.kinds = collections.Counter(); self.probes = collections.Counter()
    def rng(self, *a):
        return rng_of(json.dumps(self.case, sort_keys=True), *a)
    def fail(self, sig, msg):
        if sig == 'abnormal':   # which way of ending: minimisation must not drift to another one
            m = re.search(r'signal|deadlock|budget|asan|timeout|ub\b', msg); sig += '-' + (m.group(0) if m else 'exit')
        self.fails.append((sig, msg))
    def probe(self, name, n=1):
        self.probes[name] += n
    def run(self, name, sc, variant=None, wall=None, base=False):
        variant = variant or self.check.variant
        sc = dict(sc)
        o = self.over.get(name)
        if o: sc.update(o)
        key = None
        if base and not o and self.use_cache:
            key = (variant, hashlib.sha256(encode(sc)).digest())
            r = self.hosts.cache.get(key)
            if r is not None:
                self.digests.append((name, r.digest())); self.log.append((name, variant, sc, r)); return r
        r = self.hosts.run(variant, sc, wall or self.check.wall)
        if r.kind == 'internal':
            raise HarnessError('simulator: %s (case %s run %s)' % (r.note, json.dumps(self.case)[:400], name))
        self.stats['runs'] += 1; self.stats['steps'] += r.steps; self.stats['switches'] += r.switches; self.vns += r.vns
        self.kinds[r.status] += 1
        for k, v in r.fired.items(): self.fired[k] += v
        for k, v in r.cnt.items(): self.ops[k] += v
        if r.nthreads: self.ilv.add(r.ilv)
        if r.switches or r.fired: self.seen.add(r.hash)
        if key is not None:
            self.hosts.cache[key] = r
            if len(self.hosts.cache) > 60: self.hosts.cache.popitem(last=False)
        self.digests.append((name, r.digest())); self.log.append((name, variant, sc, r))
        return r
    def digest(self):
        return hashlib.sha256(repr(self.digests).encode()).hexdigest()[:24]

class Check:
    id = None; variant = 'T'; wall = 60; level = 'exploration'; technique = ''; level_note = ''
    quick_cases = 400; quick_s = 45; thorough_s = 600
    rule = ''; assumptions = []; real = ''; stubs = ''
    known_cases = []           # always played, first
    def prepare(self): pass    # build plugins etc.; runs in the parent before the workers fork
    def cases(self, tier, seed): raise NotImplementedError
    def play(self, case, p): raise NotImplementedError
    def shrink(self, case): return []

# ------------------------------------------------------------------ workers
_W = {}
def _init(check, counter):
    with counter.get_lock():
        n = counter.value; counter.value += 1
    _W['check'] = check; _W['hosts'] = Hosts(n % (os.cpu_count() or 1))
def _one(arg):
    idx, case = arg
    p = Play(_W['hosts'], _W['check'], case)
    t = time.time()
    try:
        _W['check'].play(case, p)
    except HarnessError as e:
        return idx, case, 'error', str(e), None
    except Exception:
        return idx, case, 'error', traceback.format_exc(), None
    sample = None
    if idx < 3 and p.log:
        sample = {'case': case, 'runs': [{'name': n, 'status': r.status, 'steps': r.steps, 'switches': r.switches, 'fired': r.fired,
                  'event_hash': r.hash} for n, v, sc, r in p.log][:6]}
    return idx, case, 'ok', p.fails, (p.stats, p.fired, p.ops, p.seen, p.ilv, p.vns, p.kinds, p.probes, sample, time.time() - t)

def play_fresh(check, case, overrides=None):
    h = Hosts(None)
    try:
        p = Play(h, check, case, overrides, use_cache=False)
        check.play(case, p)
        return p
    finally:
        h.close()

def has_sig(p, sig):
    return any(s == sig for s, _ in p.fails)

def ddmin(items, test, deadline):
    n = 2
    if items and test([]): return []
    while len(items) >= 2 and time.time() < deadline:
        k = max(1, len(items) // n); red = False
        for i in range(0, len(items), k):
            cand = items[:i] + items[i + k:]
            if time.time() > deadline: break
            if cand and test(cand):
                items = cand; n = max(n - 1, 2); red = True; break
        if not red:
            if k == 1: break
            n = min(len(items), n * 2)
    return items

def minimise(check, case, sig, seconds=45):
    """Smaller case, then explicit schedule, then fewest switches and faults, keeping the signature."""
    end = time.time() + seconds
    hosts = Hosts(None)
    def attempt(c, ov):
        p = Play(hosts, check, c, ov, use_cache=False)
        try: check.play(c, p)
        except Exception: return None
        return p if has_sig(p, sig) else None
    try:
        changed = True
        while changed and time.time() < end:
            changed = False
            for c in check.shrink(case):
                if time.time() > end: break
                if attempt(c, {}): case = c; changed = True; break
        ov = {}
        p = attempt(case, {})
        if p is None: return case, {}
        for name, variant, sc, r in p.log:
            if sc.get('pol', 'rr') in ('rand', 'pct') and r.nthreads and time.time() < end and r.sw:
                cand = dict(ov); cand[name] = {'pol': 'expl', 'switches': ' '.join('%d %d' % x for x in r.sw), 'acc': 0}
                if sc.get('acc'): cand[name]['acc'] = sc['acc']
                if attempt(case, cand): ov = cand
        for name in list(ov):
            q = ov[name]['switches'].split(); items = [(int(q[i]), int(q[i + 1])) for i in range(0, len(q), 2)]
            def test(it, name=name):
                c = dict(ov); c[name] = dict(ov[name]); c[name]['switches'] = ' '.join('%d %d' % x for x in it); return bool(attempt(case, c))
            best = ddmin(items, test, end)
            ov[name] = dict(ov[name]); ov[name]['switches'] = ' '.join('%d %d' % x for x in best)
        p = attempt(case, ov)
        if p:
            for name, variant, sc, r in p.log:
                for k in ('fault', 'clk', 'sysconf'):
                    v = sc.get(k)
                    if isinstance(v, list) and len(v) > 0 and time.time() < end:
                        def test(it, name=name, k=k):
                            c = dict(ov); c[name] = dict(ov.get(name, {})); c[name][k] = it; return bool(attempt(case, c))
                        best = ddmin(list(v), test, end)
                        if len(best) < len(v):
                            ov[name] = dict(ov.get(name, {})); ov[name][k] = best
        return case, ov
    finally:
        hosts.close()

def load_known(pid):
    f = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(f): return []
    return [e for e in json.load(open(f)).get('findings', []) if e['property'] == pid]

def _jsonable(o):
    if isinstance(o, bytes): return o.decode('latin-1')
    raise TypeError

def report(check, case, sig, msg):
    """Gate, minimise, write the replay file. Returns its path or raises HarnessError."""
    a = play_fresh(check, case); b = play_fresh(check, case)
    if not has_sig(a, sig) and a.fails and a.digest() == b.digest():
        sig, msg = a.fails[0]              # damaged memory: the violation shows itself in another way in a fresh process
    if not has_sig(a, sig) or a.digest() != b.digest():
        raise HarnessError('violation %s did not reproduce (case %s): %s / %s: %s' % (sig, json.dumps(case)[:500], a.fails[:2], b.fails[:2], msg))
    mcase, ov = minimise(check, case, sig)
    m = play_fresh(check, mcase, ov)
    if not has_sig(m, sig):
        mcase, ov, m = case, {}, a
    text = [t for s, t in m.fails if s == sig][0]
    d = os.path.join(HERE, 'replays'); os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (check.id, hashlib.sha256((sig + json.dumps(mcase, sort_keys=True)).encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
        json.dump({'property': check.id, 'signature': sig, 'message': text, 'case': mcase, 'overrides': ov, 'digest': m.digest(),
                   'original_case': case,
                   'runs': [{'name': n, 'variant': v, 'status': r.status, 'note': r.note, 'scenario': {k: (x if not isinstance(x, (bytes, str)) or len(x) < 2000 else x[:2000]) for k, x in sc.items()},
                             'faults_fired': r.fired, 'schedule': [list(x) for x in r.sw[:400]], 'stdout_tail': r.outtext()[-1500:], 'stderr_tail': r.errtext()[-800:]} for n, v, sc, r in m.log]},
                  f, indent=1, default=_jsonable)
    q = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), '--replay', path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if q.returncode != 1:
        raise HarnessError('replay of %s in a fresh process did not reproduce: %s' % (path, q.stdout.decode()[-600:]))
    return path, text

def replay(path, checks):
    d = json.load(open(path)); c = checks[d['property']](); c.prepare()
    p = play_fresh(c, d['case'], d['overrides'])
    for s, t in p.fails: print('%s: %s' % (s, t))
    same = p.digest() == d['digest']
    print('digest %s %s' % (p.digest(), 'identical' if same else 'DIFFERENT from the recorded ' + d['digest']))
    if has_sig(p, d['signature']) and same:
        print('VIOLATION property=%s replay=%s' % (d['property'], path)); return 1
    return 0 if not p.fails else 4

def run_check(check, tier, seed):
    t0 = time.time()
    check.tier = tier
    check.prepare()
    build_s = time.time() - t0
    limit = check.quick_s if tier == 'quick' else check.thorough_s
    ncases = check.quick_cases if tier == 'quick' else 10**9
    known = load_known(check.id)
    stats = collections.Counter(); fired = collections.Counter(); ops = collections.Counter(); kinds = collections.Counter(); probes = collections.Counter()
    seen = set(); ilv = set(); vns = 0; samples = []; played = 0; found = {}; knownhit = {}; errors = []
    counter = mp.Value('i', 0)
    start = time.time()
    def feed():
        i = 0
        for c in check.known_cases:
            yield i, c; i += 1
        for c in check.cases(tier, seed):
            if i >= ncases + len(check.known_cases) or time.time() - start > limit or (found and tier != 'survey') or errors: return
            yield i, c; i += 1
    ctx = mp.get_context('fork')
    with ctx.Pool(WORKERS, _init, (check, counter)) as pool:
        sem = 0
        pend = collections.deque(); it = feed(); done = False; ready = []
        # bounded look-ahead, results taken in order
        while True:
            while not done and len(pend) < WORKERS * 24:
                try: pend.append(pool.apply_async(_one, (next(it),)))
                except StopIteration: done = True
            if not pend: break
            r = pend.popleft().get()
            idx, case, st, x, agg = r
            if st == 'error': errors.append((case, x)); continue
            played += 1
            s_, f_, o_, seen_, ilv_, v_, k_, pr_, sample, dt = agg
            stats.update(s_); fired.update(f_); ops.update(o_); seen |= seen_; ilv |= ilv_; vns += v_; kinds.update(k_); probes.update(pr_)
            if sample: samples.append(sample)
            for sig, msg in x:
                k = next((e for e in known if re.search(e['match'], sig + ' ' + msg)), None)
                if k: knownhit[k['text']] = k
                elif sig not in found: found[sig] = (case, msg)
        pool.close(); pool.join()
    wall = time.time() - t0; search = time.time() - start
    ev = {'property': check.id, 'tier': tier, 'seed': seed, 'level': check.level,
          'coverage': {'evaluations': stats['runs'], 'distinct_nontrivial': len(seen),
              'rule': check.rule + ' Non-trivial: a run in which a thread switch happened or a fault fired; distinct: by the hash of its event trace.',
              'samples': samples or [{'note': 'no case was played'}],
              'cases': played, 'runs_per_hour': int(stats['runs'] / max(search, 1e-3) * 3600), 'seeds_per_hour': int(played / max(search, 1e-3) * 3600),
              'simulated_seconds': round(vns / 1e9, 3), 'steps': stats['steps'], 'thread_switches': stats['switches'],
              'distinct_interleavings': len(ilv), 'faults_fired': dict(fired), 'operations_by_class': dict(ops), 'outcomes': dict(kinds), 'probes': dict(probes),
              'components_real': check.real or 'all of src/*.c and apps/smokerand.c, compiled from the working tree',
              'components_stubbed': check.stubs or 'libc I/O, memory failure decisions, clocks, pthread scheduling, dlopen failure decisions (simrt.c)'},
          'assumptions': check.assumptions, 'wall_s': round(wall, 2), 'violations': len(found)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    def write_ev():
        with open(os.path.join(HERE, 'evidence', check.id + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=_jsonable)
    write_ev()
    for t in sorted(knownhit): print('KNOWN-FINDING: property=%s %s' % (check.id, t))
    if errors and not found:
        print('HARNESS ERROR in %s: %s' % (check.id, errors[0][1])); print('case: %s' % json.dumps(errors[0][0])[:1500]); return 3
    rc = 0; harness = []
    for sig in sorted(found)[:3]:
        case, msg = found[sig]
        try:
            path, text = report(check, case, sig, msg)
            print('%s: %s' % (sig, text)); print('VIOLATION property=%s replay=%s' % (check.id, path)); rc = 1
        except HarnessError as e:
            harness.append(str(e))
    for h in harness: print('HARNESS ERROR: ' + h)
    if harness and not rc: rc = 3
    if len(found) > 3 and rc == 1: print('other signatures: %s' % sorted(found)[3:])
    print('%s %s: %d cases, %d runs, %d distinct non-trivial, %d interleavings, %.1f simulated s, build %.1f s, wall %.1f s' % (check.id, tier, played, stats['runs'], len(seen), len(ilv), vns / 1e9, build_s, wall))
    return rc
