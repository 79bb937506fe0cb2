#!/usr/bin/env python3
"""survey.py <id> [n] [seed]: play n cases, print every distinct signature with one message (no gate, no replay)."""
import os, sys, collections, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.dont_write_bytecode = True
from simlib import engine
from simlib.checks import CHECKS
import itertools, re, json, time
pid = sys.argv[1]; n = int(sys.argv[2]) if len(sys.argv) > 2 else 500; seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
c = CHECKS[pid](); c.prepare(); t = time.time()
cnt = mp.Value('i', 0); sig = collections.Counter(); ex = {}; probes = collections.Counter(); kinds = collections.Counter(); slow = []
with mp.get_context('fork').Pool(8, engine._init, (c, cnt)) as pool:
    for idx, case, st, x, agg in pool.imap_unordered(engine._one, enumerate(itertools.islice(c.cases('quick', seed), n))):
        if st == 'error': print('ERROR', x[-600:], json.dumps(case)[:400]); continue
        probes.update(agg[7]); kinds.update(agg[6]); slow.append((agg[9], json.dumps(case)[:200]))
        for s, m in x:
            k = s + ' | ' + re.sub(r'0x[0-9a-f]+|\d+', '#', m)[:160]
            sig[k] += 1; ex.setdefault(k, (m, case))
for k, v in sig.most_common(40): print(v, k, '\n      ', ex[k][0][:400], '\n      ', json.dumps(ex[k][1])[:500])
print(dict(probes)); print(dict(kinds)); print('wall %.1f' % (time.time() - t)); slow.sort(); print(slow[-3:])
