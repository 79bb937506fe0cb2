#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H); sys.dont_write_bytecode = True
from simlib.checks import CHECKS
NA = {
 'N01': 'Calibration is a statement about the distribution of p-values over random inputs: it has no schedule, clock, I/O, fault or multi-party behaviour for a simulator to vary; it needs statistics over very many runs or proofs of the distributions.',
 'N02': 'Agreement of each generator with its published algorithm is a pure function of the seed; no schedule, time, I/O or fault enters, so simulation would be plain differential testing under another name.',
 'N03': 'The accuracy of pure numerical functions over their domain has no nondeterminism to control; interval analysis or exhaustive numerical comparison is the right tool.',
 'N04': 'Each filter is a pure function of one output word; a proof or exhaustive symbolic check decides it, simulation adds nothing (that filters keep stream order and instances apart under threads is part of C03 and C24).',
 'N05': 'Encoding and decoding of keys is a pure function of its input; no schedule, clock, I/O or fault takes part (that a printed seed reproduces a run is C07).',
 'N06': 'The thresholds are a pure function of one floating-point number; no nondeterminism takes part (that exit status and report agree on the categories is C09).',
}
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
            'evidence_file': 'evidence/%s.json' % i, 'technique': c.technique, 'level': c.level, 'level_note': c.level_note or (
            'Seeded search: the property held on every simulated run listed in the evidence; no claim beyond them. Trusted: the simulator runtime (sim/), its models of libc, pthread and clocks, and the oracle of this check. ' + '; '.join(c.assumptions))})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'No check yet: planned, see DESIGN.md.')})
m['notes'] = 'No hooks in /repo: the seams are made at build time. The sources are compiled unmodified, libc/pthread/clock/dlopen references of the object files are redirected with objcopy to the simulator, and memory accesses are instrumented by the compiler (-fsanitize=thread, with the callbacks implemented by the simulator).'
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1); print(len(m['checks']), 'checks', len(m['not_applicable']), 'n/a')
