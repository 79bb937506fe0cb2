#!/usr/bin/env python3
"""check.py <property id>            run the check (VERIF_TIER, VERIF_SEED)
   check.py --replay <file>          replay a recorded violation: exit 1 when it reproduces exactly
   check.py --setup                  build hosts and libraries"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from simlib import build, engine
from simlib.checks import CHECKS

def main():
    a = sys.argv[1:]
    if a[:1] == ['--replay']:
        return engine.replay(a[1], CHECKS)
    if a[:1] == ['--setup']:
        for v in 'TPA': print(v, build.host(v))
        for c in CHECKS.values(): c().prepare()
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in a: tier = 'thorough'; a.remove('--thorough')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    rc = 0
    for pid in a or sorted(CHECKS):
        try:
            r = engine.run_check(CHECKS[pid](), tier, seed)
        except build.BuildError as e:
            print('BUILD ERROR: %s' % e); r = 3
        rc = max(rc, r)
    return rc

if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
