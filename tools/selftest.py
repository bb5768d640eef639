#!/usr/bin/env python3
"""Compares the encoded operations with CPython (see props/selftest.py).  Exit 1 on any difference."""
import os
import sys
from concurrent.futures import ProcessPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sx import runner

runner.SAMPLES_PER_SCENARIO['quick'] = 150


def one(name):
    mod = runner._MOD[0]
    scn = {s.name: s for s in mod.SCENARIOS('quick')}[name]
    res = runner.run_scenario(mod, scn, 'quick', 1)
    paths, unsupported = res['paths'], [p for p in res['problems']]
    runner.judge('selftest', 'quick', res)
    return name, paths, res.get('validated', 0), unsupported, [p for p in res['problems'] if p not in unsupported], res['violations'], res['incomplete']


def main():
    verbose = '-v' in sys.argv
    runner._MOD[0] = mod = runner.load('selftest')
    names = [s.name for s in mod.SCENARIOS('quick')]
    bad = total = 0
    with ProcessPoolExecutor(8) as ex:
        for name, paths, validated, unsupported, differences, violations, incomplete in ex.map(one, names):
            total += validated
            failed = differences or violations
            if failed:
                bad += 1
            if failed or verbose:
                print('%-28s paths %-6d compared %-4d %s %s %s %s' % (name, paths, validated, [u[:160] for u in unsupported], [d[:400] for d in differences], [str(v)[:600] for v in violations], incomplete))
    print('selftest: %d operations groups, %d executions compared with CPython, %d groups differ' % (len(names), total, bad))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
