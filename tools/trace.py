"""python3-vt tools/trace.py C12 SCENARIO [tier]: full traces of what the symbolic run could not do."""
import sys
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
from sx import runner
mod = runner.load(sys.argv[1])
tier = sys.argv[3] if len(sys.argv) > 3 else 'quick'
s = [x for x in mod.SCENARIOS(tier) if x.name == sys.argv[2]][0]
r = runner.run_scenario(mod, s, tier, 1)
for v in r['violations']:
    print(v['label'], v['inputs'])
    print(v.get('trace'))
print(r['problems'], r['incomplete'], r.get('paths'), r.get('wall'))
