"""python3-vt tools/profile.py C09 PARTICIPLE-1 [tier] : where the time of one scenario goes."""
import sys, time
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
from sx import runner
mod = runner.load(sys.argv[1])
tier = sys.argv[3] if len(sys.argv) > 3 else 'quick'
s = [x for x in mod.SCENARIOS(tier) if x.name == sys.argv[2]][0]
t = time.time()
import cProfile, pstats
pr = cProfile.Profile()
pr.enable()
r = runner.run_scenario(mod, s, tier, 1)
pr.disable()
pstats.Stats(pr).sort_stats('tottime').print_stats(30)
print({k: v for k, v in r.items() if k not in ('samples', 'covered', 'functions')}, time.time() - t)
