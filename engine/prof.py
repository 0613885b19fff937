import sys, cProfile, pstats, json, time
import verify
pid, name, secs = sys.argv[1], sys.argv[2], float(sys.argv[3])
e = verify.load(verify.PROPS[pid]['module'])
assert e is None, e
verify.setup_modular()
i = [k for k, u in enumerate(verify.UNITS) if u['name'] == name][0]
pr = cProfile.Profile()
pr.enable()
r = verify.work((i, [[]], secs))
pr.disable()
print(r[2]['paths'], r[2]['solver_time'], r[2]['queries'], len(r[1]))
pstats.Stats(pr).sort_stats(sys.argv[4] if len(sys.argv)>4 else 'tottime').print_stats(40)
