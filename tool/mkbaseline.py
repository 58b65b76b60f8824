"""Records the names of the functions the contracts were written for (contracts/baseline.json).  Run on the unchanged tree."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import gen
C = os.path.join(os.path.dirname(HERE), 'contracts')
g = gen.Gen('/repo', gen.load_overlays(C))
mods = [m for m in gen.MODULES if m not in ('macros', 'lib') and (os.path.exists(os.path.join(C, m + '.ov')) or m == 'marker')]
g.run(mods, os.path.join(C, 'shim.rs'))
json.dump(sorted(list(k) for k in g.fns), open(os.path.join(C, 'baseline.json'), 'w'), indent=0)
print(len(g.fns), 'functions;', 'without contract:', len([k for k, i in g.fns.items() if not i['contract'] and ' as ' not in k[1]]), g.lost)
