import sys, time
sys.path.insert(0, '/verif')
from vp import api, sym
prop = sys.argv[1]
only = sys.argv[2] if len(sys.argv) > 2 else None
root = sys.argv[3] if len(sys.argv) > 3 else '/repo'
api.load_cases('/verif', prop)
for c in api.CASES:
    if only and only != '-' and only not in c.name: continue
    print('==', c.id)
    t = time.time()
    r = sym.CaseRun(c, root=root, budget=60, verbose=True).run()
    from collections import Counter
    print('  ', Counter(x['status'] for x in r), f'{time.time()-t:.1f}s')
