import sys, time
sys.path.insert(0, '/verif')
root = sys.argv[3] if len(sys.argv) > 3 else '/repo'
from rt import conc
conc.install(root)
from vp import api
api.load_cases('/verif', sys.argv[1])
only = sys.argv[2] if len(sys.argv) > 2 else '-'
n = int(sys.argv[4]) if len(sys.argv) > 4 else 3
for c in api.CASES:
    if only != '-' and only not in c.name: continue
    print('==', c.id)
    t = time.time()
    for r in conc.run_case(c, range(n)):
        print('  ', r['cfg'], r['name'], r['status'], r['detail'][:600], r['time'])
    print('  ', round(time.time() - t, 1), 's')
