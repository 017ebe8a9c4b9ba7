"""Symbolic worker: proves the obligations of one case.  usage: worker.py PROP CASE-INDEX ROOT BUDGET OUT"""
import json
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)


def main():
    prop, k, root, budget, out = sys.argv[1], int(sys.argv[2]), sys.argv[3], float(sys.argv[4]), sys.argv[5]
    from vp import api, sym, fakejax as fj, prover as P
    base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    api.load_cases(base, prop)
    c = api.CASES[k]
    t = time.time()
    run = sym.CaseRun(c, root=root, budget=budget)
    try:
        res = run.run()
    except Exception as e:
        import traceback
        res = [dict(name='case', status='error', detail=traceback.format_exc()[-1500:], backend='', time=0)]
    names = [o[1] for o in run.S.obls] if hasattr(run, 'S') else []
    json.dump(dict(case=c.id, results=res, wall=time.time() - t, names=names, stats=getattr(P, 'STATS', {}),
                   modules=sorted(run.lib.sources) if hasattr(run, "lib") else [],
                   contracts=sorted(getattr(fj, 'USED', ()))), open(out, 'w'))


main()
