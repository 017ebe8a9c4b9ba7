"""Concrete worker.  usage: worker.py PROP ROOT JOBS.json OUT   (JOBS: {"cases": [...], "cfgs": [...], "only": null|[names], "tmax": s})"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    prop, root, jobs, out = sys.argv[1:5]
    jobs = json.load(open(jobs))
    from rt import conc
    conc.install(root)
    from vp import api
    api.load_cases(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), prop)
    res = []
    for k in jobs['cases']:
        c = api.CASES[k]
        try:
            for r in conc.run_case(c, jobs['cfgs'], jobs.get('only'), jobs.get('tmax', 60)):
                r['case_index'] = k
                res.append(r)
        except Exception as e:
            import traceback
            res.append(dict(case=c.id, case_index=k, name='case', cfg=-1, status='error', detail=traceback.format_exc()[-1500:], inputs={}, time=0))
        with open(out + '.tmp', 'w') as f:
            json.dump(res, f, default=str)
        os.replace(out + '.tmp', out)


main()
