"""replay.py FILE [ROOT]: re-run the failing obligation recorded by check.py on the real library."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rt import conc
d = json.load(open(sys.argv[1]))
conc.install(sys.argv[2] if len(sys.argv) > 2 else '/repo')
from vp import api
cs = api.load_cases(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), d['property'])
bad = 0
for r in conc.run_case(cs[d['case_index']], [d['cfg']], [d['obligation']]):
    print(r['status'], r['detail'], r['inputs'])
    bad |= r['status'] == 'fail'
sys.exit(1 if bad else 0)
