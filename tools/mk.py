#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), note=''):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), quantifier=dict(over=over, text=' '.join(text.split())),
                  why_tests_cant=' '.join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None),
                  note=note))


exec(open(f'{HERE}/tools/table.py').read())

TECH = 'contract-based deductive verification: symbolic execution of the real source against its contract, obligations discharged by normal form and z3'
NOTE = ('Every obligation is generated from the current source on each run and discharged for all sizes, inputs and iterations (loops by induction); '
        'floating point is treated as real arithmetic, and the JAX/NumPy/Flax/Optax contracts the code is executed against are assumed '
        '(differentially tested). The same contracts are also evaluated on the real library at sampled inputs (bounded, not counted as proof).')
with open(f'{HERE}/properties.jsonl', 'w') as f:
    for p in P:
        q = {k: v for k, v in p.items() if k != 'note'}
        f.write(json.dumps(q) + '\n')
na = {k: v for k, v in NA}
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         checks=[dict(property=p['id'], quick_cmd=f'python3 check.py {p["id"]} --tier quick', thorough_cmd=f'python3 check.py {p["id"]} --tier thorough',
                      technique=TECH, level='proof', level_note=(NOTE + ' ' + p['note']).strip()) for p in P if p['id'] not in na],
         not_applicable=[dict(property=k, reason=v) for k, v in NA],
         notes='No hooks: nothing in /repo is guarded. Repairs are the "fix:" commits listed in known-findings.json.')
json.dump(m, open(f'{HERE}/MANIFEST.json', 'w'), indent=1)
if len(sys.argv) > 1:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for p in P:
        jsonschema.validate({k: v for k, v in p.items() if k != 'note'}, json.load(open('/root/.vp/PROPERTIES.schema.json')))
    print('valid', len(P))
