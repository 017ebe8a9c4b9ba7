#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--root /repo] [-v]

Proves the contracts of one property against the current source of /repo (symbolic side, python3-vt) and replays the same
contracts on the real library (concrete side, /opt/venv).  Exit 0: held; 1 and a VIOLATION line: broken; 2: no answer."""
import argparse
import json
import os
import subprocess
import sys
import tempfile
import time
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
VT = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
REAL = '/opt/venv/bin/python'
TRUSTED = [
    'symbolic executor, normaliser and prover in /verif/vp (Python), z3 4.x through python3-vt',
    'contracts of the JAX, NumPy, Flax, Optax and einops functions used by the code (vp/fakejax.py, vp/fakeflax.py), assumed for those '
    'libraries (list: library_contracts_used). contracts/lib_library.py (check.py LIB) proves elementary index formulas for them and evaluates the same '
    'formulas on the installed versions; every case of this property is evaluated on the installed versions as well',
    'floating point is treated as real arithmetic; array indices produced by the code are in range unless an obligation says otherwise',
    'JAX random primitives: draws under distinct keys are independent with the documented law; draws are compared as functions of the named draws',
    'the only source transformation is the rewriting of comprehensions in vp/loader.py; everything else executes as written',
]


def spawn(cmd, err, env=None):
    e = dict(os.environ)
    e.update({'JAX_PLATFORMS': 'cpu', 'TF_CPP_MIN_LOG_LEVEL': '3', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
              'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'XLA_FLAGS': '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1'})
    e.update(env or {})
    return subprocess.Popen(cmd, env=e, stdout=subprocess.DEVNULL, stderr=err, cwd=HERE)


class Pool:
    def __init__(self, n):
        self.n, self.todo, self.run, self.fail = n, [], [], []

    def add(self, tag, cmd, limit):
        self.todo.append((tag, cmd, limit))

    def loop(self, deadline):
        while self.todo or self.run:
            while self.todo and len(self.run) < self.n:
                tag, cmd, limit = self.todo.pop(0)
                err = tempfile.TemporaryFile()
                p = spawn(cmd, err)
                self.run.append((tag, p, time.time() + limit, err))
            time.sleep(0.02)
            for item in list(self.run):
                tag, p, end, err = item
                rc = p.poll()
                if rc is None and (time.time() > end or time.time() > deadline):
                    p.kill()
                    p.wait()
                    rc = -9
                    self.fail.append((tag, 'time limit'))
                elif rc is not None and rc != 0:
                    err.seek(0)
                    self.fail.append((tag, err.read().decode(errors='replace')[-2000:]))
                if rc is not None:
                    err.close()
                    self.run.remove(item)


def cases_of(prop):
    sys.path.insert(0, HERE)
    from vp import api
    return api.load_cases(HERE, prop)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--root', default='/repo')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    prop, root, tier = a.prop, a.root, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    deadline = t0 + (780 if tier == 'quick' else 3000)
    cs = cases_of(prop)
    if not cs:
        print(f'no contracts for {prop}')
        return 2
    tmp = tempfile.mkdtemp(prefix=f'vp-{prop}-')
    pool = Pool(8)
    budget = 90 if tier == 'quick' else 300
    ncfg = 3 if tier == 'quick' else 12
    sym, con = {}, {}
    if True:
        heavy = sorted(range(len(cs)), key=lambda k: -cs[k].kw.get('weight', 1))
        for k in heavy:
            if not cs[k].kw.get('bounded'):
                pool.add(('sym', k), [VT, f'{HERE}/vp/worker.py', prop, str(k), root, str(budget), f'{tmp}/sym{k}'], budget * 3 + 60)
        groups = [[] for _ in range(min(4 if tier == 'quick' else 7, len(cs)))]
        for q, k in enumerate(heavy):
            groups[q % len(groups)].append(k)
        cfgs = list(range(ncfg)) if tier == 'quick' else list(range(ncfg))
        if seed != 1:
            cfgs += [10 + 7 * seed]
        for q, g in enumerate(groups):
            json.dump(dict(cases=g, cfgs=cfgs, tmax=120 if tier == 'quick' else 900), open(f'{tmp}/job{q}', 'w'))
            pool.add(('con', q), [REAL, f'{HERE}/rt/worker.py', prop, root, f'{tmp}/job{q}', f'{tmp}/con{q}'], 400 if tier == 'quick' else 2400)
        # concrete workers first: they start slower
        pool.todo.sort(key=lambda x: x[0][0] != 'con')
        pool.loop(deadline)
    conres = []
    for q in range(len(groups)):
        try:
            conres += json.load(open(f'{tmp}/con{q}'))
        except Exception:
            pass
    known = [f for f in json.load(open(f'{HERE}/known-findings.json'))['findings'] if f.get('property') == prop] \
        if os.path.exists(f'{HERE}/known-findings.json') else []
    kn = [f for f in known if f.get('status') == 'known']

    def listed(r):
        return [f for f in kn if f['case'] == r['case'] and f['name'] == r['name'] and f['match'] in r['detail']]

    def failing():
        return [r for r in conres if r['status'] == 'fail' and not listed(r)]
    obls, names = [], {}
    contracts, modules = set(), set()
    stats = {}
    for k, c in enumerate(cs):
        try:
            d = json.load(open(f'{tmp}/sym{k}'))
        except Exception:
            if not c.kw.get('bounded'):
                why = [w for t, w in pool.fail if t == ('sym', k)]
                obls.append(dict(case=c.id, k=k, name='case', status='error', detail=f'no result: {why}', backend='', time=0))
            continue
        for r in d['results']:
            obls.append(dict(case=c.id, k=k, **r))
        contracts |= set(d.get('contracts', ()))
        modules |= set(d.get('modules', ()))
        for s, v in d.get('stats', {}).items():
            stats[s] = stats.get(s, 0) + v
    bad = [o for o in obls if o['status'] != 'proved']
    # deeper search for the inputs of the obligations that were not discharged
    retry = {}
    for o in bad:
        base = o['name'].split('/')[0].split('#')[0].split('[')[0]
        if o['status'] in ('unknown', 'refuted', 'error', 'unsupported', 'vacuous'):
            retry.setdefault(o['k'], set()).add(base)
    hits = failing()
    if retry and not hits:
        pool2 = Pool(8)
        jobs = []
        pts = {}
        for o in bad:
            for pt in o.get('points', ()):
                pts.setdefault(o['k'], []).append(pt)
        for k, ns in retry.items():
            only = None if ns & {'setup', 'case', 'vacuity'} else sorted(ns)
            for part in ([3, 4, 5, 6], [7, 8, 9, 10]):
                q = len(jobs)
                cf = part + ([dict(seed=20 + j, sizes=p) for j, p in enumerate(pts.get(k, [])[:6])] if part[0] == 3 else [])
                json.dump(dict(cases=[k], cfgs=cf, only=only, tmax=150), open(f'{tmp}/jobr{q}', 'w'))
                pool2.add(('con', q), [REAL, f'{HERE}/rt/worker.py', prop, root, f'{tmp}/jobr{q}', f'{tmp}/conr{q}'], 200)
                jobs.append(q)
        pool2.loop(min(deadline, time.time() + 260))
        for q in jobs:
            try:
                conres += json.load(open(f'{tmp}/conr{q}'))
            except Exception:
                pass
        hits = failing()
    # ---- verdict
    os.makedirs(f'{HERE}/evidence/replay', exist_ok=True)
    lines, code = [], 0
    real_hits = hits
    for f in kn:
        print(f'KNOWN-FINDING: property={prop} {f["what"]}')
    viol = 0
    if real_hits:
        r = real_hits[0]
        path = f'{HERE}/evidence/replay/{prop}.json'
        fails = [o for o in bad if o['case'] == r['case']]
        json.dump(dict(property=prop, case=r['case'], case_index=r['case_index'], obligation=r['name'], cfg=r['cfg'], detail=r['detail'],
                       inputs=r['inputs'], failed_obligations=fails[:10], replay_cmd=f'cd {HERE} && {REAL} rt/replay.py {path}'),
                  open(path, 'w'), indent=1, default=str)
        print(f'{r["case"]} {r["name"]}: {r["detail"]}')
        print(f'VIOLATION property={prop} replay={path}')
        code, viol = 1, len(real_hits)
    else:
        order = ('refuted', 'vacuous', 'unknown', 'unsupported', 'error')
        failed = sorted(bad, key=lambda o: order.index(o['status']) if o['status'] in order else 9)
        failed = [o for o in failed if not [f for f in kn if f['case'] == o['case'] and o['name'].startswith(f['name'])]]
        if failed:
            o = failed[0]
            path = f'{HERE}/evidence/replay/{prop}.json'
            json.dump(dict(property=prop, case=o['case'], obligation=o['name'], status=o['status'], verifier_output=o['detail'],
                           failed_obligations=failed[:20]), open(path, 'w'), indent=1, default=str)
            print(f'{o["case"]} {o["name"]}: {o["status"]}: {o["detail"][:800]}')
            print(f'VIOLATION property={prop} replay={path} no-failing-input-found')
            code, viol = 1, len(failed)
    proved = [o for o in obls if o['status'] == 'proved']
    evals = [r for r in conres if r['status'] in ('ok', 'fail')]
    if code == 0 and (not obls or not proved) and not all(c.kw.get('bounded') for c in cs):
        if not evals:
            print(f'{prop}: no obligations generated')
            code = 2
    targets = sorted({t for c in cs for t in c.targets})
    broken = {o['k'] for o in bad}
    ptargets = sorted({t for k, c in enumerate(cs) if k not in broken and not c.kw.get('bounded') for t in c.targets})
    boundedt = sorted(set(targets) - set(ptargets))
    ev = dict(
        property=prop, tier=tier, seed=seed, level='proof',
        coverage=dict(
            obligations=len(obls), discharged=len(proved),
            checker_cmd=f'python3 check.py {prop} --tier {tier}', trusted_base=TRUSTED,
            functions_under_contract=targets, functions_proved=ptargets, functions_bounded_only=boundedt,
            back_ends=dict(polynomial_normal_form_and_z3=len([o for o in proved if 'z3' in o['backend'] or 'norm' in o['backend']]),
                           symbolic_execution=len([o for o in proved if o['backend'] == 'symbolic execution'])),
            z3_calls=stats.get('z3_calls', 0), z3_seconds=round(stats.get('z3_time', 0.), 3),
            proof_seconds=round(sum(o['time'] for o in obls), 3),
            undischarged=[dict(case=o['case'], name=o['name'], status=o['status'], detail=o['detail'][:600]) for o in bad],
            obligation_list=[f'{o["case"]}/{o["name"]}: {o["status"]}' for o in obls][:400],
            library_contracts_used=sorted(contracts), modules_executed=sorted(modules),
            bounded_evaluations=len(evals),
            bounded_rule='the same contracts evaluated on the real library at sampled sizes (lower bound to lower bound + 3) and inputs; '
                         'counted here, never as proof',
            bounded_undecided=[f'{r["case"]}/{r["name"]} cfg {r["cfg"]}: {r["detail"][:200]}' for r in conres if r['status'] in ('undecided', 'error')][:50],
            evaluations=len(evals), worker_failures=[f'{t}: {w[-300:]}' for t, w in pool.fail],
        ),
        assumptions=TRUSTED[1:] + sorted({x for c in cs for x in c.kw.get('assumes', ())}),
        wall_s=round(time.time() - t0, 2), violations=viol)
    os.makedirs(f'{HERE}/evidence', exist_ok=True)
    json.dump(ev, open(f'{HERE}/evidence/{prop}.json', 'w'), indent=1)
    for f in os.listdir(tmp):
        os.remove(os.path.join(tmp, f))
    os.rmdir(tmp)
    print(f'{prop}: {len(proved)}/{len(obls)} obligations discharged, {len(evals)} concrete evaluations '
          f'({len([r for r in conres if r["status"] in ("undecided", "error")])} undecided), {time.time() - t0:.1f}s')
    if a.v:
        for o in bad:
            print('  not discharged:', o['case'], o['name'], o['status'], o['detail'][-700:])
        for r in conres:
            if r['status'] != 'ok':
                print('  concrete:', r['case'], r['name'], r['cfg'], r['status'], r['detail'][:500])
        for f in pool.fail:
            print('  worker', f[0], f[1][-600:])
    return code


sys.exit(main())
