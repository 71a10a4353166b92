#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on the current tree of /repo.

1. The deductive part (`pyvc.prove`) generates the obligations of the property from /repo's current source and the
   contracts in /verif/specs, and has them discharged by z3.
2. The contracts are cross-checked by running the real code against them on generated inputs (seeded by VERIF_SEED).
3. When an obligation fails, a longer search looks for a failing input of the real code.

Exit 0: every obligation discharged and no failing input. Exit 1 and a VIOLATION line otherwise.
"""
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else 'python3'
VT = '/opt/veriftools/pyvenv/bin/python' if os.path.exists('/opt/veriftools/pyvenv/bin/python') else 'python3-vt'


def start_search(prop, seed, seconds, out):
    cmd = [PY, os.path.join(HERE, 'concrete', 'run.py'), prop, '--seed', str(seed), '--seconds', str(seconds),
           '--out', out]
    return subprocess.Popen(cmd, cwd=HERE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                            start_new_session=True, env=dict(os.environ, PYTHONHASHSEED=str(seed % 4000000),
                                                             PYTHONDONTWRITEBYTECODE='1'))


def kill(p):
    try:
        os.killpg(p.pid, 9)
    except (ProcessLookupError, PermissionError):
        pass
    p.wait()


def search(prop, seeds, seconds, tmp, grace=120):
    """Runs one search per seed in parallel; yields merged result and stops at the first failure"""
    jobs = []
    for s in seeds:
        out = os.path.join(tmp, 'search_%d.json' % s)
        jobs.append((start_search(prop, s, seconds, out), out))
    return jobs, time.time() + seconds + grace


def collect(jobs, deadline):
    res = {'cases': 0, 'distinct': 0, 'samples': [], 'kinds': {}, 'failure': None, 'errors': []}
    pending = list(jobs)
    while pending:
        for job in list(pending):
            p, out = job
            if p.poll() is None:
                continue
            pending.remove(job)
            err = p.stderr.read().decode('utf8', 'replace')
            if os.path.exists(out) and p.returncode == 0:
                with open(out) as f:
                    r = json.load(f)
                res['cases'] += r['cases']
                res['distinct'] += r.get('distinct', 0)
                if len(res['samples']) < 3:
                    res['samples'] += r.get('samples', [])[:1]
                for k, n in r.get('kinds', {}).items():
                    res['kinds'][k] = res['kinds'].get(k, 0) + n
                if r['failure']:
                    res['failure'] = r['failure']
            else:
                res['errors'].append('search exited with %s: %s' % (p.returncode, err[-1500:]))
        if res['failure']:
            break
        if time.time() > deadline:
            res['errors'].append('search killed after its time limit')
            break
        time.sleep(0.05)
    for p, _ in pending:
        kill(p)
    return res


def known_findings(prop):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f).get('findings', []) if k['property'] == prop]


def main():
    prop = sys.argv[1].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    replay = os.path.join(HERE, 'replay', '%s.json' % prop)
    has_proof = os.path.exists(os.path.join(HERE, 'proofs', prop.lower() + '.py'))
    seconds = 25 if tier == 'quick' else 300
    nb = 4 if tier == 'quick' else 6
    with tempfile.TemporaryDirectory(prefix='vp_' + prop) as tmp:
        jobs, deadline = search(prop, [seed * 100 + i for i in range(nb)], seconds, tmp)
        proof = None
        if has_proof:
            out = os.path.join(tmp, 'proof.json')
            limit = 400 if tier == 'quick' else 1500
            p = subprocess.Popen([VT, '-m', 'pyvc.prove', prop, '--out', out, '--tier', tier, '--seed', str(seed)],
                                 cwd=HERE, start_new_session=True, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            res = collect(jobs, deadline)
            if res['failure']:
                # A failing input decides; the obligations are given a little more time, for the report
                limit = 60
            try:
                _, err = p.communicate(timeout=max(5, limit - (time.time() - t0)))
                err = err.decode('utf8', 'replace')
            except subprocess.TimeoutExpired:
                kill(p)
                err = 'verifier stopped after its time limit'
            if os.path.exists(out):
                with open(out) as f:
                    proof = json.load(f)
                if not proof.get('complete'):
                    proof['failed'].append({'name': 'all obligations generated',
                                            'detail': err[-3000:] or 'verifier did not finish'})
            else:
                proof = {'obligations': [], 'failed': [{'name': 'obligations generated', 'detail': err[-3000:]}],
                         'functions': [], 'assumptions': [], 'trusted': [], 'solver_s': 0}
        else:
            res = collect(jobs, deadline)
        if proof and proof['failed'] and not res['failure']:
            more = 60 if tier == 'quick' else 300
            jobs, deadline = search(prop, [seed * 100 + 50 + i for i in range(8)], more, tmp)
            r2 = collect(jobs, deadline)
            for k in ('cases', 'distinct'):
                res[k] += r2[k]
            res['failure'] = r2['failure']
            res['errors'] += r2['errors']
    findings = known_findings(prop)
    for k in findings:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    violations = 0
    line = None
    if res['failure']:
        violations = 1
        with open(replay, 'w') as f:
            json.dump({'property': prop, 'case': res['failure']['case'], 'what': res['failure']['what'],
                       'failed_obligations': proof['failed'] if proof else [],
                       'run': 'PYTHONHASHSEED=%s %s concrete/run.py %s --replay %s' % (
                           res['failure'].get('hashseed', 'random'), PY, prop, replay)}, f, indent=1,
                      ensure_ascii=False)
        line = 'VIOLATION property=%s replay=%s' % (prop, replay)
    elif proof and proof['failed']:
        violations = len(proof['failed'])
        with open(replay, 'w') as f:
            json.dump({'property': prop, 'case': None, 'failed_obligations': proof['failed'],
                       'search': {'cases': res['cases'], 'errors': res['errors']}}, f, indent=1, ensure_ascii=False)
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay)
    elif os.path.exists(replay):
        os.remove(replay)
    rule = ('inputs from corner cases and a seeded generator, run on the real code (CPython) and compared with the '
            'executable contract; distinct by their JSON text; non-trivial: some list, mapping or text of the input '
            'has at least two members')
    cross = {'evaluations': res['cases'], 'distinct_nontrivial': res['distinct'], 'rule': rule,
             'samples': res['samples'], 'kinds': res['kinds']}
    if proof:
        ok = [o for o in proof['obligations'] if o['status'] == 'discharged' and o['back_end'] != 'enumeration']
        coverage = {'obligations': sum(o['back_end'] != 'enumeration' for o in proof['obligations']), 'discharged': len(ok),
                    'checker_cmd': 'python3-vt -m pyvc.prove %s' % prop,
                    'trusted_base': proof['trusted'],
                    'functions_under_contract': proof['functions'],
                    'bounded': proof.get('bounded', []),
                    'back_ends': proof.get('back_ends', {}),
                    'solver_s': proof['solver_s'],
                    'obligation_list': proof['obligations'],
                    'failed': proof['failed'],
                    'cross_check': cross}
        level = 'proof'
    else:
        coverage = cross
        level = 'exploration'
    if res['errors']:
        coverage['search_errors'] = res['errors']
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': coverage,
          'assumptions': proof['assumptions'] if proof else [],
          'wall_s': round(time.time() - t0, 2), 'violations': violations}
    with open(os.path.join(HERE, 'evidence', '%s.json' % prop), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    if proof:
        print('%s: %d obligations, %d discharged; %d inputs cross-checked; %.1f s' % (
            prop, coverage['obligations'], coverage['discharged'], res['cases'], ev['wall_s']))
        for x in proof['failed'][:20]:
            print('  failed obligation: %s: %s' % (x['name'], str(x['detail'])[:300].replace('\n', ' | ')))
    else:
        print('%s: %d inputs checked; %.1f s' % (prop, res['cases'], ev['wall_s']))
    if res['failure']:
        print('  failing input: %s' % json.dumps(res['failure']['case'], ensure_ascii=False)[:600])
        print('  %s' % res['failure']['what'][:1200].replace('\n', '\n  '))
    if line:
        print(line)
        sys.exit(1)
    if res['cases'] == 0 or (res['errors'] and not proof):
        print('check error: %s' % res['errors'])
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
