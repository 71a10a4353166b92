"""Writes MANIFEST.json from properties.jsonl and the proof modules"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT = {}
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p in NOT:
        na.append({'property': p, 'reason': NOT[p]})
        continue
    path = os.path.join(HERE, 'proofs', p.lower() + '.py')
    if os.path.exists(path):
        note = {}
        src = open(path).read()
        i = src.index("NOTE = '''") + len("NOTE = '''")
        note = ' '.join(src[i:src.index("'''", i)].split())
        c = dict(technique='contract-based deductive verification: contracts over the real source, obligations discharged by z3; '
                           'failed obligations replayed on the real code', level='proof', level_note=note)
    else:
        c = dict(technique='executable contracts checked on the real code over generated inputs (bounded stand-in)',
                 level='exploration', level_note='Bounded: the executable contract is compared with the real code on generated inputs only.')
    checks.append(dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='python3 check.py %s --thorough' % p, **c))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
