"""Writes DESIGN.md"""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(HERE + '/properties.jsonl')]
notes, seeds = [], ['| bug | property | what it breaks | caught by |', '|---|---|---|---|']
proved = set()
for p in props:
    f = '%s/proofs/%s.py' % (HERE, p['id'].lower())
    if os.path.exists(f):
        m = re.search(r"NOTE = '''(.*?)'''", open(f).read(), re.S)
        notes.append('* **%s** %s. %s' % (p['id'], p['title'], ' '.join(m.group(1).split())))
        proved.add(p['id'])
    else:
        notes.append('* **%s** %s. Bounded search only, see below.' % (p['id'], p['title']))
extra = json.load(open(HERE + '/tools/caught.json')) if os.path.exists(HERE + '/tools/caught.json') else {}
for b in sorted(os.listdir(HERE + '/seeded')):
    d = json.load(open('%s/seeded/%s/meta.json' % (HERE, b)))
    by = extra.get(b, 'proof and search' if d['property'] in proved else 'search')
    seeds.append('| %s | %s | %s | %s |' % (b, d['property'], d['what_it_breaks'], by))
text = open(HERE + '/tools/design.in.md').read()
text = text.replace('{NOTES}', '\n'.join(notes)).replace('{SEEDS}', '\n'.join(seeds))
mut = open(HERE + '/tools/mutants.txt').read().strip() if os.path.exists(HERE + '/tools/mutants.txt') else ''
open(HERE + '/DESIGN.md', 'w').write(text.replace('{MUT}', mut))
