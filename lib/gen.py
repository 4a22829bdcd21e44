#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in lib/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = 'exploration'
with open(V + '/properties.jsonl', 'w') as f:
    for p in P + NA:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
m = dict(version=1, setup_cmd='bin/setup',
    checks=[dict(property=p['id'], quick_cmd='bin/check ' + p['id'], thorough_cmd='VERIF_TIER=thorough bin/check ' + p['id'],
                 evidence_file='evidence/%s.json' % p['id'], technique=p['tech'], level=LEVEL, level_note=p['note']) for p in P],
    not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NA],
    notes='bin/check builds the harnesses from /repo with sanitizers and runs them; lib/checks.py lists the runs, known_findings.txt the defects found. No hooks in /repo.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')

# DESIGN.md
from how import HOW
import glob
how = []
for p in P:
    how.append('* **%s %s** (%s). %s' % (p['id'], p['title'], p['tech'].split(',')[0].replace('-instrumented run of the real code against an independent model', ''), HOW[p['id']]))
seeds = ['| planted bug | property | needs |', '|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    j = json.load(open(d))
    seeds.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), j['property'], j['needs'].replace('|', '/').replace('\n', ' ')))
na = ['* **%s %s**: %s' % (p['id'], p['title'], p['reason']) for p in NA] or ['Nothing claimed is outside this family; what cannot be executed here is listed under "What can run here".']
t = open(V + '/lib/design.md').read()
for k, v in (('@HOW@', how), ('@SEEDS@', seeds), ('@NA@', na)): t = t.replace(k, '\n'.join(v))
open(V + '/DESIGN.md', 'w').write(t)
