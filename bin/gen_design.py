#!/usr/bin/env python3
"""DESIGN.md = bin/DESIGN.in.md + known findings + planted bugs."""
import json, os
R = '/verif'
d = json.load(open(f'{R}/known_findings.json'))
s = open(f'{R}/bin/DESIGN.in.md').read()
s = s.replace('\nFIXED\n', '\n' + '\n'.join('* ' + x.replace('fixed: property=', '') for x in d['fixed']) + '\n')
by = {}
for k in d['known']:
    by.setdefault(k['id'], [k['what'], []])[1].append(k['property'])
s = s.replace('\nKNOWN\n', '\n' + '\n'.join(f'* **{i}** ({", ".join(p)}): {w}' for i, (w, p) in sorted(by.items())) + '\n')
res = {}
if os.path.exists(f'{R}/bin/seed_results.json'):
    res = json.load(open(f'{R}/bin/seed_results.json'))
rows = ['| id | property | what it breaks | needs | caught by (quick) |', '|---|---|---|---|---|']
for i in sorted(os.listdir(f'{R}/seeded')):
    m = json.load(open(f'{R}/seeded/{i}/meta.json'))
    rows.append(f'| {i} | {m["property"]} | {m["what_it_breaks"]} | {m["needs"]} | {res.get(i, "?")} |')
s = s.replace('\nSEEDS\n', '\n' + '\n'.join(rows) + '\n')
open(f'{R}/DESIGN.md', 'w').write(s)
