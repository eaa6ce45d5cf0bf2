#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_*.md, the property table, the rules and the last evidence of each check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = lambda *a: open(os.path.join(V, *a)).read()
man = json.loads(r('MANIFEST.json'))
tech = {c['property']: c['technique'] for c in man['checks']}
out = [r('tools', 'design_head.md')]
for l in r('properties.jsonl').splitlines():
    x = json.loads(l)
    f = os.path.join(V, 'evidence', x['id'] + '.json')
    if x['id'] not in tech:
        continue
    c = json.load(open(f))['coverage']
    out.append(f'### {x["id"]} {x["title"]}\n\n'
               f'Technique: {tech[x["id"]]}. {c["explanation"]}\n\n'
               + ''.join(f'* {t}\n' for t in c['rules'])
               + f'\nOver: {x["quantifier"]["text"]}. Tests: {x["why_tests_cant"]}\n')
out.append(r('tools', 'design_tail.md'))
caught = json.loads(r('tools', 'caught.json')) if os.path.exists(os.path.join(V, 'tools', 'caught.json')) else {}
rows = ['| seeded bug | property | needs | caught by |', '|---|---|---|---|']
for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.loads(r('seeded', s, 'meta.json'))
    rows.append(f'| {s} | {m["property"]} | {m["needs"]} | {" ".join(caught.get(s, ["?"])) or "missed"} |')
out.append('\n'.join(rows) + '\n')
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
