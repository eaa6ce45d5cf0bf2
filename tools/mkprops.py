#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step with the rules."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'engine'), V]
from check import load_rules

TECH = 'static dataflow over rustc MIR: path-partitioned abstract interpretation (symbolic value numbering, no solver), compared with the specified outcome of each path'
NOTE = ('Decides the rule for every input on every path of the analysed functions (release and debug MIR, all features). Trusts: rustc\'s '
        'lowering to MIR, the models of std/amplify/strict_encoding operations in engine/models.py, and that user trait '
        'implementations are functions of their arguments. A construct the analysis does not understand is reported, not skipped.')

P = []


def p(id, title, statement, over, text, tests, files, mech, note=NOTE, tech=TECH, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                  note=note, tech=tech, na=na, state=state))


exec(open(os.path.join(V, 'tools', 'props_table.py')).read())

rules = load_rules()
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        if not x['na']:
            assert rules[x['id']].title == x['title'], (x['id'], rules[x['id']].title)
        a = {'files': x['files'], 'mechanism': [{'name': n, 'where': w} for n, w in x['mech']]}
        if x['state']:
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in x['state']]
        f.write(json.dumps({'id': x['id'], 'title': x['title'], 'statement': x['statement'],
                            'quantifier': {'over': x['over'], 'text': x['text']}, 'why_tests_cant': x['tests'], 'anchors': a},
                           ensure_ascii=False) + '\n')
missing = set(rules) - {x['id'] for x in P if not x['na']}
assert not missing, missing
man = {
    'version': 1,
    'setup_cmd': 'python3 check.py --setup',
    'checks': [{'property': x['id'], 'quick_cmd': f'python3 check.py {x["id"]}', 'thorough_cmd': f'python3 check.py --thorough {x["id"]}',
                'technique': x['tech'], 'level': rules[x['id']].level, 'level_note': x['note']} for x in P if not x['na']],
    'not_applicable': [{'property': x['id'], 'reason': x['na']} for x in P if x['na']],
    'notes': 'No hooks: the checks read the MIR of /repo as it is. Known findings and fixed defects: known-findings.json, explained in DESIGN.md.',
}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(P), 'properties,', len(man['checks']), 'claimed')
