#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from vp/meta.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/vp')
from meta import PROPS, NOT_APPLICABLE
import checks
PROPS.sort(key=lambda p: p['id'])
claimed = []
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']),
            why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
            observe_at=p['observe'], hook_needed=None))) + '\n')
ch = []
for p in PROPS:
    if p['id'] in checks.CHECKS:
        ch.append(dict(property=p['id'], quick_cmd='./check %s quick' % p['id'], thorough_cmd='./check %s thorough' % p['id'],
            technique='symbolic execution of LLVM IR of the real code, SMT (z3, cvc5)', level='model_checking',
            level_note=p['note'] + '. Bounds: ' + p['bounds'] + '. Outside: ' + p['outside'] + '.'))
na = list(NOT_APPLICABLE)
ids = {x['property'] for x in na} | {x['property'] for x in ch}
for p in PROPS:
    assert p['id'] in ids, p['id']
for c in checks.CHECKS:
    assert any(p['id'] == c for p in PROPS), c
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=ch, not_applicable=na,
    notes='Each check compiles the sources it needs from /repo to LLVM IR and native objects on every run; see DESIGN.md.'),
    open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(PROPS), 'properties', len(ch), 'checks')
