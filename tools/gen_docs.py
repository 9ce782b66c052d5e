#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (the single place where they are described)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, here)
from props import PROPS, NA
root = os.path.dirname(here)
with open(root + '/properties.jsonl', 'w') as f:
    for p in PROPS + NA:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
        assert len(p['title']) <= 80, p['id']
m = {'version': 1, 'setup_cmd': 'bash bin/setup',
     'checks': [{'property': p['id'], 'quick_cmd': 'bin/check %s quick' % p['id'], 'thorough_cmd': 'bin/check %s thorough' % p['id'],
                 'technique': p.get('technique', 'TLA+ specification checked by TLC; recorded executions of the real code validated as its behaviours (trace validation)'),
                 'level': 'model_checking',
                 'level_note': p['note']} for p in PROPS if os.path.exists(root + '/props/%s.py' % p['id'].lower())],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA]
     + [{'property': p['id'], 'reason': 'check under construction'} for p in PROPS if not os.path.exists(root + '/props/%s.py' % p['id'].lower())]}
with open(root + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
