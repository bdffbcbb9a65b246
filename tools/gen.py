#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props/catalog.py"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props.catalog import PROPS, NOT_APPLICABLE  # noqa: E402

KEYS = ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NOT_APPLICABLE:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps({k: p[k] for k in KEYS}) + '\n')
PY = '/opt/venv/bin/python'
man = {'version': 1, 'setup_cmd': 'true',
       'checks': [{'property': p['id'], 'quick_cmd': f'{PY} check.py {p["id"]} --tier quick',
                   'thorough_cmd': f'{PY} check.py {p["id"]} --tier thorough',
                   'technique': p['technique'], 'level': p.get('level', 'model_checking'), 'level_note': p['level_note']}
                  for p in PROPS],
       'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NOT_APPLICABLE]}
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
