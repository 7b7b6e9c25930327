#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (only properties with a check, or declared not applicable)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'tools'))
from props import PROPS, NA
out, checks = [], []
for p in PROPS:
    pid = p['id']
    if not os.path.isdir(os.path.join(here, 'mc/cmd', pid.lower())) and pid not in NA:
        continue
    assert len(p['title']) <= 80, pid
    out.append({'id': pid, 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
        'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': p.get('hook')}})
    if pid not in NA:
        checks.append({'property': pid, 'quick_cmd': f'./run.sh {pid} quick', 'thorough_cmd': f'./run.sh {pid} thorough',
            'evidence_file': f'evidence/{pid}.json', 'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note']})
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for o in out: f.write(json.dumps(o) + '\n')
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'No hooks in /repo. Concurrency and crash checks build against a copy of the badger module (from the module cache) whose transaction begin/commit call into the scheduler; /repo itself is built unmodified.'}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
try:
    import jsonschema
    sm = json.load(open('/root/.vp/MANIFEST.schema.json')); jsonschema.validate(m, sm)
    sp = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for o in out: jsonschema.validate(o, sp)
    print('valid', len(out), len(checks))
except ImportError:
    print('written (no jsonschema)', len(out))
