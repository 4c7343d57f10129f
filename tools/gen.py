#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'tools'))
sys.dont_write_bytecode = True
from props import PROPS
props, checks, na = [], [], []
for p in PROPS:
    props.append({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['quant']},
        'why_tests_cant': p['tests'],
        'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                    'observe_at': p.get('observe', []), 'hook_needed': None},
    })
    assert len(p['title']) <= 80, p['id']
    if 'na' in p:
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'bash check.sh %s quick' % p['id'],
        'thorough_cmd': 'bash check.sh %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p.get('technique', 'bounded symbolic execution of the Go SSA of the current tree, z3 decides every branch and assertion'),
        'level': 'model_checking',
        'level_note': p['note'],
    })
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'bash check.sh setup', 'checks': checks, 'not_applicable': na}, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed,', len(na), 'not applicable')
