#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/table.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from table import PROPS
ROOT = os.path.dirname(HERE)
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]}
        if p['observe']:
            a['observe_at'] = p['observe']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']},
                            'why_tests_cant': p['why'], 'anchors': a}) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 run.py --setup',
       'hooks': {'guard': 'none', 'enable': 'no hooks are added to the repository: monitors wrap functions at run time inside the check processes', 'source_commits': []},
       'checks': [], 'not_applicable': [],
       'notes': 'Every check is python3 run.py <id>; see DESIGN.md. Known findings and repairs are listed in known_findings.txt.'}
for p in PROPS:
    if p['built']:
        man['checks'].append({'property': p['id'], 'quick_cmd': 'python3 run.py %s --tier quick' % p['id'],
                              'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'],
                              'technique': p['technique'], 'level': 'exploration', 'level_note': p['level_note']})
    else:
        man['not_applicable'].append({'property': p['id'], 'reason': p['na'] or 'check not built yet'})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
