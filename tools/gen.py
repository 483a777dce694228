#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from checks/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'checks'))
from props import PROPS, NOT_APPLICABLE
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for i, p in sorted(PROPS.items()):
        a = {'files': p['files'], 'mechanism': p['mech'], 'observe_at': p['observe'], 'hook_needed': None}
        if p.get('state'): a['state'] = p['state']
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': i, 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['tests'], 'anchors': a}) + '\n')
    for p in NOT_APPLICABLE:
        if 'line' in p: f.write(json.dumps(p['line']) + '\n')
M = {'version': 1, 'setup_cmd': 'bash tools/setup.sh',
     'checks': [{'property': i, 'quick_cmd': f'python3 checks/check.py {i} quick', 'thorough_cmd': f'python3 checks/check.py {i} thorough', 'evidence_file': f'evidence/{i}.json',
                 'technique': p['technique'], 'level': p.get('level', 'exploration'), 'level_note': p['note']} for i, p in sorted(PROPS.items())],
     'not_applicable': [{'property': p['property'], 'reason': p['reason']} for p in NOT_APPLICABLE],
     'notes': 'No hooks in /repo: everything is observed through the public C API of a build of the working tree. The fix: commits in /repo are listed in known_findings.txt.'}
json.dump(M, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
