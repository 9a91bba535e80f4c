#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(V, 'tools', 'levels.json')))
checks = []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    if not os.path.exists(os.path.join(V, 'checks', p + '.cpp')):
        continue
    checks.append({
        'property': p,
        'quick_cmd': './check.sh ' + p,
        'thorough_cmd': './check.sh ' + p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': notes[p][0],
        'level': 'exploration',
        'level_note': notes[p][1],
    })
m = {'version': 1, 'setup_cmd': 'python3 tools/build.py --all', 'checks': checks, 'not_applicable': [],
     'notes': 'Checks are C++ harnesses linked with the sources in /repo; see DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
