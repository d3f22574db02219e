#!/usr/bin/env python3
"""Write MANIFEST.json from tools/registry.py and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from registry import PROPERTIES, PENDING  # noqa: E402

V = os.path.dirname(HERE)
ids = [json.loads(line)['id'] for line in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in PROPERTIES:
        p = PROPERTIES[i]
        checks.append({
            'property': i,
            'quick_cmd': 'python3 tools/check.py %s quick' % i,
            'thorough_cmd': 'python3 tools/check.py %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': p['technique'],
            'level': 'model_checking',
            'level_note': p['note'],
        })
    else:
        na.append({'property': i, 'reason': PENDING.get(i, 'check not built yet')})
m = {
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'hooks': {'guard': 'none', 'enable': 'No hooks in /repo: the checks interpose libc, pthread and tsan entry points '
              'at link time and build /repo out of tree with their own compiler flags.', 'source_commits': []},
    'checks': checks,
    'not_applicable': na,
    'notes': 'See DESIGN.md. Genuine defects found are fixed in /repo ("fix:" commits) or listed in known-findings.json.',
}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
