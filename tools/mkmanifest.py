#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
C = {}  # id: (cmd, technique, level, note)
NA = {}
exec(open(V + '/tools/claims.py').read())
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
for p in props:
    if p in C:
        cmd, tech, level, note = C[p]
        m['checks'].append({'property': p, 'quick_cmd': cmd, 'thorough_cmd': cmd, 'technique': tech, 'level': level, 'level_note': note,
                            'evidence_file': 'evidence/%s.json' % p})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'Not decided yet.')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
