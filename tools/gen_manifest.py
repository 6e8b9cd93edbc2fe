#!/usr/bin/env python3
"""Writes MANIFEST.json from suites.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from suites import SUITES, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in SUITES:
        s = SUITES[i]
        m['checks'].append({
            'property': i, 'quick_cmd': f'python3 tools/check.py {i}', 'thorough_cmd': f'VERIF_TIER=thorough python3 tools/check.py {i}',
            'evidence_file': f'evidence/{i}.json',
            'technique': s.get('technique', 'TLA+ specification checked with TLC; traces of the real code under a seeded scheduler validated against it by TLC'),
            'level': 'model_checking',
            'level_note': s.get('note', 'Every recorded execution is a behaviour of the specification, which is itself model-checked within small bounds. '
                          'Executions are seeded random scenarios with seeded schedules in virtual time, so code behaviour outside them is not covered; '
                          'trusts the in-memory network, the source instrumenter and TLC.')})
    else:
        m['not_applicable'].append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'not built yet')})
m['notes'] = 'See DESIGN.md. All checks share tools/check.py; tools/suites.py says what each one runs. No hooks in /repo: the drivers are built from the working tree through a go overlay.'
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
