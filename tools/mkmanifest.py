#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the registry of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from mpv import checks
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
out = {'version': 1, 'setup_cmd': 'python3 tools/selftest.py', 'checks': [], 'not_applicable': [],
       'notes': 'No hooks: the library is observed through its documented interface only. '
                'Seeds come from VERIF_SEED; a saved failure is re-run with check.py --replay FILE.'}
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        out['checks'].append({
            'property': i,
            'quick_cmd': 'VERIF_TIER=quick python3 check.py %s' % i,
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': checks.TECHNIQUE[i], 'level': 'exploration',
            'level_note': checks.NOTE})
    else:
        out['not_applicable'].append({'property': i, 'reason': 'check under construction'})
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(out['checks']), 'checks')
