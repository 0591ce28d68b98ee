#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': [], 'not_applicable': [],
     'notes': 'TLA+ specifications in tla/, judged by TLC. No hooks in /repo: the code is observed through its public API, an interposed scheduler and compiler instrumentation.'}
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 run.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + i, 'evidence_file': 'evidence/%s.json' % i,
                            'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
    else: m['not_applicable'].append({'property': i, 'reason': checks.NOTYET.get(i, 'specification planned, check not built yet')})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
