#!/usr/bin/env python3
"""Writes MANIFEST.json from mc/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'mc'))
from registry import CHECKS, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    if p not in CHECKS: continue
    c = CHECKS[p]
    checks.append(dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p,
                       evidence_file='evidence/%s.json' % p, technique=c['technique'], level='model_checking', level_note=c['note']))
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, 'machinery for this property is not built yet')) for p in props if p not in CHECKS]
m = dict(version=1, setup_cmd='sh tools/setup.sh', checks=checks, not_applicable=na,
         notes='Stateless model checking of the real library: every check compiles /repo/src with its own flags and enumerates executions exhaustively inside the bounds written in DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
