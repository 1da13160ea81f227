#!/usr/bin/env python3
"""Writes MANIFEST.json from the rule registry and tools/not_applicable.txt (ID | reason)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.rules import REGISTRY
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
na = {}
fn = os.path.join(HERE, 'tools', 'not_applicable.txt')
if os.path.exists(fn):
    for l in open(fn):
        if '|' in l:
            k, r = l.split('|', 1)
            na[k.strip()] = r.strip()
checks = []
for p in props:
    if p in REGISTRY:
        s = REGISTRY[p]
        checks.append({'property': p, 'quick_cmd': 'python3 check.py %s' % p, 'thorough_cmd': 'python3 check.py %s --thorough' % p,
                       'technique': s.technique, 'level': s.level,
                       'level_note': 'static: ' + s.explanation + ((' Assumes: ' + '; '.join(s.assumptions) + '.') if s.assumptions else '')})
miss = [p for p in props if p not in REGISTRY and p not in na]
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': na.get(p, 'no static rule for it yet')} for p in props if p not in REGISTRY],
     'notes': 'All checks parse and analyse the current source of /repo; none runs it. known_findings.txt lists recorded defects.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks; without rule:', ' '.join(miss))
