#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks = []
for p in props:
    c = CHECKS.get(p['id'])
    if not c: continue
    checks.append(dict(property=p['id'], quick_cmd='python3 run.py %s --tier quick' % p['id'], thorough_cmd='python3 run.py %s --tier thorough' % p['id'],
        technique=c['technique'], level=c['level'], level_note='Complete within the bounds: ' + c['note'] + '. Trusts: the reference model in the harness, ' + '; '.join(c['assumptions']) + '.'))
na = [dict(property=p['id'], reason='check not built yet') for p in props if p['id'] not in CHECKS]
json.dump(dict(version=1, setup_cmd='python3 run.py --setup', checks=checks, not_applicable=na,
    notes='Every check rebuilds the library from /repo and explores the real code; see DESIGN.md. No hooks in /repo.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
