#!/usr/bin/env python3
"""Writes MANIFEST.json from checks_conf.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks_conf import CHECKS
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = {}
checks = []
for p in props:
    if p not in CHECKS:
        continue
    c = CHECKS[p]
    checks.append(dict(property=p, quick_cmd='python3 check.py %s --tier quick' % p, thorough_cmd='python3 check.py %s --tier thorough' % p,
                       evidence_file='evidence/%s.json' % p, technique=c['technique'], level='exploration', level_note=c['note']))
na = [dict(property=p, reason=NA.get(p, 'not built yet')) for p in props if p not in CHECKS]
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='Every check compiles its monitors from /repo/include (and /repo/src) in a scratch directory and runs them; see DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
