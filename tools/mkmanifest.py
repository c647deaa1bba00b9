#!/usr/bin/env python3
"""Regenerates MANIFEST.json from vp/registry.py. Run: python3 tools/mkmanifest.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vp.registry import RULES, INFO, NA
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []; na = []
for p in props:
    if p in RULES:
        t, note = INFO[p]
        checks.append(dict(property=p, quick_cmd='python3 -m vp.check %s quick' % p, thorough_cmd='python3 -m vp.check %s thorough' % p,
                           evidence_file='evidence/%s.json' % p, technique=t, level=RULES[p][2], level_note=note))
    else: na.append(dict(property=p, reason=NA.get(p, 'Not claimed: no check of this property has been built yet.')))
m = dict(version=1, setup_cmd='python3 -m vp.setup', checks=checks, not_applicable=na,
         notes='All checks are static: they parse /repo\'s current sources with a clang-based dumper and analyse the resolved syntax tree; nothing of the library is executed. No hooks in /repo.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
