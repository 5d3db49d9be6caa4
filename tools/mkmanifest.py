#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules present."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = json.load(open(os.path.join(HERE, 'tools', 'level_notes.json')))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'vlib', 'props', i.lower() + '.py')):
        t, n = NOTE[i]
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=t, level='exploration', level_note=n))
    else:
        na.append(dict(property=i, reason='its check is not built yet'))
m = dict(version=1, setup_cmd='./check SELFTEST', checks=checks, not_applicable=na,
         notes='All checks share one engine (vlib/engine.py): generated cases with integrated shrinking, 8 shards, everything a function of VERIF_SEED. No hooks in /repo. ./replay FILE runs a saved case again.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
