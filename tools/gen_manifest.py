#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from vc/props.py and properties.jsonl."""
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vc import props
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for p in ids:
    if p in props.PROPS:
        P = props.PROPS[p]
        checks.append(dict(property=p, quick_cmd='python3-vt check.py %s --tier quick' % p, thorough_cmd='python3-vt check.py %s --tier thorough' % p,
                           technique='contract-based deductive verification (node contracts on the real templates, inductive loop summaries; normal-form prover + SMT; replay of refutations)',
                           level=P.get('level', 'proof'), level_note=P.get('note', props.NOTE)))
    else: na.append(dict(property=p, reason=NA.get(p, 'check under construction')))
json.dump(dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
