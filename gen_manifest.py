#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry (run by hand after the registry changes)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from gcsv import registry  # noqa
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    lv = registry.LEVEL.get(i)
    if lv is None:
        na.append({'property': i, 'reason': registry.NA.get(i, 'no contract yet')})
        continue
    checks.append({
        'property': i,
        'quick_cmd': f'python3 check.py {i} --tier quick',
        'thorough_cmd': f'python3 check.py {i} --tier thorough',
        'technique': lv[2] if len(lv) > 2 else registry.TECHNIQUE,
        'level': lv[0],
        'level_note': lv[1] + '. ' + registry.TRUST})
m = {'version': 1, 'setup_cmd': 'python3 setup_check.py', 'checks': checks, 'not_applicable': na,
     'notes': 'Contract-based deductive verification of the Python source by gcsv (symbolic execution of the current AST, '
              'contracts in gcsv/contracts, z3). See DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
