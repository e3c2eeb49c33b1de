#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of properties the prover covers."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {'C17': 'No contract within reach: the claim is about every unwinding path of every operation. The containers do not give the guarantee (a throwing element constructor in the middle of copy_data, clear_data or an in-place rehash leaves size and metadata inconsistent by design; no operation documents an exception guarantee), so the property as a user would like it does not hold for this code base and no small repair exists; all contracts are stated for element operations, hash, comparison and allocators that do not throw.'}
try:
    sys.path.insert(0, os.path.join(HERE, 'tools')); import levels
    L = levels.LEVELS
except ImportError:
    L = {}
checks = []
for i in ids:
    if i in NA: continue
    lv, tech, note = L.get(i, ('exploration', 'bounded stand-in: random histories of the real containers against a reference model', 'Bounded search only, no proof yet.'))
    checks.append({'property': i, 'quick_cmd': 'python3 tools/check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py ' + i,
                   'technique': tech, 'level': lv, 'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()]}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
