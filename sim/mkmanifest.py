#!/usr/bin/env python3
"""Writes ../MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from props import PROPS, NOTES, NA
ids = [json.loads(l)['id'] for l in open(os.path.join(H, '..', 'properties.jsonl'))]
checks = []
for i in ids:
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough', evidence_file=f'evidence/{i}.json',
                           technique='deterministic simulation with fault injection: ' + PROPS[i]['how'], level='exploration', level_note=PROPS[i]['note']))
na = [dict(property=i, reason=NA.get(i, 'the simulator for this part is not finished; nothing is claimed')) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=na, notes=NOTES), open(os.path.join(H, '..', 'MANIFEST.json'), 'w'), indent=1)
