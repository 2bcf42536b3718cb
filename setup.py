#!/usr/bin/env python3
"""Builds every simulator the checks use from the committed files and /repo."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sim'))
import build as B
from props import PROPS
ts = sorted({t for p in PROPS.values() for j in p['jobs'] for t in j['targets'] + j['thorough']} | {t for p in PROPS.values() for k in ('giant', 'giant_deep') for t, *_ in p.get(k, [])})
try:
    B.build_all([tuple(t.split('-')) for t in ts])
except B.BuildError as e:
    print(e)
    sys.exit(1)
print('built', len(ts), 'simulators')
