#!/usr/bin/env python3
"""replay.py FILE: rebuilds the simulator named in a replay file from /repo's working tree and replays it. Exit 1 if it violates."""
import json, os, re, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sim'))
import build as B
text = open(sys.argv[1]).read()
sim = re.search(r'^plan.*\bsim=(\S+)', text, re.M).group(1)
cfg, kind = re.search(r'^plan.*\bbuild=(\S+)', text, re.M).group(1).split('-')
p = list(B.build_all([(sim, cfg, kind)]).values())[0]
r = subprocess.run([p, 'replay', sys.argv[1], '--verbose', '1'], stdout=subprocess.PIPE, text=True)
print(r.stdout, end='')
sys.exit(1 if json.loads(r.stdout.strip().split('\n')[-1])['violations'] else 0)
