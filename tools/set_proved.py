"""usage: set_proved.py ID...  -- mark properties as decided by the prover in tools/levels.json"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'levels.json')
d = json.load(open(p))
ref = d['L01']
for i in sys.argv[1:]:
    d[i] = dict(ref)
json.dump(d, open(p, 'w'), indent=1)
