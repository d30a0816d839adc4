"""Replays a reported violation on the ordinary code:
python3-vt -m sx.replay evidence/replay/C01-0.json"""
import json
import sys

from .runner import Native

d = json.load(open(sys.argv[1]))
n = Native(d['property'], 30)
r = n.run(d['scenario'], d['values'])
n.close()
print(json.dumps(r, indent=1))
sys.exit(1 if r['failures'] or r['status'] in ('exception', 'timeout') else 0)
