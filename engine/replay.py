import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine.runner import Native
v = json.load(open(sys.argv[1]))
n = Native()
r = n.ask({'prop': v['property'], 'spec': v['spec'], 'param': v['param'], 'tier': v['tier'], 'values': v['values'] or {}})
print(json.dumps(r, indent=1))
n.close()
sys.exit(1 if r['status'] in ('fail', 'exc') else 0)
