"""Records shape and local names of every function under contract (run on the unchanged tree)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vx import assemble
from vx.units import UNITS
if os.path.exists(assemble.BASE):
    os.remove(assemble.BASE)
out = {}
for p, spec in UNITS.items():
    u = assemble.Unit(spec, spec.get('modes', ['accept'])[0])
    u.build()
    for f, s in u.shapes.items():
        out[f] = {'shape': s, 'names': u.names[f], 'ops': u.ops[f], 'calls': u.calls[f]}
json.dump(out, open(assemble.BASE, 'w'), indent=0, sort_keys=True)
print(len(out), 'functions')
