"""Builds the extractor and the replay harness (checks rebuild them when needed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
os.makedirs(check.BUILD, exist_ok=True)
rc, _, err = check.build_vx()
if rc:
    sys.exit(err)
for prop in ('C21', 'C22', ''):
    exe, hooks, note = check.build_harness(prop)
print('extractor built; harness', exe, 'hooks', hooks)
sys.exit(0 if exe else note)
