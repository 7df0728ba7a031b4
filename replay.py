#!/usr/bin/env python3
"""replay.py FILE: runs the failing case of a replay file on /repo's current tree."""
import json, sys
import check
r = json.load(open(sys.argv[1]))
if 'family' not in r:
    for e in r['failed_obligations']:
        print(e['text'])
    sys.exit(1)
exe, hooks, note = check.build_harness(r['property'])
if exe is None:
    sys.exit(note)
rc, _, err = check.sh([exe, 'case', r['property'], r['family'], str(r['index'])], timeout=300)
print(err.strip())
sys.exit(1 if rc else 0)
