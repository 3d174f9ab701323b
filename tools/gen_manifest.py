#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties that have a harness."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
have = {f[5:-3].upper() for f in os.listdir(V + '/sim/harness') if f.startswith('prop_') and f.endswith('.cc')}
have |= {f[5:-3].upper() for f in os.listdir(V + '/sim/py') if f.startswith('prop_')} if os.path.isdir(V + '/sim/py') else set()
NOTE = {}
exec(open(V + '/tools/notes.py').read())
NOT_APPLICABLE = {}
checks = [{
  "property": p,
  "quick_cmd": "./run_check.sh %s quick" % p,
  "thorough_cmd": "./run_check.sh %s thorough" % p,
  "technique": "deterministic simulation with fault injection: " + NOTE[p][0],
  "level": "exploration",
  "level_note": NOTE[p][1],
} for p in props if p in have]
m = {"version": 1,
     "setup_cmd": "./setup.sh",
     "checks": checks,
     "not_applicable": [{"property": p, "reason": NOT_APPLICABLE.get(p, "the simulated check for this property is not built yet")} for p in props if p not in have],
     "notes": "No hooks are needed in /repo: the seams are the compiler (basic-block tracing, interposed mutexes), libc I/O and the simulated third-party libraries. Each check builds from /repo's working tree into /verif/.build (git-ignored)."}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')
