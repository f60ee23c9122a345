#!/usr/bin/env python3
"""Write MANIFEST.json from sim/worlds.py and properties.jsonl."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/sim')
from worlds import CHECKS, WORLDS, NOTES, NOT_APPLICABLE  # noqa: E402

props = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl') if l.strip()]
checks = []
for p in props:
    if p in CHECKS:
        checks.append({
            'property': p,
            'quick_cmd': 'python3 check.py %s quick' % p,
            'thorough_cmd': 'python3 check.py %s thorough' % p,
            'technique': 'deterministic simulation with fault injection: ' + NOTES[p][0],
            'level': 'exploration',
            'level_note': NOTES[p][1],
        })
na = [{'property': p, 'reason': NOT_APPLICABLE.get(p, 'no check built yet')} for p in props if p not in CHECKS]
hooks = {'guard': 'EMBC_DST', 'enable': 'check.py compiles the sources of /repo with -DEMBC_DST', 'source_commits': ['5e8b2ec']}
m = {'version': 1, 'setup_cmd': 'python3 check.py build', 'hooks': hooks, 'checks': checks, 'not_applicable': na}
with open(HERE + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
