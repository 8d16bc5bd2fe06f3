#!/usr/bin/env python3
"""MANIFEST.json from checks/registry.py and properties.jsonl"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from checks import registry  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    c = registry.CHECKS.get(p['id'])
    if c is None:
        na.append({'property': p['id'], 'reason': registry.NOT_APPLICABLE.get(p['id'], 'no check yet (work in progress)')})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 check.py %s quick' % p['id'],
        'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
        'technique': c.technique,
        'level': c.level,
        'level_note': c.note or registry.DEFAULT_NOTE,
    })
m = {'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': checks, 'not_applicable': na}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
