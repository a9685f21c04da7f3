#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, V)
from sa.registry import CHECKS
try:
    from sa.registry import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[])
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m['checks'].append(dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='python3 check.py ' + p,
                                technique=c['technique'], level=c['level'], level_note=c['note'] or c['how']))
    else:
        m['not_applicable'].append(dict(property=p, reason=NOT_APPLICABLE.get(p, 'check not built yet')))
m['notes'] = 'No hooks: the checks analyse the unmodified source through a rustc wrapper (driver/) and an abstract interpreter (sa/).'
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not')
