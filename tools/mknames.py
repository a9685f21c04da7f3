#!/usr/bin/env python3
"""Writes sa/names.json: the field names the rules know, per struct (used to recognise renamed fields)."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, V)
sys.setrecursionlimit(50000)
from sa import base
from sa.base import Ctx
d, sh = base.extract()
c = Ctx(d, sh, 'C24')
out = {}
for prog in ('engineering', 'psp', 'srflp', 'tsptw'):
    for k, a in c.prog(prog).adts.items():
        if not a['enum']:
            out[k] = [[f[0], json.dumps(f[1])] for f in a['variants'][0][1]]
json.dump(out, open(os.path.join(V, 'sa', 'names.json'), 'w'), indent=0, sort_keys=True)
print(len(out), 'structs')
