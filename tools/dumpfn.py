#!/usr/bin/env python3
"""dumpfn.py <Adt> <method>: every path of a method: events, facts, loops (development aid)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sa import base
from sa.base import Ctx
from sa.terms import *
from sa import q as Q
from sa.engine import Ev
W = int(sys.argv[3]) if len(sys.argv) > 3 else 110
prog = sys.argv[4] if len(sys.argv) > 4 else 'engineering'
d, sh = base.extract()
c = Ctx(d, sh, 'C24')


def path(P, ind=''):
    for x in P.items:
        if isinstance(x, Ev):
            if x.kind in ('uarith', 'enter', 'leave', 'next'):
                continue
            print(ind, x.kind, x.site.split('/')[-1], {k: (show(v) if isinstance(v, (Term, tuple)) else str(v))[:W] for k, v in x.d.items() if k not in ('args', 'old')})
        elif x.kind == 'loop':
            print(ind, 'LOOP', x.site, x.tag)
    print(ind, ' facts', [y[:W] for f in P.f.fs for y in f.dump()])


for f in c.prog(prog).find(self_adt=sys.argv[1], name=sys.argv[2]):
    e, outs = c.run(f, prog=prog)
    print('=====', f, len(outs))
    for st, v in outs:
        for P in Q.enum_paths(st):
            print('-- path ret', show(v)[:300])
            path(P)
    for lo in Q.all_loops(outs):
        print('== loop', lo.site, len(lo.backs))
        for b in lo.backs:
            for P in Q.enum_paths(b, stop=lo):
                print(' -- iteration')
                path(P, '    ')
