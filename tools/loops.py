#!/usr/bin/env python3
"""loops.py <Adt> <method>: loop tree with what, exits, number of paths; loops.py <Adt> <method> <line:col> prints body paths compactly."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(50000)
from sa.base import *
from sa.q import *
d, sh = extract()
ctx = Ctx(d, sh, 'C01')
p = ctx.prog()
e, outs = ctx.run(p.find(name=sys.argv[2], self_adt=sys.argv[1])[0])
if len(sys.argv) == 3:
    for lo in all_loops(outs):
        n = sum(len(enum_paths(b, lo)) for b in lo.backs)
        print(lo.site, n, 'what=%s' % (lo.what and [show(x)[:150] if isinstance(x, Term) else x for x in lo.what]))
    print(len(outs), 'outs')
else:
    lo = [l for l in all_loops(outs) if l.site.endswith(sys.argv[3])][0]
    W = int(sys.argv[4]) if len(sys.argv) > 4 else 200
    N = int(sys.argv[5]) if len(sys.argv) > 5 else 99
    for b in lo.backs:
        for q in enum_paths(b, lo):
            N -= 1
            if N < 0: sys.exit()
            print('-- path')
            for it in q.items:
                print('   ', (repr(it) if isinstance(it, Ev) else '%r %s' % (it, it.what and [show(x)[:100] if isinstance(x, Term) else x for x in it.what]))[:W])
            for k, v in q.f.fs[0].bl.items(): print('     bl', v, show(k)[:W])
            for k, v in q.f.fs[0].rel.items(): print('     rel', v, show(k[0])[:W], '|', show(k[1])[:W])
            for k, v in q.f.fs[0].var.items(): print("     var", str(v)[:60], show(k)[:W])
