#!/usr/bin/env python3
"""dump.py <Adt> <method> [max width of a line]: prints the loop tree and the paths of an entry point (development aid)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(50000)
from sa.base import *
from sa.q import *
W = int(sys.argv[3]) if len(sys.argv) > 3 else 170
d, sh = extract()
ctx = Ctx(d, sh, 'C01')
p = ctx.prog()
b = p.find(name=sys.argv[2], self_adt=sys.argv[1])

print(b)
e, outs = ctx.run(b[0])
seen = set()


def line(n, s):
    print('  ' * n + s[:W])


def facts(p):
    out = []
    for f in p.f.fs[:1]:
        for k, v in list(f.bl.items()):
            out.append('%s%s' % ('' if v else '!', short(k)))
    return ' & '.join(out)


def short(t):
    return show(t)


def walk(items, n):
    for it in items:
        if isinstance(it, Ev):
            line(n, repr(it))
        elif isinstance(it, LoopObj):
            line(n, '%r what=%s havoc=%s' % (it, it.what and [show(x) if isinstance(x, Term) else x for x in it.what], [show_place(q) for q in it.havoc]))
            if it in seen:
                continue
            seen.add(it)
            for b in it.backs:
                for q in enum_paths(b, it):
                    line(n + 1, '-- path')
                    walk(q.items, n + 2)


for st, v in outs:
    for q in enum_paths(st):
        line(0, '== path -> ' + show(v))
        walk(q.items, 1)
