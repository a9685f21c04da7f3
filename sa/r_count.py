"""C36: the counts of what was explored."""
from .terms import *
from .engine import Ev, LoopObj
from .q import *
from . import r_solver as S
from . import r_dd as D
from .r_dd5 import read_at

SUB, NODES = 'explored', 'explored_dd'


def solvers(ctx):
    ctx.rule('C36.subproblem', 'on every path of a worker the number of explored subproblems grows by one for each critical section that makes the worker busy, and by nothing else')
    ctx.rule('C36.total', 'on every path of a worker the number of explored nodes grows by the count of every diagram compiled on that path, asked for after that compilation, once each, and by nothing else')
    ctx.rule('C36.start', 'a fresh solver counts nothing')
    ctx.rule('C36.getter', 'the counts returned are the stored ones')
    p = ctx.prog()
    for mo in S.models(ctx):
        for meth, fld_ in (('get_explored', SUB), ('get_explored_dd', NODES)):
            ids = p.find(name=meth, self_adt=mo.name)
            ctx.ob('C36.getter', '%s.%s found' % (mo.name, meth), len(ids) == 1, 'no such getter')
            for i in ids:
                e, outs = ctx.run(i, 'solver')
                for st, v in outs:
                    locks = [x for x in all_events([(st, v)], 'lock') if x.lkind == 'mutex']
                    ok = len(locks) > 0 and any(v is proj(x.content, fld_) for x in locks)
                    ctx.ob('C36.getter', '%s.%s' % (mo.name, meth), ok, 'returns %s' % short_show(v), p.bodies[i].get('span', ''))
        for meth, e, st, v in S.constructed(ctx, mo):
            c = S.critical_of(st, v)
            for f in (SUB, NODES):
                x = proj(c, f) if c is not None else None
                ctx.ob('C36.start', '%s::%s %s' % (mo.name, meth, f), x is Int(0), 'starts as %s' % (short_show(x) if x is not None else '?'))
    for mo, m in S.each(ctx):
        n = k = 0
        key = '%s.%s' % (mo.name, m)
        for st, v in mo.runs[m][1]:
            for q in enum_paths(st):
                for s in S.psections(mo, m, q):
                    for f in (SUB, NODES):
                        ctx.ob('C36.subproblem' if f == SUB else 'C36.total', key + ' outside', s.after(f) is s.before(f), 'a count changes outside the work of a worker', loc_of(s.end))
        for kind, start, q in S.worker_paths(mo, m):
            up, sub, tot, at = 0, {}, {}, None
            for s in S.psections(mo, m, q):
                if S.delta(s.before('ongoing'), s.after('ongoing')) == 1:
                    up += 1
                    at = s.end
                grow(sub, s.before(SUB), s.after(SUB))
                grow(tot, s.before(NODES), s.after(NODES))
            comp = [x for x in q.items if isinstance(x, Ev) and x.kind == 'compile']
            n += up
            k += len(comp)
            where = loc_of(at) if at is not None else (loc_of(comp[0]) if comp else '')
            ctx.ob('C36.subproblem', '%s %s' % (key, kind), sub == ({(): up} if up else {}), 'a worker that takes %d subproblem(s) counts %s' % (up, text(sub)), where)
            ask = {}
            for x in q.items:
                if isinstance(x, Ev) and x.kind == 'ddget' and x.name == 'get_explored':
                    ask[x.ret] = x
            own = [t for t in tot if t != () and t in ask]
            ok = len(own) == len(tot) == len(comp) and all(tot[t] == 1 for t in own)
            ctx.ob('C36.total', '%s %s' % (key, kind), ok, 'the nodes of %d diagram(s) are counted as %s' % (len(comp), text(tot)), where)
        ctx.ob('C36.subproblem', key + ' some', n > 0, 'no path takes a subproblem')
        ctx.ob('C36.total', key + ' some', k > 0, 'no path compiles a diagram')


def loc_of(x):
    return getattr(x, 'site', '') or ''


def grow(acc, a, b):
    x, cx = S.lin(a)
    y, cy = S.lin(b)
    for t, c in y.items():
        acc[t] = acc.get(t, 0) + c
    for t, c in x.items():
        acc[t] = acc.get(t, 0) - c
    acc[()] = acc.get((), 0) + cy - cx
    for t in [t for t in acc if not acc[t]]:
        del acc[t]


def text(d):
    return ' + '.join(('%s' % c if t == () else ('' if c == 1 else '%s * ' % c) + short_show(t)) for t, c in d.items()) or 'nothing'


def diagrams(ctx):
    ctx.rule('C36.reset', 'a compilation starts counting from zero')
    ctx.rule('C36.node', 'each node expanded is counted once, and nothing else is')
    p = ctx.prog()
    for dd in D.dds(ctx):
        pl = D.fld_place(dd, ('f', SUB))
        ids = p.find(name='get_explored', self_adt=dd.name)
        ctx.ob('C36.getter', dd.name + '.get_explored found', len(ids) == 1, 'no such getter')
        for i in ids:
            e, outs = ctx.run(i)
            for st, v in outs:
                ctx.ob('C36.getter', dd.name + '.get_explored', S.show(v).endswith('self.' + SUB) if hasattr(S, 'show') else show(v).endswith('self.' + SUB), 'returns %s' % short_show(v), p.bodies[i].get('span', ''))
        nodes = D.layer_loops(dd)
        mains = D.main_loops(dd)
        n = 0
        tally = {}      # node loop -> places that grow by one for each node expanded
        for lo in nodes:
            ps = {pl} | {h for h in lo.havoc}
            worst = None
            for b in lo.backs:
                for q in enum_paths(b, lo):
                    ex = sum(1 for x in q.items if D.is_expand(x))
                    n += ex
                    ps = {h for h in ps if S.delta(lo.head.read(h), read_at(q, len(q.items), b, h)) == ex}
                    d = S.delta(lo.head.read(pl), read_at(q, len(q.items), b, pl))
                    if d != ex:
                        worst = 'a node that is%s expanded changes the count by %s' % ('' if ex else ' not', d)
            tally[id(lo)] = ps
            still = all(S.delta(lo.head.read(pl), read_at(q, len(q.items), b, pl)) == 0 for b in lo.backs for q in enum_paths(b, lo))
            ctx.ob('C36.node', dd.name + ' counted', pl in ps or bool(ps) and still, worst, lo.site)
        ctx.ob('C36.node', dd.name + ' some', n > 0, 'no node is expanded')
        for lo in dd.loops:
            if lo in nodes or pl not in lo.havoc:
                continue
            for b in lo.backs:
                for q in enum_paths(b, lo):
                    ctx.ob('C36.node', dd.name + ' elsewhere', right(q, lo.head.read(pl), read_at(q, len(q.items), b, pl), nodes, tally),
                           'the count changes otherwise than by the nodes expanded', lo.site)
        for st, v in dd.outs:
            for q in enum_paths(st):
                ml = [x for x in q.items if isinstance(x, LoopObj) and x in mains]
                if len(ml) != 1:
                    continue
                i = q.index(ml[0])
                ctx.ob('C36.reset', dd.name, ml[0].pre.read(pl) is Int(0), 'counting starts from %s' % short_show(ml[0].pre.read(pl)), ml[0].site)
                ctx.ob('C36.node', dd.name + ' after', right(q.since(i + 1), ml[0].head.read(pl), read_at(q, len(q.items), st, pl), nodes, tally),
                       'the count changes after the last layer', ml[0].site)


def right(q, a, b, nodes, tally):
    """on this path the value grows from a to b by the nodes expanded in the loops on it"""
    inner = [x for x in q.items if isinstance(x, LoopObj) and x in nodes]
    want = [{}]
    for lo in inner:
        new = []
        for w in want:
            for h in tally[id(lo)]:
                x = dict(w)
                grow(x, lo.pre.read(h), lo.head.read(h))
                new.append(x)
        want = new
    have = {}
    grow(have, a, b)
    return have in want
