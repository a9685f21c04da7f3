"""C28: equality and hashing of the example states."""
from .terms import *
from .engine import Ev, LoopObj
from .q import *

EXAMPLES = ('psp', 'srflp', 'tsptw')


def adts_in(ty):
    if isinstance(ty, list):
        if len(ty) > 1 and ty[0] == 'adt':
            yield ty[1]
        for x in ty:
            yield from adts_in(x)


def state_types(p):
    """the local types a state of the problem is made of, the state first"""
    todo = []
    for fid in sorted(p.find(name='initial_state', trait='Problem')):
        todo += adts_in(p.bodies[fid]['locals'][0][0])
    out = []
    while todo:
        t = todo.pop(0)
        if t in p.adts and t not in out and t.split('::')[0] in EXAMPLES:
            out.append(t)
            for v in p.adts[t]['variants']:
                for f in v[1]:
                    todo += adts_in(f[1])
    return out


def parts(a, b):
    """pairs of which the equality of a and b consists"""
    if a.op == 'agg' and b.op == 'agg' and a.args[:3] == b.args[:3]:
        for x, y in zip(a.args[3], b.args[3]):
            yield from parts(x, y)
    else:
        yield a, b


def eq_rule(ctx, p, adt):
    short = adt.split('::')[-1]
    prog = adt.split('::')[0]
    what0 = '%s::%s' % (prog, short)
    ids = [x for x in p.find(name='eq', trait='PartialEq', self_adt=short) if p.bodies[x]['self'][1] == adt]
    ctx.ob('C28.impl', what0 + ' eq', len(ids) == 1, 'no equality to analyse')
    for fid in ids:
        one_eq(ctx, p, adt, fid, what0 + ' ==', True, prog)
    for fid in p.find(name='ne', trait='PartialEq', self_adt=short):
        if p.bodies[fid]['self'][1] == adt:
            one_eq(ctx, p, adt, fid, what0 + ' !=', False, prog)


def one_eq(ctx, p, adt, fid, what, sense, prog):
    site = p.bodies[fid].get('span', '')
    a = p.adts[adt]
    eng, outs = ctx.run(fid, prog=prog)
    n = 0
    for st, ret in outs:
        loops = [x for q in enum_paths(st) for x in q.items if isinstance(x, LoopObj)]
        for q in enum_paths(st):
            for outcome in (True, False):
                fs = [f.copy() for f in q.f.fs] or [Facts()]
                if not all(f.assume(ret, outcome) for f in fs):
                    continue
                n += 1
                if outcome == sense:
                    for s in missing(p, a, fs):
                        ctx.ob('C28.all', what + ' ' + s, False, 'two values are equal on a path that does not compare %s' % s, site)
                else:
                    ctx.ob('C28.only', what, difference(fs), 'two values differ on a path on which no field is known to differ', site)
    for v in a['variants']:
        for f in v[1]:
            ctx.ob('C28.all', '%s %s' % (what, field_name(a, v, f)), True, '', site)
    ctx.ob('C28.all', what + ' some', n >= 2, 'the equality never tells anything apart', site)


def field_name(a, v, f):
    return f[0] if not a['enum'] else '%s.%s' % (v[0], f[0])


def missing(p, a, fs, prefix=()):
    """fields not known to be equal"""
    pairs, discr, vs = set(), set(), {}
    for f in fs:
        for (x, y), m in f.rel.items():
            if m != EQ:
                continue
            for u, v in parts(x, y):
                k = same_place(u, v)
                if k is not None:
                    pairs.add(k)
                if u.op == v.op == 'discr' and same_place(u.args[0], v.args[0]) is not None:
                    discr.add(same_place(u.args[0], v.args[0]))
        for t, (k, s) in f.var.items():
            if t.op == 'init' and k == 'is':
                vs.setdefault(t.args[0][1], {})[t.args[0][0]] = s
    return list(gaps(p, a, (), pairs, discr, vs))


def gaps(p, a, at, pairs, discr, vs):
    if at in pairs:
        return
    known = vs.get(at, {})
    names = set(known.values())
    if a['enum'] and (len(names) > 1 or at not in discr and len(known) < 2):
        yield 'the variant' if not at else 'the variant of ' + at[-1][-1]
        return
    for v in a['variants']:
        if a['enum'] and names and v[0] not in names:
            continue
        for f in v[1]:
            q = at + ((('v', v[0]),) if a['enum'] else ()) + (('f', f[0]),)
            if q in pairs:
                continue
            inner = p.adts.get(f[1][1]) if f[1][0] == 'adt' else None
            if inner and not list(gaps(p, inner, q, pairs, discr, vs)):
                continue
            yield field_name(a, v, f)


def same_place(u, v):
    """the projection both terms read, one in each operand"""
    if u.op == v.op == 'ref':
        u, v = T('init', u.args[0]), T('init', v.args[0])
    if u.op == 'init' and v.op == 'init' and u.args[0][0] != v.args[0][0] and u.args[0][1] == v.args[0][1]:
        return tuple(u.args[0][1])
    return None


def difference(fs):
    """some part of one operand is known to differ from the same part of the other"""
    vs = {}
    for f in fs:
        for (x, y), m in f.rel.items():
            if m & EQ:
                continue
            for u, v in parts(x, y):
                if mirrored(u, v):
                    return True
        if any(not v and unequal(t) for t, v in f.bl.items()):
            return True
        for t, (k, s) in f.var.items():
            if t.op == 'init':
                vs.setdefault(t.args[0][1], {}).setdefault(t.args[0][0], set()).add((k, s if k == 'is' else frozenset(s)))
    for projs, d in vs.items():
        if len(d) == 2:
            (x, y) = d.values()
            for k, s in x:
                for k2, s2 in y:
                    if k == 'is' and (k2 == 'is' and s != s2 or k2 == 'not' and s in s2) or k == 'not' and k2 == 'is' and s2 in s:
                        return True
    return False


def unequal(t):
    """when this conjunction fails, some part differs"""
    if t.op == 'bin' and t.args[0] == 'BitAnd':
        return unequal(t.args[1]) and unequal(t.args[2])
    return t.op == 'bin' and t.args[0] == 'Eq' and all(mirrored(u, v) for u, v in parts(t.args[1], t.args[2]))


def mirrored(u, v):
    """the two terms are the same function of the two operands"""
    if u is v:
        return True
    if not isinstance(u, Term) or not isinstance(v, Term):
        if isinstance(u, tuple) and isinstance(v, tuple):
            return len(u) == len(v) and all(mirrored(x, y) for x, y in zip(u, v))
        return u == v
    if u.op != v.op:
        return False
    if u.op in ('init', 'ref'):
        return u.args[0][1] == v.args[0][1]
    return len(u.args) == len(v.args) and all(mirrored(x, y) for x, y in zip(u.args, v.args))


# ------------------------------------------------------------------ hashing
PLACE_CALLS = ('capacity', 'as_ptr', 'as_mut_ptr', 'addr', 'expose_provenance', 'strong_count', 'weak_count', 'ptr_eq')


def content(t):
    """the term depends on nothing but the contents of the value hashed (None), or what else"""
    for x in subterms(t):
        if not isinstance(x, Term):
            continue
        if x.op in ('fresh', 'havoc'):
            return short_show(x)
        if x.op == 'call' and any(w in str(x.args[0]).split('::')[-1] for w in PLACE_CALLS):
            return short_show(x)
        if x.op == 'cast' and any(y.op in ('ref', 'ptr', 'raw') for y in x.args if isinstance(y, Term)):
            return short_show(x)
    return None


def hash_rule(ctx, p, adt):
    short = adt.split('::')[-1]
    prog = adt.split('::')[0]
    what = '%s::%s' % (prog, short)
    ids = [x for x in p.find(name='hash', trait='Hash', self_adt=short) if p.bodies[x]['self'][1] == adt]
    ctx.ob('C28.impl', what + ' hash', len(ids) == 1, 'no hash to analyse')
    for fid in ids:
        site = p.bodies[fid].get('span', '')
        eng, outs = ctx.run(fid, prog=prog)
        n = 0
        for st, ret in outs:
            for q in enum_paths(st):
                for e in all_events([(st, ret)], 'call'):
                    if True:
                        isw = '.write' in e.name or e.name.split('::')[-1].startswith('write') or e.name.startswith('Hash::')
                        if isw:
                            n += 1
                            vs = e.vals[:1] if e.name.startswith('Hash::hash') else e.vals[1:]
                            for v in vs:
                                bad = content(v)
                                ctx.ob('C28.hash', '%s' % what, bad is None, 'the hash depends on %s' % bad, e.site)
                for f in q.f.fs:
                    for t in list(f.bl) + [x for k in f.rel for x in k] + list(f.var):
                        bad = content(t)
                        ctx.ob('C28.hash', '%s branch' % what, bad is None, 'what is hashed depends on %s' % bad, site)
        ctx.ob('C28.hash', what + ' some', n > 0, 'nothing is hashed', site)


def states(ctx):
    n = 0
    for prog in EXAMPLES:
        p = ctx.prog(prog)
        ts = state_types(p)
        ctx.ob('C28.types', prog, len(ts) >= 1, 'the state type was not found')
        for adt in ts:
            n += 1
            eq_rule(ctx, p, adt)
            hash_rule(ctx, p, adt)
    ctx.ob('C28.types', 'some', n >= 5, 'only %d types were found' % n)
