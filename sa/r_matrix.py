"""C30: the matrix."""
import itertools
from .terms import *
from .engine import Ev, LoopObj
from .q import *

PROGS = ('engineering', 'psp')


def dim(root, name):
    return T('init', (root, (('f', name),)))


def linear(t, eqs=()):
    """a term as a sum of products: {sorted factor tuple: coefficient}"""
    for a, b in eqs:
        if t is a:
            t = b
    if t.op == 'int':
        return {(): int(t.args[0])} if int(t.args[0]) else {}
    if t.op == 'bin' and t.args[0] in ('Add', 'Sub'):
        a, b = linear(t.args[1], eqs), linear(t.args[2], eqs)
        s = 1 if t.args[0] == 'Add' else -1
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + s * v
            if not r[k]:
                del r[k]
        return r
    if t.op == 'bin' and t.args[0] == 'Mul':
        r = {}
        for (k, v), (l, w) in itertools.product(linear(t.args[1], eqs).items(), linear(t.args[2], eqs).items()):
            x = tuple(sorted(k + l, key=lambda y: y.id))
            r[x] = r.get(x, 0) + v * w
            if not r[x]:
                del r[x]
        return r
    return {(t,): 1}


def prod(*ts):
    return tuple(sorted(ts, key=lambda y: y.id))


def constants(st):
    """the terms known to be a constant"""
    out = []
    for (a, b), m in st.facts.rel.items():
        if m == EQ and (a.op == 'int') != (b.op == 'int'):
            out.append((b, a) if a.op == 'int' else (a, b))
    return out


def layouts(n, m, r, c, eqs=()):
    """the two ways of laying out n rows and m columns"""
    def s(*xs):
        d = {}
        for x in xs:
            d[x] = d.get(x, 0) + 1
        return d
    if eqs:
        return {'by rows': linear(Bin('Add', Bin('Mul', m, r), c), eqs), 'by columns': linear(Bin('Add', Bin('Mul', n, c), r), eqs)}
    return {'by rows': s(prod(m, r), prod(c)), 'by columns': s(prod(n, c), prod(r))}


def implied(f, valid, inside=None):
    """atoms of the path condition that validity does not imply: [(key, polarity)], or None if it contradicts them"""
    g = Facts()
    for a, b in valid:
        g.assume(Bin('Lt', a, b), True)
    out = []
    for (a, b), m in f.rel.items():
        k = g.rel_of(a, b)
        if a.op == 'int' and b.op != 'int' or b.op == 'int':
            x, z = (b, a) if a.op == 'int' else (a, b)
        if k is not None and not k & m:
            return None
        if k is not None and k | m == m:
            continue
        if zero_below(a, b, m, valid):
            continue
        if inside is not None and (inside(a, b) and m & LT and not m & EQ or inside(b, a) and m & GT and not m & EQ):
            continue
        out.append((('rel', a, b), m))
    for t, v in f.var.items():
        out.append((('var', t), v))
    for t, v in f.bl.items():
        out.append((('bl', t), v))
    return out


def zero_below(a, b, m, valid):
    """0 <= x for an unsigned x, and 0 < the extent of a valid index"""
    if a.op == 'int' and int(a.args[0]) == 0:
        return m & (LT | EQ) == LT | EQ or m == LT and any(b is y for x, y in valid) or m == LT | GT and any(b is y for x, y in valid)
    if b.op == 'int' and int(b.args[0]) == 0:
        return m & (GT | EQ) == GT | EQ or m in (GT, LT | GT) and any(a is y for x, y in valid)
    return False


def surviving(outs, valid, inside=None):
    """the paths a valid index can take; True if together they cover every valid index"""
    live, conds = [], []
    for st, ret in outs:
        for q in enum_paths(st):
            atoms, ok = [], True
            for f in q.f.fs:
                x = implied(f, valid, inside)
                if x is None:
                    ok = False
                    break
                atoms += x
            if ok:
                live.append((st, ret))
                conds.append(dict(atoms))
    keys = []
    for c in conds:
        for k in c:
            if k not in keys:
                keys.append(k)
    if len(keys) > 8:
        return live, False
    vals = {}
    for k in keys:
        if k[0] == 'rel':
            vals[k] = (LT, EQ, GT)
        elif k[0] == 'bl':
            vals[k] = (True, False)
        else:
            names = set()
            for c in conds:
                if k in c:
                    kind, s = c[k]
                    names |= {s} if kind == 'is' else set(s)
            vals[k] = tuple(names) + (None,)

    def holds(k, want, have):
        if k[0] == 'rel':
            return bool(want & have)
        if k[0] == 'bl':
            return want == have
        return have == want[1] if want[0] == 'is' else have not in want[1]
    cover = all(any(all(holds(k, w, a[k]) for k, w in c.items()) for c in conds)
                for a in (dict(zip(keys, xs)) for xs in itertools.product(*(vals[k] for k in keys)))) if conds else False
    return live, cover


def rules(ctx):
    n = 0
    for prog in PROGS:
        p = ctx.prog(prog)
        for adt, a in sorted(p.adts.items()):
            if adt.split('::')[-1] == 'Matrix' and adt.split('::')[0] == prog:
                n += 1
                matrix(ctx, p, prog, adt)
    ctx.ob('C30.some', 'matrix types', n >= 1, 'no matrix was found')


def methods(p, adt, name, trait=None):
    return [f for f in p.find(name=name, trait=trait) if p.bodies[f].get('self') and p.bodies[f]['self'][0] == 'adt' and p.bodies[f]['self'][1] == adt]


def matrix(ctx, p, prog, adt):
    lay = {}
    for name, trait in (('index', 'Index'), ('index_mut', 'IndexMut')):
        ids = methods(p, adt, name, trait)
        ctx.ob('C30.impl', '%s %s' % (prog, name), len(ids) == 1, 'no %s to analyse' % name)
        for fid in ids:
            site = p.bodies[fid].get('span', '')
            eng, outs = ctx.run(fid, prog=prog)
            root = ('ptr', T('sym', arg_name(eng, p, fid, 0)))
            nn, mm = dim(root, 'n'), dim(root, 'm')
            ix = T('sym', arg_name(eng, p, fid, 1))
            r, c = T('fld', ix, '0'), T('fld', ix, '1')

            def inside(at, end):
                """the position of a valid cell is below the number of cells"""
                return end is T('init', (root, (('f', 'data'), ('f', '#len')))) and linear(at) in layouts(nn, mm, r, c).values()
            live, cover = surviving(outs, [(r, nn), (c, mm)], inside)
            ctx.ob('C30.total', '%s %s' % (prog, name), cover, 'some valid index is not answered', site)
            for st, ret in live:
                at = position(ret, root)
                eqs = constants(st)
                ls = [k for k, v in layouts(nn, mm, r, c, eqs).items() if at is not None and linear(at, eqs) == v]
                ctx.ob('C30.position', '%s %s' % (prog, name), bool(ls),
                       'the cell of a valid index is %s, which is neither row * columns + column nor column * rows + row' % (short_show(at) if at is not None else short_show(ret)), site)
                if not eqs or not ls:
                    lay.setdefault(ls[0] if ls else None, []).append(name)
            ctx.ob('C30.position', '%s %s some' % (prog, name), bool(live), 'no path answers a valid index', site)
    ctx.ob('C30.same', prog, len(lay) == 1, 'reads and writes use different positions: %s' % sorted((str(k), sorted(set(v))) for k, v in lay.items()))
    kinds = set(lay)
    construction(ctx, p, prog, adt)
    for name in ('row', 'row_mut', 'col', 'col_mut'):
        for fid in methods(p, adt, name):
            iteration(ctx, p, prog, name, fid, kinds)


def arg_name(eng, p, fid, i):
    b = eng.prog.body(fid)
    return b.locals[i + 1][1] or 'arg%d' % (i + 1)


def position(ret, root):
    if ret.op != 'ref':
        return None
    r, projs = ret.args[0]
    if r == root and len(projs) == 2 and projs[0] == ('f', 'data') and projs[1][0] == 'i' and isinstance(projs[1][1], Term):
        return projs[1][1]


def construction(ctx, p, prog, adt):
    n = 0
    for fid, b in sorted(p.bodies.items()):
        if not (b.get('self') and b['self'][0] == 'adt' and b['self'][1] == adt) or b.get('trait') or b.get('derived'):
            continue
        ty = b['locals'][0][0]
        if not (ty[0] == 'adt' and ty[1] == adt):
            continue
        n += 1
        site = b.get('span', '')
        eng, outs = ctx.run(fid, prog=prog)
        for st, ret in outs:
            ok, why = False, 'what is built is not recognised: %s' % short_show(ret)
            if ret.op == 'agg':
                d = dict(zip(ret.args[2], ret.args[3]))
                ln = length(d.get('data'), st)
                if {'n', 'm', 'data'} <= set(d) and ln is not None:
                    ok = linear(ln) == linear(Bin('Mul', d['m'], d['n']))
                    why = 'a matrix of %s rows and %s columns is given %s cells' % (show(d['n']), show(d['m']), show(ln))
            ctx.ob('C30.storage', '%s %s' % (prog, b['name']), ok, why, site)
        ctx.ob('C30.storage', '%s %s some' % (prog, b['name']), bool(outs), 'the constructor never returns', site)
    ctx.ob('C30.storage', prog + ' some', n >= 1, 'no constructor was found')


def length(t, st):
    if t is None:
        return None
    if t.op == 'vecrep':
        return t.args[-1]
    if t.op == 'with':
        for k, v in t.args[1]:
            if k == (('f', '#len'),):
                return v
    return None


def iteration(ctx, p, prog, name, fid, kinds):
    site = p.bodies[fid].get('span', '')
    eng, outs = ctx.run(fid, prog=prog)
    root = ('ptr', T('sym', arg_name(eng, p, fid, 0)))
    nn, mm = dim(root, 'n'), dim(root, 'm')
    i = T('sym', arg_name(eng, p, fid, 1))
    rows = name.startswith('row')
    live, cover = surviving(outs, [(i, nn if rows else mm)])
    what = '%s %s' % (prog, name)
    if not live and not outs:
        ctx.ob('C30.total', what + ' never returns', False, 'iterating over a %s fails whatever its number: every path ends in a failed assertion' % ('row' if rows else 'column'), site)
        return
    ctx.ob('C30.total', what, cover, 'iterating over a valid %s fails' % ('row' if rows else 'column'), site)
    for st, ret in live:
        ok, why = False, 'what is iterated over is not recognised: %s' % short_show(ret)
        if ret.op == 'it' and ret.args[0] == 'vec' and not ret.args[2]:
            (r, projs) = ret.args[1]
            if r == root and len(projs) == 2 and projs[0] == ('f', 'data') and projs[1][0] == 'sl':
                lo, ln = projs[1][2], st.read((r, projs + (('f', '#len'),)))
                ok = rows and kinds == {'by rows'} and linear(lo) == {prod(mm, i): 1} and linear(ln) == {(mm,): 1} or \
                    not rows and kinds == {'by columns'} and linear(lo) == {prod(nn, i): 1} and linear(ln) == {(nn,): 1}
                why = 'the cells %s.. (%s of them) are not those of the %s' % (show(lo), show(ln), 'row' if rows else 'column')
        elif ret.op == 'it' and ret.args[0] == 'range' and len(ret.args[2]) == 1 and ret.args[2][0][0] == 'map':
            rng, cl = ret.args[1], ret.args[2][0][1]
            ok, why = mapped(ctx, p, prog, rng, cl, root, i, rows, kinds)
        ctx.ob('C30.iterate', what, ok, why, site)
    ctx.ob('C30.iterate', what + ' some', bool(live), 'no path iterates', site)


def mapped(ctx, p, prog, rng, cl, root, i, rows, kinds):
    nn, mm = dim(root, 'n'), dim(root, 'm')
    want = mm if rows else nn
    if rng.op != 'agg' or [show(x) for x in rng.args[3]] != ['0', show(want)]:
        return False, 'the range is %s' % show(rng)
    cid = cl.args[0]
    eng, outs = ctx.run(cid, prog=prog)
    b = eng.prog.body(cid)
    caps = cl.args[1]
    j = T('sym', arg_name(eng, p, cid, 1))
    env = ('ptr', T('sym', arg_name(eng, p, cid, 0)))

    def back(t):
        """the closure's term in the terms of the method"""
        if t.op == 'init':
            (r, projs) = t.args[0]
            if r == env and projs and projs[0][0] == 'f' and str(projs[0][1]).isdigit() and int(projs[0][1]) < len(caps):
                v = caps[int(projs[0][1])]
                return v if len(projs) == 1 else T('init', (('ptr', v), projs[1:]))
            if r[0] == 'ptr' and isinstance(r[1], Term):
                return T('init', (('ptr', back(r[1])), projs))
            return t
        if t.op == 'bin':
            return Bin(t.args[0], back(t.args[1]), back(t.args[2]))
        return t
    r, c = (i, j) if rows else (j, i)
    lay = layouts(nn, mm, r, c)
    seen = False
    for st, ret in outs:
        at = None
        if ret.op == 'ref' and len(ret.args[0][1]) == 2 and ret.args[0][1][0] == ('f', 'data') and ret.args[0][1][1][0] == 'i':
            at = ret.args[0][1][1][1]
        else:
            for q in enum_paths(st):
                for e in q.items:
                    if isinstance(e, Ev) and e.kind == 'call' and e.name.endswith('::add'):
                        at = e.vals[1]
        if at is None:
            return False, 'the cell %s is not recognised' % short_show(ret)
        if not any(linear(back(at)) == lay[k] for k in kinds if k):
            return False, 'the cell visited is %s' % show(back(at))
        seen = True
    return seen, 'no cell is visited'
