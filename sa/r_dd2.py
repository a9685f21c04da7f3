"""Rules about paths, cutsets, local bounds and thresholds of the decision diagrams (C08, C14, C16-C18, C20, C32)."""
from .r_dd import *
from .engine import project


def scopes_of(outs):
    """[(loop or None, path)] of one run"""
    out = []
    for st, v in outs:
        for q in enum_paths(st):
            out.append((None, q))
    for lo in all_loops(outs):
        for b in lo.backs:
            for q in enum_paths(b, lo):
                out.append((lo, q))
    return out


def id_of(t):
    """index inside Some(NodeId/EdgeId(idx)) or behind the payload of an optional id"""
    return some_id(t) if is_agg(t, None, 'Some') else project(payload(t), ('f', '0'))


# ------------------------------------------------------------------ paths
def walk_cursor(dd, W, L):
    """[(start: ('edge', term) or ('node', term), exit test)] of the cursors with which the loop W pushes to L the decisions met
    along best edges"""
    out = []
    for p in W.havoc:
        h = W.head.read(p)
        if h.op != 'phi':
            continue
        # the cursor is an optional edge
        e = project(payload(h), ('f', '0'))
        if W.backs and all(pushes_decision(dd, W, q, L, e) and is_best_of(dd, W, q, b.read(p), [f for f in dd.reads(W, q, edge_place(dd, e, 'from', '0'))])
                           and q.f.isvar(h, 'Some') is True for b in W.backs for q in enum_paths(b, W)):
            out.append((('edge', W.pre.read(p)), lambda q, h=h: q.f.isvar(h, 'None') is True))
        # the cursor is a node, its best edge is looked at in the loop
        for n in (h, project(h, ('f', '0'))):
            good = bool(W.backs)
            for b in W.backs:
                for q in enum_paths(b, W):
                    ok = False
                    for bt in dd.reads(W, q, node_place(dd, n, 'best')):
                        if q.f.isvar(bt, 'Some') is True:
                            e = project(payload(bt), ('f', '0'))
                            nx = b.read(p)
                            nx = nx if n is h else project(nx, ('f', '0'))
                            ok = ok or pushes_decision(dd, W, q, L, e) and nx in dd.reads(W, q, edge_place(dd, e, 'from', '0'))
                    good = good and ok
            if good:
                x = W.pre.read(p)
                out.append((('node', x if n is h else project(x, ('f', '0'))),
                            lambda q, n=n: any(q.f.isvar(bt, 'None') is True for bt in [W.head.read(node_place(dd, n, 'best'))])))
    return out


def pushes_decision(dd, W, q, L, e):
    ps = [x for x in q.items if isinstance(x, Ev) and x.kind in ('push', 'insert') and x.vec == L]
    return len(ps) == 1 and ps[0].kind == 'push' and ps[0].val in dd.reads(W, q, edge_place(dd, e, 'decision')) and \
        not [x for x in q.items if isinstance(x, Ev) and x.get('vec') == L and x.kind in ('clear', 'truncate', 'pop', 'remove', 'drain')]


def is_best_of(dd, W, q, t, nodes):
    return any(t in dd.reads(W, q, node_place(dd, n, 'best')) for n in nodes)


def copied(q, upto, L, src, at):
    """on the path, before item number `upto`, vector L holds exactly the elements of the vector at place src (in this order).
    at: the item (event, loop or state) at which contents are read"""
    x = at.pre if isinstance(at, LoopObj) else at
    t = x.read(L)
    if t is x.read(src):
        return True
    # filled by a loop
    for j, lo in enumerate(q.items[:upto]):
        if not isinstance(lo, LoopObj) or not covers_src(lo, q, src):
            continue
        ok = lo.pre.read(length(L)) is Int(0) and bool(lo.backs)
        for b in lo.backs:
            for q2 in enum_paths(b, lo):
                ps = [y for y in q2.items if isinstance(y, Ev) and y.get('vec') == L and y.kind in ('push', 'insert', 'clear', 'truncate', 'pop', 'remove', 'drain')]
                ok = ok and len(ps) == 1 and ps[0].kind == 'push' and is_current(lo, q2, ps[0].val, src)
        it = loop_iter(lo)
        if it is not None and any(a and a[0] == 'rev' for a in it.args[2] or ()):
            ok = False
        if ok and not [y for y in q.items[j + 1:upto] if touches(y, L)]:
            return True
    return False


def touches(y, L):
    if isinstance(y, LoopObj):
        return any(has_prefix(p, L) or has_prefix(L, p) for p in y.havoc)
    if isinstance(y, Ev):
        return y.get('vec') == L and y.kind in ('push', 'insert', 'clear', 'truncate', 'pop', 'remove', 'drain', 'sort', 'retained') or \
            y.kind == 'write' and (has_prefix(y.place, L) or has_prefix(L, y.place))
    return False


def covers_src(lo, q, src):
    return covers(lo, q, src)


def is_current(lo, q, t, src):
    """t is the element of the vector the loop is at"""
    ixs = loop_index(lo, src)
    for y in subterms(t):
        if y.op == 'idx' and any(y.args[-1] is i for i in ixs) and y is t:
            return True
    s = lo.head
    for i in ixs:
        if t is s.read((src[0], src[1] + (('i', i),))):
            return True
    return False


def path_of(dd, lo, q, t):
    """t is the path of a node: (node index, None) or (None, reason)"""
    n = project(t, ('f', '#len'))
    rp = fld_place(dd, ('f', 'root_pa'))
    why = 'no loop walks the best edges to build it: %s' % short_show(t)
    for j, W in enumerate(q.items):
        if not isinstance(W, LoopObj):
            continue
        for p in list(W.havoc):
            if p[1][-1:] != (('f', '#len'),):
                continue
            L = (p[0], p[1][:-1])
            if W.head.read(p) is not n:
                continue
            cs = walk_cursor(dd, W, L)
            if not cs:
                why = 'the loop does not push exactly the decisions met along the best edges'
                continue
            if not copied(q, j, L, rp, W):
                why = 'the path does not start with the path of the root'
                continue
            for (kind, s), done in cs:
                if not done(q):
                    why = 'the walk can stop before the root'
                    continue
                if kind == 'node':
                    return s, None
                for X in list(indexed(q, 'nodes')) + list(subterms(s)) + [u for y in q.items if isinstance(y, Ev) and y.kind == 'assert' for u in subterms(y.cond)]:
                    if s in dd.reads(lo, q, node_place(dd, X, 'best')):
                        return X, None
                why = 'the walk does not start with the best edge of a node: %s' % short_show(s)
    return None, why


def paths(ctx):
    ctx.rule('C14.root', 'every compilation stores exactly the path of the subproblem it starts from, and nothing changes it before the next compilation')
    ctx.rule('C14.solution', 'best_solution is the stored root path followed by the decisions met when walking the best edges from the best node to the root, and is missing only if there is no best node')
    ctx.rule('C14.value', 'best_value is the value of the best node')
    ctx.rule('C14.best', 'the best node is a node of largest value of the last layer; it is missing only if that layer is empty')
    ctx.rule('C14.sub', 'state, value and path of every extracted subproblem belong to one node of the cutset')
    for dd in dds(ctx):
        rp = fld_place(dd, ('f', 'root_pa'))
        # root path
        n = 0
        for lo, q in dd.scopes():
            if lo is not None:
                for x in q.items:
                    if isinstance(x, Ev) and touches(x, rp) and not (x.kind == 'push' and lo.pre.read(length(rp)) is Int(0) and is_path_loop(lo)):
                        ctx.ob('C14.root', dd.inst('kept', x), False, 'the stored root path is changed', loc(x))
                continue
            n += 1
            ctx.ob('C14.root', dd.name + ' stored', root_stored(dd, q, rp), 'the stored root path is not exactly the path of the subproblem')
        ctx.ob('C14.root', dd.name + ' some', n > 0, 'no return of compile was analysed')
        for m in ('best_solution', 'best_value', 'drain_cutset'):
            e, outs = ctx.run(dd.ids[m])
            for lo, q in scopes_of(outs):
                for x in q.items:
                    if isinstance(x, Ev) and (touches(x, rp)):
                        ctx.ob('C14.root', dd.inst('kept', x), False, 'the stored root path is changed', loc(x))
        # best solution and value
        best = fld_place(dd, ('f', 'best_n'))
        e, outs = ctx.run(dd.ids['best_solution'])
        some = 0
        for st, v in outs:
            for q in enum_paths(st):
                b = q.end.read(best)
                if v is NONE_T:
                    ctx.ob('C14.solution', dd.name + ' none', q.f.isvar(b, 'None') is True, 'there may be no solution although there is a best node')
                    continue
                some += 1
                X, why = path_of(dd, None, q, strip_some(v) if strip_some(v) is not None else v)
                ctx.ob('C14.solution', dd.name + ' path', X is not None, why)
                if X is not None:
                    ctx.ob('C14.solution', dd.name + ' node', X is id_of(b), 'the solution is the path of another node than the best one: %s' % short_show(X))
        ctx.ob('C14.solution', dd.name + ' some', some > 0, 'no path of best_solution returns one')
        e, outs = ctx.run(dd.ids['best_value'])
        some = 0
        for st, v in outs:
            for q in enum_paths(st):
                b = q.end.read(best)
                if v is NONE_T:
                    ctx.ob('C14.value', dd.name + ' none', q.f.isvar(b, 'None') is True, 'there may be no value although there is a best node')
                    continue
                some += 1
                x = strip_some(v)
                ctx.ob('C14.value', dd.name + ' value', x is not None and x in [q.end.read(node_place(dd, id_of(b), 'value'))], 'best_value is %s' % short_show(v))
        ctx.ob('C14.value', dd.name + ' some', some > 0, 'no path of best_value returns one')
        best_node(ctx, dd)
        drained(ctx, dd)


def is_path_loop(lo):
    it = loop_iter(lo)
    return it is not None and 'residual.path' in show(it)


def root_stored(dd, q, rp):
    t = q.end.read(rp)
    s = show(t)
    if s.endswith('input.residual.path') and t.op in ('init', 'read'):
        return True
    src = None
    for j, lo in enumerate(q.items):
        if isinstance(lo, LoopObj):
            it = loop_iter(lo)
            cand = []
            if it is not None and it.args[0] == 'vec' and fields(it.args[1])[-2:] == ('residual', 'path'):
                cand.append(it.args[1])
            for y in inner_events(lo, 0):
                if y.kind == 'index' and fields(y.vec)[-2:] == ('residual', 'path') and y.vec not in cand:
                    cand.append(y.vec)
            for src in cand:
                if copied(q, j + 1, rp, src, lo):
                    # never touched afterwards
                    return not [y for y in q.items[j + 1:] if touches(y, rp)]
    return False


def over_next(dd, it):
    return it.op == 'it' and it.args[0] in ('values', 'map') and vec_is(it.args[1], 'next_l') and keeps_all(it)


def max_over(dd, q, best):
    """the term `best` is an optional id of a node of largest value of the whole next layer"""
    for x in q.items:
        if isinstance(x, Ev) and x.kind == 'reduce' and x.how == 'max_by_key' and over_next(dd, x.it) and x.elems:
            r = payload(x.ret)
            for pr in ((), (('f', '1'),)):
                if id_of(best) in ids_in(x, r, pr):
                    if all(any(key is x.read(node_place(dd, i, 'value')) for i in ids_in(x, el, pr)) for el, key, f in x.elems):
                        return True
    return None


def ids_in(x, t, pr):
    """index terms in a (reference to a) node id that is part pr of the value t"""
    out = []
    for p in pr:
        t = project(t, p)
    for u in (t, project(t, ('d',)), x.read(t.args[0]) if t.op == 'ref' else x.read((('ptr', t), ()))):
        if u is not None:
            out.append(project(u, ('f', '0')))
    return out


def none_left(dd, q):
    """a reduction over the whole next layer found nothing"""
    return any(isinstance(x, Ev) and x.kind == 'reduce' and over_next(dd, x.it) and q.f.isvar(x.ret, 'None') is True for x in q.items)


def manual_max(dd, q, best):
    """a loop over the whole next layer that keeps the best id seen so far"""
    for j, lo in enumerate(q.items):
        if not isinstance(lo, LoopObj):
            continue
        it = loop_iter(lo)
        if it is None or it.op != 'it' or it.args[0] not in ('values', 'map') or not vec_is(it.args[1], 'next_l') or not keeps_all(it):
            continue
        if not (j + 1 < len(q.items) and isinstance(q.items[j + 1], Ev) and q.items[j + 1].kind == 'exhausted') and not (lo.what and lo.what[0] in WHOLE):
            continue
        for p in lo.havoc:
            h = lo.head.read(p)
            if h.op != 'phi' or h is not best and not (q.end.read(p) is best):
                continue
            if lo.pre.read(p) is not NONE_T:
                continue
            if all(better_kept(dd, lo, q2, h, b.read(p)) for b in lo.backs for q2 in enum_paths(b, lo)):
                return True
    return False


def better_kept(dd, lo, q, h, new):
    els = [x for x in q.items if isinstance(x, Ev) and x.kind in ('next', 'feed')]
    ids = {i for x in els for i in indexed(q, 'nodes') if any(t.op in ('mval', 'ix', 'mkey') for t in subterms(i))}
    cur = project(payload(h), ('f', '0'))
    vals = lambda i: dd.reads(lo, q, node_place(dd, i, 'value'))
    x = some_id(new)
    if new is h or x is not None and x is cur:
        return q.f.isvar(h, 'Some') is True and any(q.f.le(a, b) for i in ids for a in vals(i) for b in vals(cur))
    if x is None:
        return False
    isel = any(t.op in ('mval', 'ix', 'mkey') for t in subterms(x))
    return isel and (q.f.isvar(h, 'None') is True or any(q.f.le(b, a) for a in vals(x) for b in vals(cur)))


def best_node(ctx, dd):
    best = fld_place(dd, ('f', 'best_n'))
    V = layer_vec(dd)
    n = 0
    for st, v in dd.outs:
        for q in enum_paths(st):
            ml = [x for x in q.items if isinstance(x, LoopObj) and x in main_loops(dd)]
            if not ml:
                continue
            b = q.end.read(best)
            if b is NONE_T:
                ok = V is not None and layer_empty(dd, q, V, ml[0]) or map_empty(dd, q, ml[0]) or none_left(dd, q)
                ctx.ob('C14.best', dd.name + ' none', ok, 'there may be no best node although the last layer is not empty', ml[0].site)
                continue
            n += 1
            r = max_over(dd, q, b)
            if r is None:
                r = manual_max(dd, q, b)
            ctx.ob('C14.best', dd.name + ' largest', bool(r), 'the best node is not one of largest value of the whole last layer: %s' % short_show(b), ml[0].site)
    ctx.ob('C14.best', dd.name + ' some', n > 0, 'no compilation sets the best node')


def map_empty(dd, q, ml):
    ln = fld_place(dd, ('f', 'next_l'), ('f', '#len'))
    return any(q.f.le(x.read(ln), Int(0)) for x in q.items[q.index(ml) + 1:] if isinstance(x, Ev)) or q.f.le(q.end.read(ln), Int(0))


# ------------------------------------------------------------------ extraction of the cutset (C08, C14, C16)
def callbacks(q):
    return [x for x in q.items if isinstance(x, Ev) and x.kind == 'call' and x.name == 'callback']


def min_leaves(t, ctx=None):
    """the quantities a term is the minimum of"""
    if t.op == 'min':
        return [y for a in t.args for y in min_leaves(a)]
    if t.op == 'sadd':
        # saturating addition is monotone
        for i, a in enumerate(t.args):
            if a.op == 'min':
                o = t.args[1 - i]
                return [z for y in a.args for z in min_leaves(S2(y, o))]
    return [t]


def drained(ctx, dd):
    ctx.rule('C16.drain', 'every node of the cutset is looked at exactly once; a subproblem is handed over for it exactly if the node is marked as able to reach the end; nothing else is handed over, and extraction is skipped only if the diagram has no best node')
    ctx.rule('C08.bound', 'the bound of an extracted subproblem is the least of its value plus its rough bound, its value plus its local bound (both saturating) and the value of the diagram')
    bits = flag_bits(ctx)
    MK = bits.get('marked')
    e, outs = ctx.run(dd.ids['drain_cutset'])
    cut = fld_place(dd, ('f', 'cutset'))
    best = fld_place(dd, ('f', 'best_n'))
    k = dd.name
    dl = set()
    for lo, q in scopes_of(outs):
        for x in callbacks(q):
            if lo is None:
                ctx.ob('C16.drain', k + ' in loop', False, 'a subproblem is handed over outside the loop over the cutset', loc(x))
            else:
                dl.add(lo)
    ctx.ob('C16.drain', k + ' loop', len(dl) == 1, 'loops that hand over subproblems: %d' % len(dl))
    if len(dl) != 1:
        return
    D = next(iter(dl))
    # the whole cutset is gone through
    nf = ns = 0
    for st, v in outs:
        for q in enum_paths(st):
            if q.has(D):
                nf += 1
                ctx.ob('C16.drain', k + ' whole', whole_cutset(dd, q, D, cut), 'the loop does not go through the whole cutset', D.site)
            else:
                ns += 1
                ctx.ob('C16.drain', k + ' skipped', q.f.isvar(q.end.read(best), 'None') is True or any(q.f.le(x, Int(0)) for x in [q.end.read(length(cut))]),
                       'extraction may be skipped although the diagram has a best node')
    ctx.ob('C16.drain', k + ' some', nf > 0, 'the cutset is never extracted')
    na = 0
    for b in D.backs:
        for q in enum_paths(b, D):
            cb = callbacks(q)
            ids = [i for i in indexed(q, 'nodes') if is_cut_elem(dd, D, i)]
            ws = [w for i in ids for w in dd.reads(D, q, node_place(dd, i, 'flags', '0'))]
            if not cb:
                ctx.ob('C16.drain', k + ' left out', any(has_bit(q.f, w, MK) is False for w in ws), 'a cutset node that may reach the end is left out', D.site)
                continue
            na += 1
            x = cb[0]
            ctx.ob('C16.drain', k + ' once', len(cb) == 1, 'a cutset node is handed over %d times' % len(cb), loc(x))
            ctx.ob('C16.drain', k + ' marked', any(has_bit(q.f, w, MK) is True for w in ws), 'a subproblem that may not reach the end is handed over', loc(x))
            sp = x.vals[0]
            X = [i for i in ids if any(same_key(val(sp, 'state'), s) or val(sp, 'state') is s for s in dd.reads(D, q, node_place(dd, i, 'state')))]
            ctx.ob('C14.sub', k + ' state', bool(X), 'the state of the subproblem is not that of the cutset node: %s' % short_show(val(sp, 'state')), loc(x))
            if not X:
                continue
            X = X[0]
            vals = dd.reads(D, q, node_place(dd, X, 'value'))
            ctx.ob('C14.sub', k + ' value', val(sp, 'value') in vals, 'the value of the subproblem is not that of the cutset node: %s' % short_show(val(sp, 'value')), loc(x))
            P, why = path_of(dd, D, q, val(sp, 'path'))
            ctx.ob('C14.sub', k + ' path', P is not None, why or '', loc(x))
            if P is not None:
                ctx.ob('C14.sub', k + ' path of node', P is X, 'the path of the subproblem belongs to another node: %s' % short_show(P), loc(x))
            # bound
            want = {'rough bound': [S2(v, r) for v in vals for r in dd.reads(D, q, node_place(dd, X, 'rub'))],
                    'local bound': [S2(v, r) for v in vals for r in dd.reads(D, q, node_place(dd, X, 'value_bot'))],
                    'diagram value': best_values(dd, D, q, outs, best)}
            ub = val(sp, 'ub')
            ls = min_leaves(ub)
            for nm, ts in want.items():
                ok = any(t in ls for t in ts) or any(q.f.le(ub, t) for t in ts)
                ctx.ob('C08.bound', '%s %s' % (k, nm), ok, 'the bound may exceed the %s: %s' % (nm, short_show(ub, n=400)), loc(x))
            allw = [t for ts in want.values() for t in ts]
            ctx.ob('C08.bound', k + ' attained', all(any(l is t or q.f.eq(l, t) for t in allw) for l in ls), 'the bound may be smaller than all of them: %s' % short_show(ub, n=400), loc(x))
    ctx.ob('C16.drain', k + ' handed', na > 0, 'no cutset node is handed over')


def S2(a, b):
    return T('sadd', *sorted((a, b), key=lambda t: t.id))


def best_values(dd, lo, q, outs, best):
    """terms that are the value of the best node"""
    out = []
    s = lo.head
    b = s.read(best)
    out.append(s.read(node_place(dd, id_of(b), 'value')))
    return out


def whole_cutset(dd, q, D, cut):
    i = q.index(D)
    it = loop_iter(D)
    if it is not None and it.op == 'it' and it.args[0] == 'own' and (keeps_all(it) or keeps_all(it, rejected=bool(D.what)) or keeps_all(it, True)):
        ds = [x for x in q.items[:i] if isinstance(x, Ev) and x.kind == 'drain' and x.get('vec') == cut and x.full and x.val is it.args[1]]
        took = bool(ds) or any(isinstance(x, Ev) and x.kind == 'write' and x.place == cut for x in q.items[:i]) and show(it.args[1]).endswith('.cutset')
        if D.what:
            return took and D.what[0] in WHOLE
        nx = q.items[i + 1] if i + 1 < len(q.items) else None
        return took and isinstance(nx, Ev) and nx.kind == 'exhausted'
    if covers(D, q, cut):
        return True
    # pop until empty
    pops = all(len([x for x in q2.items if isinstance(x, Ev) and x.kind == 'pop' and x.get('vec') == cut]) == 1 for b in D.backs for q2 in enum_paths(b, D))
    return pops and any(q.f.le(x.read(length(cut)), Int(0)) for x in q.items[i + 1:] if isinstance(x, Ev))


def is_cut_elem(dd, D, i):
    """the node index is the current element of the cutset loop"""
    if any('cutset' in show(t) for t in subterms(i) if t.op in ('idx', 'init', 'read', 'pop')):
        return True
    return any(mentions(i, t) for t in loop_index(D, fld_place(dd, ('f', 'cutset'))))
