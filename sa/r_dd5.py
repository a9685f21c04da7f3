"""Rules about thresholds in the caching decision diagram (C17, C18, C20)."""
from .r_dd4 import *


def SSub(a, b):
    if b.op == 'int' and b.args[0] == 0:
        return a
    return T('ssub', a, b)


def with_theta(dd):
    """the diagram keeps thresholds"""
    return any(x.kind == 'push' and is_vec(x, 'nodes') and has_theta(x.val) for lo, q in dd.scopes() for x in q.items if isinstance(x, Ev))


def has_theta(v):
    return v.op == 'agg' and 'theta' in (v.args[2] or ())


def theta_writes(x):
    """node index of a change of a threshold, through a whole-node write as well"""
    w = node_write(x) if isinstance(x, Ev) else None
    return w[0] if w and w[1][0] == 'theta' else None


def read_at(q, j, st, place):
    """value of the place in state `st`, which the path reaches at item j; joins the path went through are resolved"""
    v = st.read(place)
    if v.op != 'join':
        return v
    for n, s in reversed(q.joins):
        if n <= j:
            w = s.read(place)
            if w.op != 'join':
                return w
    return v


def vals_at(dd, lo, q, place, j):
    """values of the place at any point of the path up to item j"""
    r = set(dd.reads(lo, q, place))
    for n, s in q.joins:
        r.add(s.read(place))
    return {v for v in r if v.op != 'join'}


def lbs_of(q, extra=()):
    out = set(lower_bounds(q))
    for t in extra:
        for y in subterms(t):
            if y.op in ('init', 'read') and show(y).endswith('input.best_lb'):
                out.add(y)
    return out


def theta_paths(dd):
    """[(P, path, chain loop or None, state, node)]: the ways through the loop over the nodes"""
    seen = set()
    for P, q, l3, h, X in chains(dd, 'theta'):
        if P in seen:
            continue
        seen.add(P)
        for b in P.backs:
            for q1 in enum_paths(b, P):
                ls = {}
                for P2, _, x, h2, X2 in chains(dd, 'theta'):
                    if P2 is P and any(y is x for y in q1.items) and (x not in ls or X2 is not None):
                        ls[x] = (x, h2, X2)
                ls = list(ls.values())
                yield P, q1, b, ls, [X2 for P2, _, x, h2, X2 in chains(dd, 'theta') if P2 is P and X2 is not None]


def thresholds(ctx):
    ctx.rule('C20.edge', 'for every incoming edge of a node that was not deleted, whether it can reach the end or not, its source gets the smaller of its threshold and the node\'s threshold minus the cost of the edge (saturating)')
    ctx.rule('C20.cutset', 'before that, the threshold of a cutset node is limited to its value, or to the lower bound minus its local bound if value plus local bound stays below the lower bound; that of other nodes is left alone')
    ctx.rule('C20.order', 'after every relaxed compilation that reaches a last layer, exact or not, all nodes are handled from the last to the first')
    ctx.rule('C20.rub', 'a node that is not expanded because of its rough bound gets the lower bound minus the rough bound as threshold')
    ctx.rule('C20.terminal', 'with the last-exact-layer cutset, when nothing was merged, the nodes of the last layer count as cutset nodes')
    ctx.rule('C20.else', 'thresholds start at the greatest integer and are changed nowhere else')
    bits = flag_bits(ctx)
    DEL, CUT = bits.get('deleted'), bits.get('cutset')
    some = 0
    for dd in dds(ctx):
        if not with_theta(dd):
            continue
        some += 1
        k = dd.name
        scan = scans(dd)
        mine = {l3 for P, q, l3, h, X in chains(dd, 'theta')} | {P for P, q, l3, h, X in chains(dd, 'theta')} | {lo for lo, d, rs in prune_loops(dd)}
        own = {P for P, *_ in chains(dd, 'theta')}
        n = ne = nc = nr = 0
        # -- order, last layer
        for q, ml, ex in finished(ctx, dd):
            n += 1
            if no_terminal(dd, q, ml):
                continue
            Ps = [x for x in q.items if isinstance(x, LoopObj) and x in scan and x in own]
            P, why = order(ctx, dd, q, ml, 'theta')
            ctx.ob('C20.order', k + ' bottom-up', bool(Ps), 'not every node passes its threshold on after all its children did: %s' % (why or 'nodes that cannot reach the end are left out'), ml.site)
            ctx.ob('C20.order', k + ' bounds known', not_before(dd, q, 'theta', 'value_bot') and not_before(dd, q, 'theta', 'cutset'), 'thresholds are passed on before the local bounds and the cutset are known', ml.site)
            j = q.index(Ps[0]) if Ps else None
            ok = each_terminal(dd, q, lambda lo, q2, b, i: 'LastExactLayer' not in ctype2(dd, lo, q2) or first_merge(dd, q2) is False or flag_at(q2, b, dd, i, CUT) is True, j)
            ctx.ob('C20.terminal', k + ' flagged', ok or 'LastExactLayer' not in ctype(q, dd) or first_merge(dd, q) is False, 'a terminal node of a diagram without merges is not treated as a cutset node', ml.site)
        ctx.ob('C20.order', k + ' some', n > 0, 'no path of a relaxed compilation was analysed')
        # -- edges
        for P, q, l3, h, X in chains(dd, 'theta'):
            ctx.ob('C20.edge', k + ' all edges', h is not None, 'not all incoming edges of the node are gone through', l3.site)
            if h is None:
                continue
            for q3, b, e, F in edge_paths(dd, l3, h):
                ne += 1
                ctx.ob('C20.edge', k + ' source', F is not None, 'the source of the edge was not recognised', l3.site)
                if F is None:
                    continue
                if any_flag(dd, l3, q3, X, DEL, True):
                    continue
                ws = {w for w in map(theta_writes, q3.items) if w is not None}
                ctx.ob('C20.edge', k + ' only parents', ws <= {F}, 'another threshold than that of the parent is changed', l3.site)
                E = read_at(q3, len(q3.items), b, node_place(dd, F, 'theta'))
                old = l3.head.read(node_place(dd, F, 'theta'))
                mys = set(dd.reads(l3, q3, node_place(dd, X, 'theta'))) | {l3.pre.read(node_place(dd, X, 'theta'))}
                ok = any(is_ext(q3, E, old, SSub(v, c), False) for v in mys for c in dd.reads(l3, q3, edge_place(dd, e, 'cost')))
                ctx.ob('C20.edge', k + ' theta', ok, 'the threshold of the parent becomes %s' % short_show(E, n=300), l3.site)
        ctx.ob('C20.edge', k + ' some', ne > 0, 'no edge passes a threshold to a parent')
        # -- the node itself
        for P, q, b, ls, Xs in theta_paths(dd):
            if not ls:
                ok = any(any_flag(dd, P, q, i, DEL, True) or any(q.f.isvar(t, 'None') is True for t in dd.reads(P, q, node_place(dd, i, 'inbound'))) for i in indexed(q, 'nodes') if i in Xs)
                ctx.ob('C20.edge', k + ' passed over', ok, 'a node that was not deleted may not pass its threshold on', P.site)
                here = [i for i in indexed(q, 'nodes') if i in Xs]
                l3, X, j, at = None, here[0] if here else None, len(q.items), b
            else:
                ctx.ob('C20.edge', k + ' once', len(ls) == 1, 'the incoming edges are gone through several times', P.site)
                l3, h, X = ls[0]
                j, at = q.index(l3), l3.pre
            if X is None or any_flag(dd, P, q, X, DEL, True):
                continue
            q0 = Path(q.items[:j], q.f.fs, at, [x for x in q.joins if x[0] <= j])
            th = node_place(dd, X, 'theta')
            old, new = P.head.read(th), read_at(q, j, at, th)
            others = {w for w in map(theta_writes, q0.items) if w is not None and w is not X}
            ctx.ob('C20.cutset', k + ' only own', not others, 'the threshold of another node is changed', P.site)
            late = {w for w in map(theta_writes, q.items[j + 1:]) if w is not None}
            ctx.ob('C20.cutset', k + ' in time', not late, 'the threshold is changed after it was passed on', P.site)
            cut = True if any_flag(dd, P, q0, X, CUT, True) else False if any_flag(dd, P, q0, X, CUT, False) else None
            vs = vals_at(dd, P, q0, node_place(dd, X, 'value'), j)
            vb = vals_at(dd, P, q0, node_place(dd, X, 'value_bot'), j)
            nc += cut is True
            if cut is False:
                ctx.ob('C20.cutset', k + ' others', new is old, 'the threshold of a node outside of the cutset becomes %s' % short_show(new, n=300), P.site)
                continue
            lb = lbs_of(q, [new])
            ok = False
            if cut is True:
                for v in vs:
                    for w in vb:
                        s = S2(v, w)
                        for B in lb:
                            if q.f.lt(s, B):
                                ok = ok or is_ext(q, new, old, SSub(B, w), False)
                            elif q.f.le(B, s):
                                ok = ok or is_ext(q, new, old, v, False)
            ctx.ob('C20.cutset', k + ' limited', ok, 'the threshold of a cutset node becomes %s' % short_show(new, n=300), P.site)
        ctx.ob('C20.cutset', k + ' some', nc > 0, 'no cutset node is handled')
        # -- rough bounds
        V = layer_vec(dd)
        for lo in layer_loops(dd):
            mine.add(lo)
            ixs = loop_index(lo, V) if V is not None else ()
            for b in lo.backs:
                for q in enum_paths(b, lo):
                    ws = [x for x in q.items if theta_writes(x) is not None]
                    if any(is_expand(x) for x in q.items):
                        ctx.ob('C20.rub', k + ' expanded', not ws, 'the threshold of a node that is expanded is changed', lo.site)
                        continue
                    nr += 1
                    ok = False
                    for x in q.items:
                        if not is_call(x, 'Problem::estimate'):
                            continue
                        i = node_with(dd, lo, q, x.vals[1], 'state', deref=True)
                        if i is None or not any(mentions(i, t) for t in ixs):
                            continue
                        new = read_at(q, len(q.items), b, node_place(dd, i, 'theta'))
                        ok = ok or any(new is SSub(B, x.ret) for B in lbs_of(q, [new])) and all(theta_writes(w) is i for w in ws)
                    ctx.ob('C20.rub', k + ' pruned', ok, 'the threshold of a node pruned by its rough bound is not the lower bound minus the rough bound', lo.site)
        ctx.ob('C20.rub', k + ' some', nr > 0, 'no node is pruned by its rough bound')
        # -- nothing else
        for lo, q in dd.scopes():
            for x in q.items:
                if not isinstance(x, Ev):
                    continue
                if x.kind == 'push' and is_vec(x, 'nodes'):
                    ctx.ob('C20.else', dd.inst('start', x), val(x.val, 'theta') is MAXV, 'a new node starts with threshold %s' % short_show(val(x.val, 'theta')), loc(x))
                if lo in mine:
                    continue
                i = theta_writes(x)
                if i is not None:
                    ctx.ob('C20.else', dd.inst('changed', x), False, 'a threshold is changed elsewhere', loc(x))
    ctx.ob('C20.order', 'some diagram', some > 0, 'no decision diagram keeps thresholds')


# ------------------------------------------------------------------ C17
def in_store(p):
    return isinstance(p, tuple) and 'barriers' in fields(p)


def level_of(p):
    """index into the table of threshold stores"""
    pr = list(p[1])
    for n, x in enumerate(pr):
        if x == ('f', 'barriers'):
            for y in pr[n + 1:]:
                if y[0] == 'i':
                    return y[1]
                if y[0] == 'f':
                    return None
    return None


def own_level(dd, lo, q, D, X):
    """D is the depth of the layer the node X belongs to: the counter of the main loop, or the depth stored in the node"""
    return any(D is d and root_level(dd, d0) for d0, d in main_depth(dd)) or D in dd.reads(lo, q, node_place(dd, X, 'depth'))


def below_root(dd, q, D):
    for d0, d in main_depth(dd):
        if q.f.lt(d0, d) or q.f.lt(d0, D) or q.f.le(Bin('Add', d0, Int(1)), d):
            return True
    return False


def lookups(dd, lo, q, X):
    """[(theta, explored, event)]: look-ups of the node's own state in the store of its own layer"""
    out = []
    for x in q.items:
        if isinstance(x, Ev) and x.kind == 'mget' and in_store(x.map):
            D = level_of(x.map)
            if D is not None and own_level(dd, lo, q, D, X) and any(same_key(t, x.mkey) or same_key(x.mkey, t) for t in dd.reads(lo, q, node_place(dd, X, 'state'))):
                pl = sub(x.map, ('k', x.mkey))
                out.append((x.read(sub(pl, ('f', 'theta'))), x.read(sub(pl, ('f', 'explored'))), x))
    return out


def prune_loops(dd):
    """[(loop, drain event or None, [(path, back, kept)])]: loops that take nodes out of the layer before it is expanded"""
    if hasattr(dd, '_prune'):
        return dd._prune
    V = layer_vec(dd)
    out, seen = [], set()
    for lo in dd.loops:
        rs = [(q, b, [x for x in q.items if isinstance(x, Ev) and x.kind == 'retain' and x.get('vec') == V]) for b in lo.backs for q in enum_paths(b, lo)]
        if rs and all(len(e) == 1 for q, b, e in rs):
            seen.add(lo)
            out.append((lo, None, [(q, b, e[0].keep in (True, Bool(True))) for q, b, e in rs]))
    for ml, q in main_paths(dd):
        fill = filled(dd, q, V)
        if fill is None:
            continue
        d = None
        for j in range(fill + 1, len(q.items)):
            x = q.items[j]
            if isinstance(x, Ev) and x.kind == 'drain' and x.get('vec') == V and x.get('full'):
                d = x
            if not isinstance(x, LoopObj):
                continue
            if x in layer_loops(dd):
                break
            it = loop_iter(x)
            if x in seen or it is None or it.op != 'it' or not keeps_all(it, rejected=bool(x.what)):
                continue
            n0 = q.items[fill + 1].read(length(V)) if isinstance(q.items[fill + 1], Ev) else None
            own = it.args[0].endswith('own') and (d is not None and it.args[1] is d.val or project(it.args[1], ('f', '#len')) in lens_after(q, fill, j, V))
            if not own and not (it.args[0] == 'vec' and it.args[1] == V):
                continue
            whole = x.what and x.what[0] in WHOLE or j + 1 < len(q.items) and isinstance(q.items[j + 1], Ev) and q.items[j + 1].kind == 'exhausted'
            if not whole:
                continue
            for p in x.havoc:
                if p[1][-1:] != (('f', '#len'),):
                    continue
                L = (p[0], p[1][:-1])
                if x.pre.read(p) is not Int(0) or not (L == V or becomes(q, j, x.head.read(p), V)):
                    continue
                rs = []
                for b in x.backs:
                    for q2 in enum_paths(b, x):
                        ms = vec_muts(q2, L)
                        if not ms:
                            rs.append((q2, b, False))
                        elif len(ms) == 1 and ms[0].kind == 'push' and any(t.op in ('ix', 'idx') for t in subterms(ms[0].val)):
                            rs.append((q2, b, True))
                        else:
                            rs = None
                            break
                    if rs is None:
                        break
                if rs and any(not keep for _, _, keep in rs):
                    seen.add(x)
                    out.append((x, d if own else None, rs))
    dd._prune = out
    return out


def lens_after(q, i, j, V):
    out = set()
    for k in range(i, j + 1):
        x = q.items[k]
        for s in [s for n, s in q.joins if n == k and k > i] + [x if isinstance(x, Ev) else x.head if k == i else x.pre]:
            out.add(s.read(length(V)))
    return out - {Int(0)}


def pruned_ok(ctx, dd, lo, q, b):
    """(node, reason why the removal is not justified or None)"""
    bits = flag_bits(ctx)
    ixs = loop_ix(lo)
    X = [i for i in indexed(q, 'nodes') if any(t in ixs for t in subterms(i))]
    X = X[0] if X else None
    if X is None:
        return None, 'the node that is removed was not recognised'
    if not below_root(dd, q, None) and not any(below_root(dd, q, D) for D in dd.reads(lo, q, node_place(dd, X, 'depth'))):
        return X, 'the root of the diagram may be removed'
    if not any_flag(dd, lo, q, X, bits['relaxed'], False):
        return X, 'a merged node may be removed'
    ls = lookups(dd, lo, q, X)
    vs = dd.reads(lo, q, node_place(dd, X, 'value'))
    why = 'a node is removed without a threshold of its own state in its own layer that its value does not exceed'
    for th, ex, ev in ls:
        if any(q.f.le(v, MINV) for v in vs):
            return X, None      # the least value: worth nothing, and below every threshold
        if q.f.isvar(ev.lookup, 'Some') is True and any(q.f.le(v, th) for v in vs):
            if b.read(node_place(dd, X, 'theta')) is not th:
                why = 'the threshold that removed the node is not the one remembered for it'
            elif flag_at(q, b, dd, X, bits['pruned_by_barrier']) is not True:
                why = 'the removed node is not flagged'
            else:
                return X, None
    return X, why


def pruning(ctx):
    ctx.rule('C17.prune', 'a node is taken out of a layer because of the threshold store only below the root, if it is not a merged node, and if one single look-up of its own state in the store of its own layer gave a threshold that its value does not exceed; that threshold becomes its own and it is flagged')
    ctx.rule('C17.keep', 'nodes that are kept are left alone')
    ctx.rule('C17.else', 'the flag is set nowhere else, and nothing else takes nodes out of a layer')
    bits = flag_bits(ctx)
    PB = bits.get('pruned_by_barrier')
    some = 0
    for dd in dds(ctx):
        V = layer_vec(dd)
        pl = prune_loops(dd)
        store = uses_store(dd)
        some += store
        n = m = 0
        k = dd.name
        mine = set()
        for lo, d, rs in pl:
            mine.add(lo)
            for q, b, keep in rs:
                if keep:
                    m += 1
                    ws = [x for x in q.items if isinstance(x, Ev) and (theta_writes(x) is not None or adds_bit2(x, PB))]
                    ctx.ob('C17.keep', k + ' untouched', not ws, 'a node that is kept is treated as removed', loc(ws[0]) if ws else lo.site)
                else:
                    n += 1
                    X, why = pruned_ok(ctx, dd, lo, q, b)
                    ctx.ob('C17.prune', k + ' justified', why is None, why, lo.site)
        if store:
            ctx.ob('C17.prune', k + ' some', n > 0 and m > 0, 'removed: %d, kept: %d' % (n, m))
        for lo, q in dd.scopes():
            for x in q.items:
                if not isinstance(x, Ev):
                    continue
                if flag_write(x) and PB and lo not in mine:
                    ctx.ob('C17.else', dd.inst('flagged', x), not adds_bit2(x, PB), 'the flag is set for a node that is not removed', loc(x))
                if x.kind == 'push' and is_vec(x, 'nodes') and PB:
                    ctx.ob('C17.else', dd.inst('start', x), unmarked(dd, lo, q, word(val(x.val, 'flags')), PB), 'a new node may start with the flag', loc(x))
                if x.kind == 'retained' and x.get('vec') == V:
                    ctx.ob('C17.else', dd.inst('retained', x), any(y in mine for y in q.items), 'nodes are taken out of the layer in an unrecognised way', loc(x))
    ctx.ob('C17.prune', 'some diagram', some > 0, 'no decision diagram uses the threshold store')


def uses_store(dd):
    return any(isinstance(x, Ev) and x.kind in ('mget', 'minsert') and in_store(x.map) for lo, q in dd.scopes() for x in q.items)


# ------------------------------------------------------------------ C18
class Rec:
    """one change of the threshold store"""

    def __init__(self, x, map_, key, theta, explored):
        self.x, self.map, self.key, self.theta, self.explored = x, map_, key, theta, explored


def records(q):
    out, last = [], {}
    for x in q.items:
        if not isinstance(x, Ev):
            continue
        if x.kind == 'minsert' and in_store(x.map):
            out.append(Rec(x, x.map, x.mkey, proj(x.val, 'theta'), proj(x.val, 'explored')))
        elif x.kind == 'write' and in_store(x.place):
            ks = [n for n, pr in enumerate(x.place[1]) if pr[0] == 'k']
            if ks:
                n = ks[-1]
                last[(x.place[0], x.place[1][:n + 1])] = x
            elif x.place[1][-1] != ('f', 'barriers'):
                out.append(Rec(x, x.place, None, None, None))
    for pl, x in last.items():
        if any(r.key is pl[1][-1][1] for r in out):
            continue
        at = after(q, x)
        out.append(Rec(x, (pl[0], pl[1][:-1]), pl[1][-1][1], read_in(at, x, pl, 'theta'), read_in(at, x, pl, 'explored')))
    return out


def after(q, x):
    i = q.index(x)
    for y in q.items[i + 1:]:
        return y.pre if isinstance(y, LoopObj) else y
    return q.end


def read_in(at, x, pl, f):
    if x.place == sub(pl, ('f', f)):
        return x.val
    if x.place == pl:
        return proj(x.val, f)
    return at.read(sub(pl, ('f', f)))


def above_cut(ctx, dd, q, x, D, good):
    """facts: the layer D does not lie below the last exact layer"""
    if 'LastExactLayer' not in ctype(q, dd):
        return True
    for p in good:
        v = x.read(p)
        if v is NONE_T or q.f.isvar(v, 'None') is True:
            return True
        if q.f.isvar(v, 'Some') is True and q.f.le(D, payload(v)):
            return True
    return False


def recording(ctx):
    ctx.rule('C18.kind', 'a diagram changes the threshold store only in a relaxed compilation')
    ctx.rule('C18.node', 'a threshold is recorded for the own state and layer of an exact node that the store did not prune')
    ctx.rule('C18.value', 'what is recorded is the threshold of the node once all its children passed theirs on, or, when the node is handled in its layer, its value (expanded) or its threshold (pruned by its bound)')
    ctx.rule('C18.better', 'a threshold is recorded only after a look-up of the same state in the same layer found nothing, a smaller one, or an equal one that was not explored while the new one is')
    ctx.rule('C18.level', 'with last-exact-layer cutsets nothing is recorded below the cutset layer')
    ctx.rule('C18.explored', 'what is recorded as explored is no cutset node, and nothing is before the cutset is known')
    ctx.rule('C18.depth', 'the depth stored in a node is that of its layer')
    bits = flag_bits(ctx)
    CUT, PB = bits.get('cutset'), bits.get('pruned_by_barrier')
    some = 0
    for dd in dds(ctx):
        if not uses_store(dd):
            continue
        some += 1
        k = dd.name
        V = layer_vec(dd)
        scan = scans(dd)
        opts = option_fields(dd)
        why = {p: cut_level(dd, p) for p in opts}
        good = [p for p in opts if why[p] is None]
        Xs = {P: [X for P2, q, l3, h, X in chains(dd, 'theta') if P2 is P and X is not None] for P, *_ in chains(dd, 'theta')}
        n = {'layer': 0, 'up': 0}
        prune = {lo for lo, d, rs in prune_loops(dd)}
        for lo, q in dd.scopes():
            for x in q.items:
                if isinstance(x, Ev) and x.kind in ('mremove', 'clear', 'retained', 'drain', 'mclear') and (in_store(x.get('map')) or in_store(x.get('vec'))):
                    ctx.ob('C18.better', dd.inst('removed', x), False, 'thresholds are removed from the store', loc(x))
            for r in records(q):
                x = r.x
                key = dd.inst('', x)
                ctx.ob('C18.kind', key + ' relaxed', comp_kinds(q) == {'Relaxed'}, 'a threshold may be recorded in a compilation that is %s' % '/'.join(sorted(comp_kinds(q))), loc(x))
                D = level_of(r.map)
                X = next((i for i in indexed(q, 'nodes') if r.key is not None and any(same_key(t, r.key) or same_key(r.key, t) for t in dd.reads(lo, q, node_place(dd, i, 'state')))), None)
                if X is None or D is None:
                    ctx.ob('C18.node', key + ' whose', False, 'the node whose threshold is recorded was not recognised', loc(x))
                    continue
                layer = lo in layer_loops(dd) and any(mentions(X, t) for t in loop_index(lo, V))
                up = lo in scan and X in Xs.get(lo, ())
                ctx.ob('C18.node', key + ' layer', own_level(dd, lo, q, D, X) and (layer or D in dd.reads(lo, q, node_place(dd, X, 'depth'))), 'the threshold is recorded for another layer: %s' % short_show(D), loc(x))
                ctx.ob('C18.node', key + ' exact', exact_fact(ctx, dd, lo, q, X) is True, 'a threshold may be recorded for a node that is not exact', loc(x))
                ctx.ob('C18.node', key + ' not pruned', layer or any_flag(dd, lo, q, X, PB, False), 'a threshold may be recorded for a node that the store pruned', loc(x))
                ctx.ob('C18.level', key + ' above', above_cut(ctx, dd, q, x, D, good), 'a threshold may be recorded below the last exact layer (%s)' % '; '.join(sorted({w for w in why.values() if w})), loc(x))
                # value
                th = node_place(dd, X, 'theta')
                if layer:
                    n['layer'] += 1
                    ex = any(is_expand(y) for y in q.items)
                    ok = r.theta in dd.reads(lo, q, node_place(dd, X, 'value')) if ex else r.theta is read_at(q, len(q.items), q.end, th)
                    ctx.ob('C18.value', key + (' expanded' if ex else ' bound'), ok, 'the threshold recorded is %s' % short_show(r.theta), loc(x))
                else:
                    n['up'] += up
                    i = q.index(x)
                    late = [y for y in q.items[i + 1:] if theta_writes(y) is X]
                    l3 = [y for y in q.items if isinstance(y, LoopObj) and any(y is c[2] for c in chains(dd, 'theta'))]
                    ats = {read_at(q, i, x, th)} | {read_at(q, q.index(y), y.pre, th) for y in l3}
                    ctx.ob('C18.value', key + ' up', up and not late and r.theta in ats, 'the threshold recorded is not the final one of the node: %s' % short_show(r.theta), loc(x))
                # improvement
                ok = False
                for y in q.items:
                    if isinstance(y, Ev) and y.kind == 'mget' and in_store(y.map) and (y.mkey is r.key or same_key(y.mkey, r.key)) and level_of(y.map) is D:
                        pl = sub(y.map, ('k', y.mkey))
                        t0, e0 = y.read(sub(pl, ('f', 'theta'))), y.read(sub(pl, ('f', 'explored')))
                        ok = ok or q.f.isvar(y.lookup, 'None') is True or q.f.isvar(y.lookup, 'Vacant') is True or q.f.lt(t0, r.theta) or \
                            (q.f.eq(t0, r.theta) or q.f.le(t0, r.theta)) and q.f.truth(e0) is False and (r.explored is Bool(True) or q.f.truth(r.explored) is True)
                ctx.ob('C18.better', key + ' improves', ok, 'a threshold may be recorded that does not improve on the stored one', loc(x))
                # explored
                never = r.explored is Bool(False) or q.f.truth(r.explored) is False
                out = any_flag(dd, lo, q, X, CUT, False)
                if not out and r.explored is not None:
                    out = any(r.explored is Not(bit_of(w, CUT)) for w in dd.reads(lo, q, node_place(dd, X, 'flags', '0')))
                ctx.ob('C18.explored', key + ' marked', never or up and out, 'a cutset node may be recorded as explored', loc(x))
        ctx.ob('C18.value', k + ' some', n['layer'] > 0 and n['up'] > 0, 'recorded while compiling: %d, afterwards: %d' % (n['layer'], n['up']))
        for q, ml, ex in finished(ctx, dd):
            ctx.ob('C18.value', k + ' known', not_before(dd, q, 'theta', 'value_bot') and not_before(dd, q, 'theta', 'cutset'), 'thresholds are recorded before the local bounds and the cutset are known', ml.site)
        # depths
        nd = 0
        for lo, q in dd.scopes():
            for x in q.items:
                if not isinstance(x, Ev):
                    continue
                w = node_write(x)
                if w and w[1][0] == 'depth':
                    ctx.ob('C18.depth', dd.inst('changed', x), False, 'the depth of a node is changed', loc(x))
                if x.kind == 'push' and is_vec(x, 'nodes'):
                    nd += 1
                    d = val(x.val, 'depth')
                    ok = False
                    for i in indexed(q, 'nodes'):
                        for y in dd.reads(lo, q, node_place(dd, i, 'depth')):
                            if d is Bin('Add', y, Int(1)) and any(trans(e) for e in q.items):
                                ok = ok or node_with(dd, lo, q, [e for e in q.items if trans(e)][0].vals[1], 'state', deref=True) is i
                            if d is y and any(merges(e) for e in q.items):
                                ok = ok or taken_from(dd, q, i, V)
                    for d0, h in main_depth(dd):
                        if root_level(dd, d0):
                            ok = ok or d is d0 and not any(isinstance(y, LoopObj) and y in main_loops(dd) for y in q.items[:q.index(x)]) and lo is None
                            ok = ok or d is h and any(merges(e) for e in q.items) or d is Bin('Add', h, Int(1)) and any(trans(e) for e in q.items)
                    ctx.ob('C18.depth', dd.inst('start', x), ok, 'a new node gets depth %s' % short_show(d), loc(x))
        ctx.ob('C18.depth', k + ' some', nd > 2, 'nodes created: %d' % nd)
    ctx.ob('C18.value', 'some diagram', some > 0, 'no decision diagram uses the threshold store')
