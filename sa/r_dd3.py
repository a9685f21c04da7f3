"""Rules about the upward pass: local bounds (C32), cutset (C16), thresholds (C17, C18, C20)."""
from .r_dd2 import *

MINV = Int(-(1 << 63))
MAXV = Int((1 << 63) - 1)


def is_ext(q, E, old, new, maxi):
    """E is the larger (smaller) of old and new, on this path"""
    op = 'max' if maxi else 'min'
    le = (lambda a, b: q.f.le(a, b)) if maxi else (lambda a, b: q.f.le(b, a))
    if E.op == op and set(E.args) == {old, new}:
        return True
    return E is new and (old is new or le(old, new)) or E is old and le(new, old)


# ------------------------------------------------------------------ structure of the upward pass
def up_kinds(dd, lo):
    """what the body of the loop passes on: local bounds (and marks), thresholds, membership in the cutset"""
    bits = flag_bits(dd.ctx)
    cut = fld_place(dd, ('f', 'cutset'))
    ks = set()
    for y in inner_events(lo, 0):
        w = node_write(y)
        if w:
            n = w[1][0]
            if n in ('value_bot', 'theta'):
                ks.add(n)
            if n == 'flags':
                t = flag_write(y)[1]
                if sets_bit(t, bits['marked']):
                    ks.add('value_bot')
                if sets_bit(t, bits['cutset']):
                    ks.add('cutset')
        if y.kind == 'push' and y.get('vec') == cut:
            ks.add('cutset')
    return ks


def chains(dd, kind=None):
    """[(P, path of P, chain loop, cursor, node)]: the loops over the incoming edges of a node that pass something (of the kind) to its parents"""
    if not hasattr(dd, '_chains'):
        dd._chains, dd._ckinds = [], {}
        for P, q in dd.scopes():
            if P is None:
                continue
            for l3 in q.items:
                if not isinstance(l3, LoopObj) or not is_inbound_cursor(dd, l3):
                    continue
                if l3 not in dd._ckinds:
                    dd._ckinds[l3] = up_kinds(dd, l3)
                if not dd._ckinds[l3] or contains_relax(l3):
                    continue
                for X in indexed(q, 'nodes'):
                    h = chain_loop(dd, P, q, l3, X)
                    if h is not None:
                        dd._chains.append((P, q, l3, h, X))
                        break
                else:
                    dd._chains.append((P, q, l3, None, None))
    return [c for c in dd._chains if kind is None or kind in dd._ckinds[c[2]]]


def not_before(dd, q, a, b):
    """on the path, what is passed on in `a` is handled in the same pass as `b`, or in a later one"""
    A = {P for P, *_ in chains(dd, a)}
    B = {P for P, *_ in chains(dd, b)}

    def where(S):
        return [j for j, x in enumerate(q.items) if isinstance(x, LoopObj) and (x in S or any(y in S for k in x.backs for q2 in enum_paths(k, x) for y in q2.items if isinstance(y, LoopObj)))]
    wa, wb = where(A), where(B)
    return not wa or not wb or min(wa) >= max(wb)


def edge_paths(dd, l3, h):
    """[(path, edge, source node)]"""
    e = project(payload(h), ('f', '0'))
    for b in l3.backs:
        for q in enum_paths(b, l3):
            fs = [f for f in dd.reads(l3, q, edge_place(dd, e, 'from', '0'))]
            yield q, b, e, (fs[0] if len(fs) == 1 else None)


def flag_at(q, s, dd, i, bit):
    return has_bit(q.f, s.read(node_place(dd, i, 'flags', '0')), bit)


def any_flag(dd, lo, q, i, bit, v):
    if any(has_bit(q.f, w, bit) is v for w in dd.reads(lo, q, node_place(dd, i, 'flags', '0'))):
        return True
    # the loop over the incoming edges of a node changes the flags of its parents only
    if any(lo is c[2] and i is c[4] for c in chains(dd)):
        return has_bit(q.f, lo.pre.read(node_place(dd, i, 'flags', '0')), bit) is v
    return False


def exact_fact(ctx, dd, lo, q, i):
    """True / False / None: node i counts as exact on the path"""
    b = flag_bits(ctx)
    E, R = b['exact'], b['relaxed']
    if any_flag(dd, lo, q, i, E, False) or any_flag(dd, lo, q, i, R, True):
        return False
    if any_flag(dd, lo, q, i, E, True) and any_flag(dd, lo, q, i, R, False):
        return True
    return None


def exact_decided(ctx, dd, lo, q, i, want):
    """what the facts say about the exactness of the node, also through a boolean that was computed from its flags"""
    v = exact_fact(ctx, dd, lo, q, i)
    return v is want


def ctype(q, dd):
    """cutset types possible on the path"""
    ks = {'LastExactLayer', 'Frontier'}
    seen = False
    for t in fact_terms(q):
        for y in subterms(t):
            if y.op in ('init', 'read') and show(y).endswith('.cutset_type'):
                ks = {k for k in ks if q.f.isvar(y, k) is not False and q.f.variant(y) in (None, k)}
    return ks


def terminal_loops(dd, q, upto=None):
    """loops on the path that go through the whole last layer: [(loop, position)]"""
    out = []
    for j, lo in enumerate(q.items[:upto]):
        if not isinstance(lo, LoopObj):
            continue
        it = loop_iter(lo)
        if it is None or it.op != 'it' or not keeps_all(it):
            continue
        if it.args[0] not in ('values', 'map') or not vec_is(it.args[1], 'next_l'):
            base = copy_of_terminals(dd, q, lo, it, out)
            if base is None:
                continue
            dd.ids_of_terminals = getattr(dd, 'ids_of_terminals', {})
            dd.ids_of_terminals[lo] = base
        if lo.what and lo.what[0] in WHOLE or j + 1 < len(q.items) and isinstance(q.items[j + 1], Ev) and q.items[j + 1].kind == 'exhausted':
            out.append((lo, j))
    return out


def copy_of_terminals(dd, q, lo, it, before):
    """the elements of a vector that one of the loops `before` filled with the ids of the last layer, and `lo` goes through"""
    if it.args[0] == 'own':
        val = it.args[1]
        n, el = project(val, ('f', '#len')), project(val, ('i', '*'))
    elif it.args[0] == 'vec' and isinstance(it.args[1], tuple):
        n, el = lo.pre.read(length(it.args[1])), lo.pre.read((it.args[1][0], it.args[1][1] + (('i', '*'),)))
    else:
        return None
    for l2, j in before:
        for p in l2.havoc:
            if p[1][-1:] != (('f', '#len'),):
                continue
            L = (p[0], p[1][:-1])
            if l2.pre.read(length(L)) is Int(0) and l2.head.read(length(L)) is n and l2.head.read((L[0], L[1] + (('i', '*'),))) is el and fills(l2, L) \
                    and not [x for x in q.items[j + 1:q.index(lo)] if any(vec_is((y[0], y[1][:2]), 'next_l') for y in (x.havoc if isinstance(x, LoopObj) else ())) or isinstance(x, Ev) and x.kind in ('clear', 'drain', 'minsert', 'mremove') and is_vec(x, 'next_l')]:
                return el
    return None


def terminal_index(dd, lo, q):
    for i in indexed(q, 'nodes'):
        if any(t.op == 'mkey' for t in subterms(i)):
            return i
        base = getattr(dd, 'ids_of_terminals', {}).get(lo)
        if base is not None and any(t.op == 'idx' and t.args[0] is base for t in subterms(i)):
            return i
    return None


def each_terminal(dd, q, pred, upto=None):
    """some complete loop over the last layer satisfies pred(loop, body path, back state, node) on every path"""
    for lo, j in terminal_loops(dd, q, upto):
        ok = bool(lo.backs)
        for b in lo.backs:
            for q2 in enum_paths(b, lo):
                i = terminal_index(dd, lo, q2)
                ok = ok and i is not None and pred(lo, q2, b, i)
        if ok:
            return True
    return False


def exact_field(ctx, dd):
    e, outs = ctx.run(dd.ids['is_exact'])
    vs = {v for st, v in outs}
    if len(vs) == 1:
        v = next(iter(vs))
        if v.op in ('init', 'read'):
            return fld_place(dd, ('f', show(v).split('.')[-1]))
    return None


def finished(ctx, dd):
    """paths of a compilation that ends with a last layer, may be relaxed and is not known to be exact"""
    F = exact_field(ctx, dd)
    V = layer_vec(dd)
    for st, v in dd.outs:
        for q in enum_paths(st):
            ml = [x for x in q.items if isinstance(x, LoopObj) and x in main_loops(dd)]
            if not ml or 'Relaxed' not in comp_kinds(q):
                continue
            if q.f.isvar(nv_ret(q.since(q.index(ml[0]))), 'Some') is True:
                continue
            yield q, ml[0], F is not None and (q.end.read(F) is Bool(True) or q.f.truth(q.end.read(F)) is True)


def no_terminal(dd, q, ml):
    best = fld_place(dd, ('f', 'best_n'))
    return map_empty(dd, q, ml) or none_left(dd, q) or q.f.isvar(q.end.read(best), 'None') is True and False


# ---- every node that can reach the end is processed, after all its children
def order(ctx, dd, q, ml, kind=None):
    """(node loop P, None) if the path processes the nodes bottom-up completely; (None, reason) otherwise"""
    ch = chains(dd, kind)
    Ps = {}
    for P, q1, l3, h, X in ch:
        Ps.setdefault(P, X)
    why = 'no loop passes bounds to the parents'
    for j, it in enumerate(q.items):
        if not isinstance(it, LoopObj) or j < q.index(ml):
            continue
        if it in Ps:
            r = backwards(dd, it, q, Ps[it])
            if r is None:
                return it, None
            why = r
            r = worklist_in_place(ctx, dd, it, q, Ps[it], ml)
            if r is None:
                return it, None
            why = r or why
            continue
        for b in it.backs:
            qs = enum_paths(b, it)
            inner = [x for q2 in qs for x in q2.items if isinstance(x, LoopObj) and x in Ps]
            if inner:
                r = rounds(ctx, dd, q, it, Ps, ml)
                if isinstance(r, LoopObj):
                    return r, None
                why = r
                break
    return None, why


def scans(dd):
    """node loops that go through all the nodes, whether they can reach the end or not"""
    if not hasattr(dd, '_scans'):
        dd._scans = set()
        for lo, q in dd.scopes():
            for it in q.items:
                if isinstance(it, LoopObj):
                    for P, q1, l3, h, X in chains(dd):
                        if P is it and backwards(dd, it, q, X) is None:
                            dd._scans.add(P)
    return dd._scans


def backwards(dd, P, q, X):
    """P goes through all the nodes from the last to the first"""
    nodes = fld_place(dd, ('f', 'nodes'))
    it = loop_iter(P)
    if it is not None and it.op == 'it':
        rv = [a for a in it.args[2] if a and a[0] == 'rev']
        if len(rv) % 2 == 0:
            return 'the nodes are not gone through from the last to the first'
        if not covers(P, q, nodes):
            return 'not all nodes are gone through'
        if X is None or not any(X is i for i in range_index(P)):
            return 'the node handled is not the one the loop is at'
        return None
    # a counter that goes down
    for p in P.havoc:
        h = P.head.read(p)
        if h.op != 'phi' or not P.backs:
            continue
        nx = Bin('Sub', h, Int(1))
        if all(b.read(p) is nx for b in P.backs) and X is nx:
            if P.pre.read(p) is not P.pre.read(length(nodes)):
                return 'the counter does not start at the number of nodes'
            if q.f.le(h, Int(0)) or q.f.eq(h, Int(0)):
                return None
            return 'the loop can stop before the first node'
    return 'the order in which the nodes are handled was not recognised'


def range_index(P):
    out = set()
    for b in P.backs:
        for q in enum_paths(b, P):
            for e in q.items:
                if isinstance(e, Ev) and e.kind == 'next' and e.it is loop_iter(P):
                    for t in subterms(e.elem):
                        if t.op == 'ix':
                            out.add(t)
    return out


def starts_full(dd, q, upto, s, Z):
    """before item `upto`, the vector Z holds the ids of all the nodes of the last layer"""
    n = s.read(length(Z))
    for lo, j in terminal_loops(dd, q, upto):
        for p in lo.havoc:
            if p[1][-1:] != (('f', '#len'),):
                continue
            L = (p[0], p[1][:-1])
            if lo.pre.read(length(L)) is Int(0) and lo.head.read(length(L)) is n and fills(lo, L):
                return True
    return False


def pushes_parent(ctx, dd, l3, h, B):
    """every edge path puts the source in B unless it was marked before or belongs to the cutset; nothing else happens to B"""
    b_ = flag_bits(ctx)
    for q, b, e, F in edge_paths(dd, l3, h):
        ev = [x for x in q.items if isinstance(x, Ev) and x.get('vec') == B and x.kind in ('push', 'insert', 'pop', 'remove', 'clear', 'truncate', 'drain', 'retained', 'sort')]
        if F is None:
            return 'the source of an edge was not recognised'
        was = has_bit(q.f, l3.head.read(node_place(dd, F, 'flags', '0')), b_['marked'])
        cut = any_flag(dd, l3, q, F, b_['cutset'], True) or flag_at(q, b, dd, F, b_['cutset']) is True
        if not ev:
            unmarked = flag_at(q, b, dd, F, b_['marked']) is False
            if not (was is True or cut or unmarked):
                return 'a node that can reach the end may be left out'
            continue
        if not (len(ev) == 1 and ev[0].kind == 'push' and project(ev[0].val, ('f', '0')) is F):
            return 'something else than the source of the edge is put on the worklist'
        if flag_at(q, b, dd, F, b_['marked']) is not True:
            return 'a node is put on the worklist without being marked'
    return None


def rounds(ctx, dd, q, O, Ps, ml):
    """outer loop O whose every round goes through one vector of nodes and collects their parents in another"""
    b_ = flag_bits(ctx)
    P0 = None
    for b in O.backs:
        for q1 in enum_paths(b, O):
            ps = [x for x in q1.items if isinstance(x, LoopObj) and x in Ps]
            if len(ps) != 1:
                return 'a round handles no node, or several groups of nodes'
            P = ps[0]
            P0 = P
            it = loop_iter(P)
            if it is None or it.op != 'it' or not keeps_all(it):
                return 'a round does not go through a whole group of nodes'
            i = q1.index(P)
            if not (P.what and P.what[0] in WHOLE or i + 1 < len(q1.items) and isinstance(q1.items[i + 1], Ev) and q1.items[i + 1].kind == 'exhausted'):
                return 'a round can stop early'
            if it.args[0] == 'own':
                n = project(it.args[1], ('f', '#len'))
            elif it.args[0] == 'vec':
                n = P.pre.read(length(it.args[1]))
            else:
                return 'the group handled in a round was not recognised'
            chs = [(l3, h, X) for P1, q2, l3, h, X in chains(dd) if P1 is P]
            ok = None
            for p in P.havoc:
                if p[1][-1:] != (('f', '#len'),):
                    continue
                B = (p[0], p[1][:-1])
                if it.args[0] == 'vec' and it.args[1] == B or B == fld_place(dd, ('f', 'cutset')):
                    continue
                rs = [pushes_parent(ctx, dd, l3, h, B) if h is not None else 'incoming edges are left out' for l3, h, X in chs]
                if any(rs) or P.pre.read(length(B)) is not Int(0):
                    ok = ok or [r for r in rs if r] and [r for r in rs if r][0] or 'the parents are added to nodes still to be handled'
                    continue
                # the next round handles exactly these
                m = P.head.read(length(B))
                Z = [(z[0], z[1][:-1]) for z in O.havoc if z[1][-1:] == (('f', '#len'),) and O.head.read(z) is n] + \
                    [z for z in O.havoc if project(O.head.read(z), ('f', '#len')) is n]
                for z in Z:
                    if b.read(length(z)) is m or project(b.read(z), ('f', '#len')) is m:
                        if not starts_full(dd, q, q.index(O), O.pre, z):
                            ok = 'the first round does not handle the whole last layer'
                        elif not (q.f.le(n, Int(0)) or q.f.eq(n, Int(0))):
                            ok = 'the rounds can stop although nodes are left'
                        else:
                            ok = True
                            break
                    else:
                        ok = ok or 'the next round does not handle exactly the parents collected in this one'
                if ok is True:
                    break
            if ok is not True:
                return ok or 'the parents are not collected for a later round'
    return P0 if P0 is not None else 'no round'


def worklist_in_place(ctx, dd, P, q, X, ml):
    """P takes nodes from the front of a queue to the back of which it adds their parents"""
    for p in P.havoc:
        if p[1][-1:] != (('f', '#len'),):
            continue
        B = (p[0], p[1][:-1])
        if B == fld_place(dd, ('f', 'cutset')) or B == fld_place(dd, ('f', 'nodes')):
            continue
        pops = [[x for x in q2.items if isinstance(x, Ev) and x.kind == 'pop' and x.get('vec') == B] for b in P.backs for q2 in enum_paths(b, P)]
        idx = [h for pp in P.havoc for h in [P.head.read(pp)] if h.op == 'phi' and P.pre.read(pp) is Int(0) and P.backs and all(b.read(pp) is Bin('Add', h, Int(1)) for b in P.backs)]
        fifo = pops and all(len(x) == 1 and x[0].get('front') for x in pops)
        if pops and any(x and not x[0].get('front') for x in pops):
            return 'a node can be handled before all its children'
        n = P.head.read(length(B))
        cur = [h for h in idx if q.f.le(n, h)]
        if not fifo and not cur:
            continue
        if fifo and not (q.f.le(n, Int(0)) or q.f.eq(n, Int(0))):
            return 'nodes may be left on the worklist'
        if not fifo and not any(mentions(X, h) for h in cur):
            continue
        rs = [pushes_parent(ctx, dd, l3, h, B) if h is not None else 'incoming edges are left out' for P1, q2, l3, h, X2 in chains(dd) if P1 is P]
        rs = [r for r in rs if r]
        if rs:
            return rs[0]
        if not starts_full(dd, q, q.index(P), P.pre, B):
            return 'the worklist does not start with the whole last layer'
        return None
    return ''


# ------------------------------------------------------------------ C32
def local_bounds(ctx):
    ctx.rule('C32.terminal', 'at the end of a relaxed compilation that is not exact, every node of the last layer gets local bound zero and is marked')
    ctx.rule('C32.edge', 'for every incoming edge of a marked node its source gets the larger of its local bound and the node\'s local bound plus the cost of the edge (saturating), and is marked')
    ctx.rule('C32.order', 'all marked nodes (but those behind the cutset) are handled, each after all its children')
    ctx.rule('C32.else', 'local bounds start at the least integer, nodes start unmarked, and neither is changed anywhere else')
    bits = flag_bits(ctx)
    MK, DEL, CUT = bits.get('marked'), bits.get('deleted'), bits.get('cutset')
    for dd in dds(ctx):
        ch = chains(dd, 'value_bot')
        scan = scans(dd)
        mine = set()
        for P, q, l3, h, X in ch:
            mine.add(l3)
        n = ne = 0
        for q, ml, ex in finished(ctx, dd):
            for lo, j in terminal_loops(dd, q):
                mine.add(lo)
            if ex:
                continue
            n += 1
            k = dd.name
            if no_terminal(dd, q, ml):
                continue
            P, why = order(ctx, dd, q, ml, 'value_bot')
            ctx.ob('C32.order', k + ' bottom-up', P is not None, 'not every node is handled after its children: %s' % why, ml.site)
            j = None
            for jj, x in enumerate(q.items):
                if isinstance(x, LoopObj) and (x is P or P is not None and any(y is P for b in x.backs for q2 in enum_paths(b, x) for y in q2.items)):
                    j = jj
            ctx.ob('C32.terminal', k + ' bound', each_terminal(dd, q, lambda lo, q2, b, i: b.read(node_place(dd, i, 'value_bot')) is Int(0), j), 'the local bound of a terminal node is not set to zero first', ml.site)
            ctx.ob('C32.terminal', k + ' marked', each_terminal(dd, q, lambda lo, q2, b, i: flag_at(q2, b, dd, i, MK) is True, j), 'a terminal node is not marked first', ml.site)
        ctx.ob('C32.terminal', dd.name + ' some', n > 0, 'no path of a relaxed compilation was analysed')
        for P, q, l3, h, X in ch:
            k = dd.name
            ctx.ob('C32.edge', k + ' all edges', h is not None, 'not all incoming edges of the node are gone through', l3.site)
            if h is None:
                continue
            for q3, b, e, F in edge_paths(dd, l3, h):
                ne += 1
                ctx.ob('C32.edge', k + ' source', F is not None, 'the source of the edge was not recognised', l3.site)
                if F is None:
                    continue
                E = b.read(node_place(dd, F, 'value_bot'))
                unm = any_flag(dd, l3, q3, X, MK, False)
                if unm:
                    if any_flag(dd, l3, q3, X, MK, True) or P not in scan:
                        continue      # only marked nodes are handled
                    ctx.ob('C32.edge', k + ' unmarked child', flag_at(q3, b, dd, F, MK) is not True or has_bit(q3.f, l3.head.read(node_place(dd, F, 'flags', '0')), MK) is True, 'the parent of a node that cannot reach the end is marked', l3.site)
                    continue
                old = l3.head.read(node_place(dd, F, 'value_bot'))
                ok = any(is_ext(q3, E, old, S2(v, c), True) for v in dd.reads(l3, q3, node_place(dd, X, 'value_bot')) for c in dd.reads(l3, q3, edge_place(dd, e, 'cost')))
                ctx.ob('C32.edge', k + ' bound', ok, 'the local bound of the parent becomes %s' % short_show(E, n=300), l3.site)
                ctx.ob('C32.edge', k + ' marked', flag_at(q3, b, dd, F, MK) is True, 'the parent is not marked', l3.site)
        # nodes that are passed over
        Ps = {P for P, *_ in ch}
        own = {l3 for P, q, l3, h, X in ch}
        for P in Ps:
            for b in P.backs:
                for q in enum_paths(b, P):
                    if any(isinstance(x, LoopObj) and x in own for x in q.items):
                        continue
                    ids = [X for P1, q1, l3, h, X in ch if P1 is P and X is not None]
                    w = [i for i in indexed(q, 'nodes') if i in ids]
                    ok = any(any_flag(dd, P, q, i, DEL, True) or any_flag(dd, P, q, i, MK, False) or any_flag(dd, P, q, i, CUT, True) or any(q.f.isvar(t, 'None') is True for t in dd.reads(P, q, node_place(dd, i, 'inbound'))) for i in w)
                    ctx.ob('C32.order', dd.name + ' passed over', ok, 'a marked node may be passed over', P.site)
        ctx.ob('C32.edge', dd.name + ' some', ne > 0, 'no edge passes a local bound to a parent')
        # nothing else
        for lo, q in dd.scopes():
            for x in q.items:
                if not isinstance(x, Ev):
                    continue
                if x.kind == 'push' and is_vec(x, 'nodes'):
                    ctx.ob('C32.else', dd.inst('start', x), val(x.val, 'value_bot') is MINV, 'a new node starts with local bound %s' % short_show(val(x.val, 'value_bot')), loc(x))
                    w = word(val(x.val, 'flags'))
                    ctx.ob('C32.else', dd.inst('start unmarked', x), unmarked(dd, lo, q, w, MK), 'a new node may start marked', loc(x))
                if lo in mine:
                    continue
                w = node_write(x)
                if w and w[1][0] == 'value_bot':
                    ctx.ob('C32.else', dd.inst('written', x), False, 'a local bound is changed elsewhere', loc(x))
                fw = flag_write(x)
                if fw and MK:
                    ctx.ob('C32.else', dd.inst('mark', x), not sets_bit(fw[1], MK), 'a node is marked or unmarked elsewhere', loc(x))
            for x in q.items:
                fw = flag_write(x) if isinstance(x, Ev) and lo in mine else None
                if fw and MK:
                    ctx.ob('C32.else', dd.inst('unmark', x), not (fw[1].op == 'bits' and fw[1].args[2] & MK), 'a node is unmarked', loc(x))


def sets_bit(w, bit):
    """the new flag word sets or clears the bit on its own account"""
    while w.op == 'bits':
        if (w.args[1] | w.args[2]) & bit:
            return True
        w = w.args[0]
    return False


def unmarked(dd, lo, q, w, bit):
    """a new flag word does not carry the bit: a constant without it, or the word of the parent (expanded before anything is marked)"""
    if w.op == 'int':
        return not w.args[0] & bit
    if sets_bit(w, bit):
        return bit_of(w, bit) is Bool(False)
    return True
