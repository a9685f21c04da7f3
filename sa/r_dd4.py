"""Rules about cutsets (C16) and thresholds (C17, C18, C20) of the decision diagrams."""
from .r_dd3 import *

VMUT = ('push', 'insert', 'pop', 'remove', 'clear', 'truncate', 'drain', 'retained', 'sort', 'resize', 'dedup', 'reverse')


def vec_muts(q, V):
    return [x for x in q.items if isinstance(x, Ev) and (x.kind in VMUT and x.get('vec') == V or x.kind == 'write' and (x.place == V or has_prefix(x.place, V)))]


# ------------------------------------------------------------------ first merge
def indicators(dd):
    """[(main loop, place, first: term -> bool fact tester)]: state that has its initial value exactly as long as nothing was merged"""
    if hasattr(dd, '_ind'):
        return dd._ind
    out = []
    for ml in main_loops(dd):
        for p in ml.havoc:
            h = ml.head.read(p)
            v0 = ml.pre.read(p)
            if h.op != 'phi':
                continue
            if v0.op == 'bool':
                tests = (lambda q, h=h, v=v0.args[0]: q.f.truth(h) is v, lambda q, h=h, v=v0.args[0]: q.f.truth(h) is (not v))
                changed = lambda t, q, v=v0.args[0]: t.op == 'bool' and t.args[0] is not v
            elif v0 is NONE_T:
                tests = (lambda q, h=h: q.f.isvar(h, 'None') is True, lambda q, h=h: q.f.isvar(h, 'Some') is True)
                changed = lambda t, q: is_agg(t, None, 'Some') or q.f.isvar(t, 'Some') is True
            else:
                continue
            ok = n = 0
            good = True
            for b in ml.backs:
                for q in enum_paths(b, ml):
                    t = on_path(q, b, p)
                    if any(merges(x) for x in q.items):
                        n += 1
                        good = good and (changed(t, q) or t is h and tests[1](q) or changed_in(q, p, changed))
                    elif comp_kinds(q) & {'Relaxed'}:
                        good = good and t is h
            if good and n:
                out.append((ml, p, tests))
    for p in option_fields(dd):
        if cut_level(dd, p) is None:
            for ml in main_loops(dd):
                h = ml.head.read(p)
                out.append((ml, p, (lambda q, h=h: q.f.isvar(h, 'None') is True, lambda q, h=h: q.f.isvar(h, 'Some') is True)))
    dd._ind = out
    return out


def on_path(q, st, place):
    """value of the place at the end of one path, looking through the joins it went through"""
    v = st.read(place)
    if v.op != 'join':
        return v
    for n, s in reversed(q.joins):
        w = s.read(place)
        if w.op != 'join':
            return w
    return v


def changed_in(q, p, changed):
    """the value is changed before some join of the path and not touched afterwards"""
    v = None
    for x in q.items:
        if isinstance(x, Ev) and x.kind == 'write' and x.place == p:
            v = x.val
    return v is not None and changed(v, q)


def first_merge(dd, q):
    """True / False / None: facts say that nothing (something) was merged before in this compilation; False too if they contradict each other"""
    r = set()
    for ml, p, (first, later) in indicators(dd):
        if p in option_fields(dd) and ml.pre.read(p) is NONE_T and 'Frontier' in ctype(q, dd):
            continue      # says something about last-exact-layer cutsets only
        if first(q):
            r.add(True)
        if later(q):
            r.add(False)
    return None if not r else r == {True}


def contradictory(dd, q):
    """no execution takes the path: one memory of a merge says yes, another no"""
    return first_merge(dd, q) is False and any(first(q) for ml, p, (first, later) in indicators(dd) if p not in option_fields(dd) or 'Frontier' not in ctype(q, dd))


# ------------------------------------------------------------------ C16
def cut_loops(ctx, dd):
    """{loop: [(path, back state, pushes)]}: loops whose body adds nodes to the cutset"""
    cut = fld_place(dd, ('f', 'cutset'))
    out = {}
    for lo, q in dd.scopes():
        if lo is not None and vec_muts(q, cut):
            out.setdefault(lo, [])
    return out


def last_layer(dd, ml, V):
    """vectors that, somewhere in an iteration of the main loop, hold the whole layer of the previous iteration: [(path item position, place)] is decided per path"""


def moved_layer(dd, q, ml, V, lo, src, j):
    """before item j of the path, `src` holds exactly the nodes of the layer expanded in the previous iteration (what V held at the beginning)"""
    n0 = ml.head.read(length(V))
    if lo.pre.read(length(src)) is n0:
        return True
    for i, x in enumerate(q.items[:j]):
        if not isinstance(x, LoopObj):
            continue
        it = loop_iter(x)
        if it is None or it.op != 'it' or not keeps_all(it):
            continue
        own = it.args[0].endswith('own') and project(it.args[1], ('f', '#len')) is n0
        if not own and not (it.args[0] == 'vec' and it.args[1] == V and x.pre.read(length(V)) is n0):
            continue
        whole = x.what and x.what[0] in WHOLE or i + 1 < len(q.items) and isinstance(q.items[i + 1], Ev) and q.items[i + 1].kind == 'exhausted'
        if not whole:
            continue
        for p in x.havoc:
            if p[1][-1:] != (('f', '#len'),):
                continue
            L = (p[0], p[1][:-1])
            if x.pre.read(length(L)) is Int(0) and appends_each(x, L) and (L == src or lo.pre.read(length(src)) is x.head.read(length(L))):
                return True
    return False


def appends_each(x, L):
    for b in x.backs:
        for q in enum_paths(b, x):
            ps = vec_muts(q, L)
            if not (len(ps) == 1 and ps[0].kind == 'push' and any(t.op in ('ix', 'idx') for t in subterms(ps[0].val))):
                return False
    return bool(x.backs)


def pushes_all(ctx, dd, lo, CUT, cut):
    """every iteration pushes the element it is at (once) and flags it"""
    why = None
    for b in lo.backs:
        for q in enum_paths(b, lo):
            ps = vec_muts(q, cut)
            if not (len(ps) == 1 and ps[0].kind == 'push'):
                return 'a node of the layer is not added (once)'
            i = project(ps[0].val, ('f', '0'))
            if not any(t.op in ('ix', 'idx', 'phi') for t in subterms(i)):
                return 'something else is added'
            if flag_at(q, b, dd, i, CUT) is not True:
                why = UNFLAGGED
    return why


def flags_all(dd, q, lo, vecs, bit):
    """the loop goes through one of the vectors and sets the flag of each node"""
    if not any(covers(lo, q, v) for v in vecs) or not lo.backs:
        return False
    for b in lo.backs:
        for q2 in enum_paths(b, lo):
            fw = [flag_write(x) for x in q2.items if isinstance(x, Ev) and flag_write(x)]
            ids = [i for i, w in fw if any(t.op in ('ix', 'idx') for t in subterms(i))]
            if not ids or any(not adds_bit(w, bit) for i, w in fw) or len(set(ids)) != 1 or flag_at(q2, b, dd, ids[0], bit) is not True:
                return False
    return True


UNFLAGGED = 'a node is added without being flagged'


def cutsets(ctx):
    ctx.rule('C16.layer', 'before the first merge of a relaxed compilation with the last-exact-layer cutset, the whole layer expanded before the merged one is added to the cutset, each node once and flagged; later merges add nothing')
    ctx.rule('C16.frontier', 'with the frontier cutset, the source of an edge to a node that can reach the end is added (and flagged) exactly if it is exact, the node is not, and it was not added before; with the other cutset nothing is added there')
    ctx.rule('C16.terminal', 'with the frontier cutset, the nodes of the last layer are added (and flagged) exactly if they are exact; with the other cutset nothing is added there')
    ctx.rule('C16.else', 'the cutset is emptied before a compilation and nothing else changes it, and cutset flags are set nowhere else')
    bits = flag_bits(ctx)
    CUT, MK = bits.get('cutset'), bits.get('marked')
    for dd in dds(ctx):
        cut = fld_place(dd, ('f', 'cutset'))
        k = dd.name
        mine = set()
        V = layer_vec(dd)
        n = dict(layer=0, edge=0, push=0, term=0)
        # -- last exact layer
        for ml, q in main_paths(dd):
            mg = [j for j, x in enumerate(q.items) if merges(x)]
            lel = [(j, x) for j, x in enumerate(q.items) if isinstance(x, LoopObj) and x.what != ('callback',) and adds_layer(dd, x, cut)]
            ct = ctype(q, dd)
            fm = first_merge(dd, q)
            bad = contradictory(dd, q)
            for j, x in lel:
                mine.add(x)
                ctx.ob('C16.layer', k + ' when', bool(mg) and j < mg[0] and (bad or ct == {'LastExactLayer'} and fm is True), 'a layer is added to the cutset although it may not be the last one before the first merge (%s, first: %s)' % ('/'.join(sorted(ct)), fm), x.site)
                ctx.ob('C16.layer', k + ' once', len(lel) == 1, 'several layers are added to the cutset', x.site)
                src = loop_source(x)
                ctx.ob('C16.layer', k + ' layer', src is not None and V is not None and moved_layer(dd, q, ml, V, x, src, j), 'the layer added to the cutset is not the one expanded before', x.site)
                ctx.ob('C16.layer', k + ' whole', src is not None and covers(x, q, src), 'not the whole layer is added to the cutset', x.site)
                why = pushes_all(ctx, dd, x, CUT, cut)
                if why == UNFLAGGED:
                    for y in q.items[j + 1:]:
                        if isinstance(y, LoopObj) and flags_all(dd, q, y, [cut] + [src] * (src is not None), CUT):
                            why = None
                            mine.add(y)
                ctx.ob('C16.layer', k + ' each', why is None, why, x.site)
            if mg and not lel:
                ctx.ob('C16.layer', k + ' missing', 'LastExactLayer' not in ct or fm is False, 'nodes may be merged for the first time without the last exact layer becoming the cutset', loc(q.items[mg[0]]))
            if lel:
                n['layer'] += 1
        ctx.ob('C16.layer', k + ' some', n['layer'] > 0, 'no path adds a layer to the cutset')
        # -- frontier
        scan = scans(dd)
        for P, q1, l3, h, X in chains(dd, 'cutset'):
            mine.add(l3)
            if h is None:
                ctx.ob('C16.frontier', k + ' all edges', False, 'not all incoming edges of the node are gone through', l3.site)
                continue
            for q, b, e, F in edge_paths(dd, l3, h):
                n['edge'] += 1
                if F is None:
                    ctx.ob('C16.frontier', k + ' source', False, 'the source of the edge was not recognised', l3.site)
                    continue
                ps = vec_muts(q, cut)
                ct = ctype2(dd, l3, q) & ctype(q1, dd)
                if not ct:
                    continue      # the two halves of the path contradict each other
                xe, fe = exact_fact(ctx, dd, l3, q, X), exact_fact(ctx, dd, l3, q, F)
                was = any_flag(dd, l3, q, F, CUT, True)
                wasnot = any_flag(dd, l3, q, F, CUT, False) or flag_at(q, l3.head, dd, F, CUT) is False
                if xe is None:
                    xe = exact_fact(ctx, dd, P, q1, X)
                unm = any_flag(dd, l3, q, X, MK, False) or any_flag(dd, P, q1, X, MK, False)
                now = flag_at(q, b, dd, F, CUT)
                before = l3.head.read(node_place(dd, F, 'flags', '0'))
                if ps:
                    n['push'] += 1
                    x = ps[0]
                    ctx.ob('C16.frontier', k + ' once', len(ps) == 1 and x.kind == 'push' and project(x.val, ('f', '0')) is F, 'something else than the source of the edge is added to the cutset', loc(x))
                    ctx.ob('C16.frontier', k + ' kind', ct == {'Frontier'}, 'the source of an edge is added although the cutset may be another one', loc(x))
                    ctx.ob('C16.frontier', k + ' source exact', fe is True, 'a node is added although it may not be exact', loc(x))
                    ctx.ob('C16.frontier', k + ' child inexact', xe is False, 'a node is added although its child may be exact', loc(x))
                    ctx.ob('C16.frontier', k + ' new', wasnot, 'a node is added although it may be in the cutset already', loc(x))
                    ctx.ob('C16.frontier', k + ' flagged', now is True, 'a node is added without being flagged', loc(x))
                    ctx.ob('C16.frontier', k + ' reaches', P not in scan or any_flag(dd, l3, q, X, MK, True) or any_flag(dd, P, q1, X, MK, True), 'a node is added although its child may not reach the end', loc(x))
                else:
                    ok = 'Frontier' not in ct or xe is True or fe is False or was or unm
                    ctx.ob('C16.frontier', k + ' left out', ok, 'an exact node with an inexact child may be left out of the cutset', l3.site)
                    same = not adds_bit(b.read(node_place(dd, F, 'flags', '0')), CUT)
                    ctx.ob('C16.frontier', k + ' unflagged', same, 'a node is flagged without being added', l3.site)
        own = {l3 for P, q1, l3, h, X in chains(dd, 'cutset')}
        for P in {c[0] for c in chains(dd, 'cutset')}:
            Xs = [c[4] for c in chains(dd, 'cutset') if c[0] is P and c[4] is not None]
            for b in P.backs:
                for q in enum_paths(b, P):
                    if any(x in own for x in q.items if isinstance(x, LoopObj)):
                        continue
                    ok = any(any_flag(dd, P, q, i, bits['deleted'], True) or any_flag(dd, P, q, i, MK, False) or any_flag(dd, P, q, i, CUT, True) or exact_fact(ctx, dd, P, q, i) is True
                             or any(q.f.isvar(t, 'None') is True for t in dd.reads(P, q, node_place(dd, i, 'inbound'))) for i in indexed(q, 'nodes') if i in Xs) or 'Frontier' not in ctype2(dd, P, q)
                    ctx.ob('C16.frontier', k + ' passed over', ok, 'the parents of an inexact node may be left out of the cutset', P.site)
        ctx.ob('C16.frontier', k + ' some', n['edge'] > 0 and n['push'] > 0, 'edges: %d, additions: %d' % (n['edge'], n['push']))
        # -- terminal nodes
        for q, ml, ex in finished(ctx, dd):
            ctx.ob('C16.frontier', k + ' marks known', not_before(dd, q, 'cutset', 'value_bot'), 'the cutset is determined before it is known which nodes can reach the end', ml.site)
            for lo, j in terminal_loops(dd, q):
                if lo in mine:
                    continue
                if not any(vec_muts(q2, cut) or any(adds_bit2(x, CUT) for x in q2.items) for b in lo.backs for q2 in enum_paths(b, lo)):
                    continue
                mine.add(lo)
                for b in lo.backs:
                    for q2 in enum_paths(b, lo):
                        i = terminal_index(dd, lo, q2)
                        ps = vec_muts(q2, cut)
                        n['term'] += bool(ps)
                        if i is None:
                            ctx.ob('C16.terminal', k + ' node', not ps, 'what is added is not the node of the last layer', lo.site)
                            continue
                        ct = ctype2(dd, lo, q2)
                        xe = exact_fact(ctx, dd, lo, q2, i)
                        if ps:
                            x = ps[0]
                            ctx.ob('C16.terminal', k + ' once', len(ps) == 1 and x.kind == 'push' and project(x.val, ('f', '0')) is i, 'a terminal node is not added once', loc(x))
                            ctx.ob('C16.terminal', k + ' kind', ct == {'Frontier'} and xe is True, 'a terminal node is added although the cutset is another one or it may not be exact', loc(x))
                            ctx.ob('C16.terminal', k + ' flagged', flag_at(q2, b, dd, i, CUT) is True, 'a terminal node is added without being flagged', loc(x))
                        else:
                            ctx.ob('C16.terminal', k + ' left out', 'Frontier' not in ct or xe is False, 'an exact terminal node may be left out of the frontier cutset', lo.site)
                            ctx.ob('C16.terminal', k + ' unflagged', 'Frontier' not in ct or not adds_bit(b.read(node_place(dd, i, 'flags', '0')), CUT), 'a terminal node is flagged without being added', lo.site)
            if not ex and not no_terminal(dd, q, ml):
                tl = [lo for lo, j in terminal_loops(dd, q) if lo in mine]
                ctx.ob('C16.terminal', k + ' reached', bool(tl), 'the terminal nodes are not considered for the cutset', ml.site)
        ctx.ob('C16.terminal', k + ' some', n['term'] > 0, 'no terminal node is added')
        # -- nothing else
        for lo, q in dd.scopes():
            ms = [x for x in q.items if isinstance(x, LoopObj) and x in main_loops(dd)]
            at = q.index(ms[0]) if ms else None
            if lo in mine:
                continue
            for j, x in enumerate(q.items):
                if not isinstance(x, Ev):
                    continue
                if x in vec_muts(q, cut):
                    empties = x.kind == 'clear' or x.kind == 'drain' and x.get('full') or x.kind == 'truncate' and x.n is Int(0) or x.kind == 'write' and project(x.val, ('f', '#len')) is Int(0)
                    ctx.ob('C16.else', dd.inst('changed', x), lo is None and at is not None and j < at and empties, 'the cutset is changed elsewhere', loc(x))
                ctx.ob('C16.else', dd.inst('flagged', x), not adds_bit2(x, CUT), 'a cutset flag is set elsewhere', loc(x)) if flag_write(x) else None
                if x.kind == 'push' and is_vec(x, 'nodes'):
                    ctx.ob('C16.else', dd.inst('start unflagged', x), unmarked(dd, lo, q, word(val(x.val, 'flags')), CUT), 'a new node may start with the cutset flag', loc(x))
        for st, v in dd.outs:
            for q in enum_paths(st):
                ms = [x for x in q.items if isinstance(x, LoopObj) and x in main_loops(dd)]
                if ms:
                    ctx.ob('C16.else', k + ' emptied', ms[0].pre.read(length(cut)) is Int(0), 'the cutset is not emptied before a compilation', ms[0].site)


def ctype2(dd, lo, q):
    """cutset types possible on a path through a loop body: its own facts and those on every way to it"""
    ks = ctype(q, dd)
    if len(ks) == 1:
        return ks
    f = FactBag([lo.pre.facts])
    ks2 = ctype(Path([], [lo.pre.facts], lo.pre), dd)
    return ks & ks2


def adds_bit(w, bit):
    """the new flag word sets the bit on its own account"""
    while w.op == 'bits':
        if w.args[1] & bit:
            return True
        w = w.args[0]
    return False


def adds_bit2(x, bit):
    fw = flag_write(x) if isinstance(x, Ev) else None
    return bool(fw) and adds_bit(fw[1], bit)


def adds_layer(dd, lo, cut):
    return any(vec_muts(q, cut) for b in lo.backs for q in enum_paths(b, lo)) and not any(merges(x) for b in lo.backs for q in enum_paths(b, lo) for x in q.items) \
        and not any(isinstance(x, LoopObj) for b in lo.backs for q in enum_paths(b, lo) for x in q.items)


def loop_source(lo):
    """the vector the loop goes through"""
    it = loop_iter(lo)
    if it is not None and it.op == 'it' and it.args[0] == 'vec':
        return it.args[1]
    for b in lo.backs:
        for q in enum_paths(b, lo):
            for x in q.items:
                if isinstance(x, Ev) and x.kind == 'index' and not is_vec(x, 'nodes') and not is_vec(x, 'edges') and steps(lo, x.vec):
                    return x.vec
    return None


# ------------------------------------------------------------------ depth of the last exact layer
def loop_ix(lo):
    out = set()
    for b in lo.backs:
        for q in enum_paths(b, lo):
            for e in q.items:
                if isinstance(e, Ev) and e.kind in ('next', 'feed', 'retain') and e.get('elem') is not None:
                    out |= {t for t in subterms(e.elem) if t.op in ('ix',)}
                    if e.elem.op == 'ref':
                        for pr in e.elem.args[0][1]:
                            if pr[0] == 'i' and isinstance(pr[1], Term):
                                out |= {t for t in subterms(pr[1]) if t.op == 'ix'}
    return out


def option_fields(dd):
    """fields of the diagram the main loop may change, of which something is a payload"""
    out = set()
    for ml in main_loops(dd):
        for p in ml.havoc:
            if p[0] == self_root(dd)[0] and ml.head.read(p).op == 'phi' and ml.pre.read(p) is NONE_T:
                out.add(p)
    return out


def cut_level(dd, p):
    """None if the optional field p holds the depth of the layer that became the last-exact-layer cutset, exactly when there is one"""
    V = layer_vec(dd)
    cut = fld_place(dd, ('f', 'cutset'))
    n = 0
    for ml, q in main_paths(dd):
        mg = [j for j, x in enumerate(q.items) if merges(x)]
        lel = [x for x in q.items if isinstance(x, LoopObj) and x.what != ('callback',) and adds_layer(dd, x, cut)]
        set_ = False
        for j, x in enumerate(q.items):
            if isinstance(x, Ev) and x.kind == 'write' and x.place == p:
                srcs = [loop_source(y) for y in lel]
                if not is_agg(x.val, None, 'Some'):
                    if not any(z is not None and q.f.le(y.pre.read(length(z)), Int(0)) for y, z in zip(lel, srcs)):
                        return 'the depth of the cutset layer is forgotten'
                elif not (lel and mg and j < mg[0] and layer_before(dd, payload(x.val), None, None, q, srcs)):
                    return 'the depth of the cutset layer is changed elsewhere'
                set_ = True
            if isinstance(x, LoopObj) and p in x.havoc:
                src = loop_source(x)
                if x not in lel and not (lel and src is not None and moved_layer(dd, q, ml, V, x, src, j)):
                    return 'the depth of the cutset layer is changed elsewhere'
                for b in x.backs:
                    for q2 in enum_paths(b, x):
                        v = b.read(p)
                        if v.op == 'join':
                            v = on_path(q2, b, p)
                        if not (is_agg(v, None, 'Some') and layer_before(dd, payload(v), x, q2, q)):
                            return 'the depth of the cutset layer becomes %s' % short_show(v)
                set_ = True
        if lel:
            n += 1
            if not set_:
                return 'the depth of the cutset layer is not remembered'
    return None if n else 'there is no cutset layer'


def taken_from(dd, q, i, z):
    """index of a node whose id was read from the vector z"""
    for x in q.items:
        if isinstance(x, Ev) and x.kind == 'index' and x.get('vec') == z and project(x.read(elem(z, x.at)), ('f', '0')) is i:
            return True
        if isinstance(x, (Ev, LoopObj)) and project((x if isinstance(x, Ev) else x.pre).read(elem(z, Int(0))), ('f', '0')) is i:
            return True
    cs = {(x if isinstance(x, Ev) else x.pre).read(elem(z, '*')) for x in q.items if isinstance(x, (Ev, LoopObj))}
    return any(t.op == 'idx' and t.args[0] in cs and i is project(t, ('f', '0')) for t in subterms(i))


def layer_before(dd, t, lo, q2, q, srcs=()):
    """t is the depth of the layer above the current one"""
    for d0, d in main_depth(dd):
        if root_level(dd, d0) and (t is Bin('Sub', d, Int(1)) or delta(d, t) == -1):
            return True
    for z in srcs:
        if z is None:
            continue
        for i in indexed(q, 'nodes'):
            if taken_from(dd, q, i, z) and t in dd.reads(None, q, node_place(dd, i, 'depth')):
                return True
    if lo is not None:
        ixs = loop_ix(lo) | {y for b in lo.backs for q3 in enum_paths(b, lo) for x in q3.items if isinstance(x, Ev) and x.kind == 'index' for y in subterms(x.at) if y.op in ('ix', 'idx')}
        for i in indexed(q2, 'nodes'):
            if any(y in ixs for y in subterms(i)) and t in dd.reads(lo, q2, node_place(dd, i, 'depth')):
                return True
    return False
