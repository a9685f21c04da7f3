"""Rules about the decision diagrams (C08-C14, C16-C18, C20, C31-C33)."""
from .q import *
from .terms import *
from .engine import Ev, LoopObj, project, read_mem
from .r_solver import strip_some, skips, delta, lin, short_show


class DD:
    """one implementation of DecisionDiagram: the inlined runs of its methods"""

    def __init__(self, ctx, adt):
        self.ctx, self.name = ctx, adt
        p = ctx.prog()
        self.ids = {}
        for m in ('compile', 'drain_cutset', 'best_solution', 'best_value', 'is_exact'):
            c = p.find(name=m, self_adt=adt, trait='DecisionDiagram')
            if len(c) == 1:
                self.ids[m] = c[0]
        self.eng, self.outs = ctx.run(self.ids['compile'])
        self._scopes = None

    def run(self, m):
        return ctx_run(self.ctx, self.ids[m])

    @property
    def loops(self):
        if not hasattr(self, '_loops'):
            self._loops = all_loops(self.outs)
        return self._loops

    def scopes(self):
        """[(loop or None, path)]: every path through every loop body, and every path of the whole function"""
        if self._scopes is None:
            self._scopes = []
            for st, v in self.outs:
                for q in enum_paths(st):
                    self._scopes.append((None, q))
            for lo in self.loops:
                for b in lo.backs:
                    for q in enum_paths(b, lo):
                        self._scopes.append((lo, q))
        return self._scopes

    def with_ev(self, pred):
        for lo, q in self.scopes():
            evs = [x for x in q.items if isinstance(x, Ev) and pred(x)]
            if evs:
                yield lo, q, evs

    def reads(self, lo, q, place):
        """values the place has along the path"""
        cache = q.__dict__.setdefault('_reads', {})
        k = (lo, place)
        if k not in cache:
            r = set()
            if lo is not None and lo.head is not None:
                r.add(lo.head.read(place))
            for x in q.items:
                if isinstance(x, Ev):
                    r.add(x.read(place))
                elif isinstance(x, LoopObj):
                    r.add(x.pre.read(place))
            cache[k] = r
        return cache[k]

    def inst(self, what, ev=None):
        return '%s %s%s' % (self.name, what, '@' + ev.fn.split('::')[-1] if ev is not None and getattr(ev, 'fn', None) else '')


def ctx_run(ctx, fid):
    return ctx.run(fid)


def dds(ctx):
    if not hasattr(ctx, '_dds'):
        p = ctx.prog()
        ctx._dds = [DD(ctx, a.split('::')[-1]) for a in p.implementors('DecisionDiagram')]
    return ctx._dds


def vec_is(place, name):
    return fields(place) == (name,) and not any(x[0] in ('i', 'k') for x in place[1])


def is_vec(ev, name):
    p = ev.d.get('vec') or ev.d.get('map')
    return p is not None and vec_is(p, name)


def node_write(ev):
    """(index, field path) of a write to a node"""
    if ev.kind != 'write':
        return None
    pr = [x for x in ev.place[1] if x[0] in ('f', 'i')]
    if len(pr) >= 3 and pr[0] == ('f', 'nodes') and pr[1][0] == 'i':
        return pr[1][1], tuple(x[1] for x in pr[2:])
    return None


def self_root(dd):
    if not hasattr(dd, '_root'):
        for e in all_events(dd.outs, 'push', 'clear'):
            p = e.d.get('vec')
            if p is not None and vec_is(p, 'nodes'):
                dd._root = (p[0], tuple(x for x in p[1] if x != ('f', 'nodes')))
                break
    return dd._root


def fld_place(dd, *projs):
    r, pre = self_root(dd)
    return (r, pre + tuple(projs))


def node_place(dd, i, *names):
    return fld_place(dd, ('f', 'nodes'), ('i', i), *[('f', n) for n in names])


def edge_place(dd, i, *names):
    return fld_place(dd, ('f', 'edges'), ('i', i), *[('f', n) for n in names])


def indexed(q, name):
    """indices used on the path with a vector of self"""
    out = []
    for x in q.items:
        if isinstance(x, Ev):
            if x.kind == 'index' and is_vec(x, name) and x.at not in out:
                out.append(x.at)
            nw = node_write(x) if name == 'nodes' else None
            if nw and nw[0] not in out:
                out.append(nw[0])
    return out


def node_with(dd, lo, q, t, fld, deref=False):
    """index of the node whose field has value t on this path"""
    for i in indexed(q, 'nodes'):
        for r in dd.reads(lo, q, node_place(dd, i, fld)):
            if (project(r, ('d',)) if deref else r) is t:
                return i
    return None


def is_field(dd, lo, q, t, i, fld):
    """t is a value of nodes[i].fld along the path"""
    return t in dd.reads(lo, q, node_place(dd, i, fld))


def sadds(t):
    """operands of a saturating addition"""
    return list(t.args) if t.op == 'sadd' else None


def is_sum(t, a_ok, b_ok):
    x = sadds(t)
    return bool(x) and len(x) == 2 and (a_ok(x[0]) and b_ok(x[1]) or a_ok(x[1]) and b_ok(x[0]))


def some_id(t):
    """idx of Some(NodeId/EdgeId(idx))"""
    s = strip_some(t)
    return project(s, ('f', '0')) if s is not None else None


def val(t, *names):
    return proj(t, *names)


# flags: bit of each flag, taken from the setters themselves
def flag_bits(ctx):
    if hasattr(ctx, '_bits'):
        return ctx._bits
    p = ctx.prog()
    bits = {}
    for n in ('relaxed', 'marked', 'cutset', 'deleted', 'pruned_by_barrier', 'exact'):
        c = p.find(name='is_' + n, self_adt='NodeFlags')
        if not c:
            continue
        e, outs = ctx.run(c[0])
        found = set()
        for st, v in outs:
            for x in list(subterms(v)) + [k for k in st.facts.bl]:
                for y in subterms(x):
                    if y.op == 'bit':
                        found.add(y.args[1])
        bits[n] = found
    if 'exact' in bits:
        bits['exact'] = bits['exact'] - bits.get('relaxed', set())
    ctx._bits = {k: (next(iter(v)) if len(v) == 1 else None) for k, v in bits.items()}
    return ctx._bits


def bit_of(w, k):
    """boolean term: bit k of the flag word w"""
    return Bin('Eq', Bin('BitAnd', w, Int(k)), Int(k))


def word(flags):
    return project(flags, ('f', '0')) if flags.op != 'int' else flags


def has_bit(f, w, k):
    """True / False / None: what the facts say about the bit"""
    t = bit_of(w, k)
    if t.op == 'bool':
        return t.args[0]
    v = f.truth(t)
    return v


def split_facts(f, *tests):
    """copies of the facts in which each test is decided"""
    out = [f.fs[0].copy()]
    for t, v in tests:
        nxt = []
        for x in out:
            if t.op == 'bool':
                if t.args[0] == v:
                    nxt.append(x)
            elif x.assume(t, v):
                nxt.append(x)
        out = nxt
    return out


def exact_implies(ctx, f, new, olds):
    """under the facts, if the flag word `new` counts as exact then one of the words `olds` does"""
    b = flag_bits(ctx)
    E, R = b['exact'], b['relaxed']
    tn = [(bit_of(new, E), True), (bit_of(new, R), False)]
    for x in split_facts(f, *tn):
        fb = FactBag([x] + f.fs)
        if not any(has_bit(fb, o, E) is True and has_bit(fb, o, R) is False for o in olds):
            return False
    return True


def joined(ctx, R, k, dd, lo, q, X, W, E, V, C, P, e, t):
    """edge E (content V, cost C, from node P) is added to node X; W: the writes to X by field"""
    oldval = lambda i: dd.reads(lo, q, node_place(dd, i, 'value'))
    isP = lambda x: x in oldval(P)
    newval = lambda x: is_sum(x, lambda a: a is C, isP)
    inb = W.get('inbound', [])
    ctx.ob(R, k + ' inbound', len(inb) == 1 and some_id(inb[0].val) is E, 'the new edge does not become the first incoming edge', loc(t))
    ctx.ob(R, k + ' chain', val(V, 'next') in dd.reads(lo, q, node_place(dd, X, 'inbound')) and val(V, 'next') is not NONE_T and not (len(inb) == 1 and val(V, 'next') is inb[0].val),
           'the new edge is not followed by the earlier incoming edges: next = %s' % short_show(val(V, 'next')), loc(e))
    v0 = entry_read(dd, lo, q, node_place(dd, X, 'value'))
    wv, wb = W.get('value', []), W.get('best', [])
    NV = sum_term(q, C, oldval(P))
    if wb or wv:
        v1 = wv[-1].val if wv else None
        same = v1 is not None and v1.op == 'max'
        okv = v1 is not None and (newval(v1) or same and any(newval(a) for a in v1.args) and v0 in v1.args)
        ctx.ob(R, k + ' value', okv or not wv and any(q.f.eq(x, v0) for x in NV), 'the value becomes %s' % short_show(v1, n=300), loc((wv or wb)[-1]))
        if wb:
            ctx.ob(R, k + ' best', some_id(wb[-1].val) is E, 'the best edge becomes %s' % short_show(wb[-1].val), loc(wb[-1]))
            ctx.ob(R, k + ' better', any(q.f.le(v0, x) for x in NV), 'the best edge is replaced although the new value may be smaller', loc(wb[-1]))
        else:
            ctx.ob(R, k + ' together', any(q.f.le(x, v0) for x in NV), 'the value is replaced without the best edge', loc(wv[-1]))
        if wb and not wv:
            ctx.ob(R, k + ' together', any(q.f.eq(x, v0) for x in NV), 'the best edge is replaced without the value', loc(wb[-1]))
    else:
        ctx.ob(R, k + ' kept', any(q.f.le(x, v0) for x in NV), 'a better value is not recorded', loc(t))
        if R == 'C31.join':         # a new merged node has no best edge: an edge whose value is the smallest integer must still become it
            some = any(q.f.isvar(b, 'Some') is True for b in dd.reads(lo, q, node_place(dd, X, 'best')))
            ctx.ob(R, k + ' realised', some or any(q.f.lt(x, v0) for x in NV), 'an edge as good as the value of the merged node is not recorded although the node may have no best edge yet', loc(t))


# ------------------------------------------------------------------ C12, C33: expansion
def is_call(x, name):
    return isinstance(x, Ev) and x.kind == 'call' and x.name == name


def trans(x):
    return is_call(x, 'Problem::transition')


def branch_paths(dd):
    """(loop, path, transition call) for every path through the body that expands a node with one decision"""
    for lo, q, evs in dd.with_ev(trans):
        yield lo, q, evs


def branching(ctx):
    ctx.rule('C12.edge', 'for every decision exactly one edge is added, from the expanded node, with that decision and the transition cost the problem gives for the node\'s state and that decision')
    ctx.rule('C12.new', 'a state not yet in the next layer gets one new node with that state, the parent\'s value plus the cost (saturating), and the new edge as best and only incoming edge, and is entered in the layer under that state')
    ctx.rule('C12.join', 'a state already in the next layer keeps its node: the new edge is prepended to its incoming edges, and value and best edge are replaced together, exactly when the new value is better (or equal)')
    ctx.rule('C12.root', 'the root node has the state and the value of the subproblem, no incoming edge, and is the only node of the first layer')
    ctx.rule('C12.else', 'node values, best edges and incoming edges are not changed anywhere else')
    for dd in dds(ctx):
        n = nn = nj = 0
        mine = set()
        for lo, q, evs in branch_paths(dd):
            n += 1
            k = dd.inst('branch', evs[0])
            t = evs[0]
            S, d, K = t.vals[1], t.vals[2], t.ret
            ctx.ob('C12.edge', k + ' one transition', len(evs) == 1, 'several transitions for one decision', loc(t))
            P = node_with(dd, lo, q, S, 'state', deref=True)
            ctx.ob('C12.edge', k + ' from state', P is not None, 'the transition is not applied to the state of a node: %s' % short_show(S), loc(t))
            if P is None:
                continue
            costs = [x for x in q.items if is_call(x, 'Problem::transition_cost')]
            okc = len(costs) == 1 and costs[0].vals[1] is S and costs[0].vals[2] is d
            ctx.ob('C12.edge', k + ' cost', okc, 'the transition cost is not asked once for the expanded state and the decision', loc(t))
            if not okc:
                continue
            C = costs[0].ret
            eps = [x for x in q.items if isinstance(x, Ev) and x.kind == 'push' and is_vec(x, 'edges')]
            ctx.ob('C12.edge', k + ' one edge', len(eps) == 1, '%d edges are added for one decision' % len(eps), loc(t))
            if len(eps) != 1:
                continue
            e = eps[0]
            mine.add(id(e))
            V = e.val
            ctx.ob('C12.edge', k + ' fields', val(V, 'from', '0') is P and val(V, 'decision') is d and val(V, 'cost') is C,
                   'the edge is %s' % short_show(V, n=300), loc(e))
            E = e.at
            nps = [x for x in q.items if isinstance(x, Ev) and x.kind == 'push' and is_vec(x, 'nodes')]
            ins = [x for x in q.items if isinstance(x, Ev) and x.kind == 'minsert' and is_vec(x, 'next_l')]
            gets = [x for x in q.items if isinstance(x, Ev) and x.kind == 'mget' and is_vec(x, 'next_l') and same_key(x.mkey, K)]
            ctx.ob('C12.join', k + ' lookup', len(gets) >= 1, 'the next layer is not searched for the reached state', loc(t))
            if not gets:
                continue
            look = gets[0].lookup
            isnew = q.f.isvar(look, 'Vacant' if look.op == 'entry' else 'None')
            ws = [(node_write(x), x) for x in q.items if isinstance(x, Ev) and node_write(x)]
            oldval = lambda i: dd.reads(lo, q, node_place(dd, i, 'value'))
            isP = lambda x: x in oldval(P)
            newval = lambda x: is_sum(x, lambda a: a is C, isP)
            if isnew or nps or ins:
                nn += 1
                ok = isnew is True and len(nps) == 1 and len(ins) == 1
                ctx.ob('C12.new', k + ' when', ok, 'a node is created although the layer may already hold the state, or not exactly once', loc(t))
                if not ok:
                    continue
                for x in nps + ins:
                    mine.add(id(x))
                N = nps[0].val
                ctx.ob('C12.new', k + ' layer', same_key(ins[0].mkey, K) and val(ins[0].val, '0') is nps[0].at, 'the layer entry is %s -> %s' % (short_show(ins[0].mkey), short_show(ins[0].val)), loc(ins[0]))
                ctx.ob('C12.new', k + ' state', same_key(val(N, 'state'), K), 'the new node has state %s' % short_show(val(N, 'state')), loc(nps[0]))
                ctx.ob('C12.new', k + ' value', newval(val(N, 'value')), 'the value of the new node is %s' % short_show(val(N, 'value'), n=300), loc(nps[0]))
                ctx.ob('C12.new', k + ' edges', some_id(val(N, 'best')) is E and some_id(val(N, 'inbound')) is E, 'best/inbound of the new node: %s / %s' % (short_show(val(N, 'best')), short_show(val(N, 'inbound'))), loc(nps[0]))
                ctx.ob('C12.new', k + ' chain', val(V, 'next') is NONE_T, 'the first edge of a node has a successor: %s' % short_show(val(V, 'next')), loc(e))
                ctx.ob('C12.new', k + ' others', not [w for (i, f), w in ws if f[0] in ('value', 'best', 'inbound', 'state')], 'another node is changed', loc(t))
            else:
                nj += 1
                X = project(entry_read(dd, lo, q, (gets[0].map[0], gets[0].map[1] + (("k", gets[0].mkey),))), ('f', '0'))
                W = {}
                bad = []
                for (i, f), w in ws:
                    if f[0] in ('value', 'best', 'inbound', 'state'):
                        mine.add(id(w))
                        if i is X and f[0] != 'state':
                            W.setdefault(f[0], []).append(w)
                        else:
                            bad.append(w)
                ctx.ob('C12.join', k + ' others', not bad, 'another node than the one reached is changed: %s' % (bad and repr(bad[0])[:200]), loc(t))
                joined(ctx, 'C12.join', k, dd, lo, q, X, W, E, V, C, P, e, t)
        ctx.ob('C12.new', dd.name + ' some', nn > 0, 'no path creates a node for a new state')
        ctx.ob('C12.join', dd.name + ' some', nj > 0, 'no path joins a state already in the layer')
        # root
        nr = 0
        for lo, q, evs in dd.with_ev(lambda x: x.kind == 'push' and is_vec(x, 'nodes')):
            if lo is not None:
                continue
            nr += 1
            x = evs[0]
            mine.add(id(x))
            N = x.val
            k = dd.inst('root')
            ctx.ob('C12.root', k + ' one', len(evs) == 1, 'several root nodes', loc(x))
            ctx.ob('C12.root', k + ' state', in_residual(val(N, 'state'), 'state'), 'the state of the root is %s' % short_show(val(N, 'state')), loc(x))
            ctx.ob('C12.root', k + ' value', in_residual(val(N, 'value'), 'value'), 'the value of the root is %s' % short_show(val(N, 'value')), loc(x))
            ctx.ob('C12.root', k + ' edges', val(N, 'best') is NONE_T and val(N, 'inbound') is NONE_T, 'the root has incoming edges', loc(x))
            ins = [y for y in q.items if isinstance(y, Ev) and y.kind == 'minsert' and is_vec(y, 'next_l')]
            ctx.ob('C12.root', k + ' layer', len(ins) == 1 and in_residual(ins[0].mkey, 'state') and val(ins[0].val, '0') is x.at, 'the first layer is not exactly the root', loc(x))
        ctx.ob('C12.root', dd.name + ' some', nr > 0, 'no root node is created')
        # nothing else touches values or edges
        for lo, q in dd.scopes():
            if any(is_call(x, 'Relaxation::relax') for x in q.items):
                continue          # C31
            for x in q.items:
                if isinstance(x, Ev) and id(x) not in mine:
                    w = node_write(x)
                    if w and w[1][0] in ('value', 'best', 'inbound', 'state'):
                        ctx.ob('C12.else', dd.inst('%s written' % w[1][0], x), False, 'the %s of a node is changed outside branching and merging' % w[1][0], loc(x))
                    if x.kind == 'push' and is_vec(x, 'edges'):
                        ctx.ob('C12.else', dd.inst('edge added', x), False, 'an edge is added outside branching and merging', loc(x))
                    if x.kind == 'write' and fields(x.place)[:1] == ('edges',):
                        ctx.ob('C12.else', dd.inst('edge written', x), False, 'an edge is changed', loc(x))


NONE_T = NONE


def same_key(a, K):
    """a (an Arc or a plain state) denotes the state K"""
    return a is K or project(a, ('d',)) is K or a.op == 'arc' and a.args[0] is K


def in_residual(t, fld):
    s = show(t)
    return s.endswith('input.residual.' + fld) or s.endswith('input.residual.%s)' % fld)


def sum_term(q, C, vals):
    """terms on the path that are C plus one of the values"""
    return [T('sadd', *sorted((C, v), key=lambda t: t.id)) for v in vals]


def entry_read(dd, lo, q, place):
    """value of the place when the path begins (after loop widening)"""
    if lo is not None and lo.head is not None:
        return lo.head.read(place)
    for x in q.items:
        if isinstance(x, Ev):
            return x.read(place)
    return q.end.read(place)


# ------------------------------------------------------------------ C33
def is_expand(x):
    return is_call(x, 'Problem::for_each_in_domain')


def layer_loops(dd):
    """loops whose body expands one node"""
    return [lo for lo in dd.loops if any(is_expand(x) for b in lo.backs for q in enum_paths(b, lo) for x in q.items)]


def layer_vec(dd):
    """the vector holding the layer being expanded: the one the index of the expanded node comes from"""
    if hasattr(dd, '_lv'):
        return dd._lv
    dd._lv = None
    for lo in layer_loops(dd):
        it = loop_iter(lo)
        if it is not None and it.op == 'it' and it.args[0] == 'vec':
            dd._lv = it.args[1]
            return dd._lv
        for b in lo.backs:
            for q in enum_paths(b, lo):
                for x in q.items:
                    if isinstance(x, Ev) and x.kind == 'index' and not is_vec(x, 'nodes') and not is_vec(x, 'edges') and steps(lo, x.vec):
                        dd._lv = x.vec
                        return dd._lv
    return None


def main_loops(dd):
    return [lo for lo in dd.loops if any(is_call(x, 'Problem::next_variable') for b in lo.backs for q in enum_paths(b, lo) for x in q.items)]


def main_paths(dd):
    """(loop or None, path, next_variable event): the paths of the body of the main loop, and of the whole compilation"""
    ml = main_loops(dd)
    for lo in ml:
        for b in lo.backs:
            for q in enum_paths(b, lo):
                yield lo, q


def length(place):
    return (place[0], place[1] + (('f', '#len'),))


def below_lb(q, r, vals):
    """facts: one of the values plus r does not exceed the lower bound of the input"""
    for x in q.f.fs:
        pass
    lbs = lower_bounds(q)
    for v in vals:
        s = T('sadd', *sorted((v, r), key=lambda t: t.id))
        if any(q.f.le(s, b) for b in lbs):
            return True
    return False


def lower_bounds(q):
    out = set()
    for f in q.f.fs:
        for k in list(f.rel) + [(k,) for k in f.bl]:
            for t in k:
                for y in subterms(t):
                    if y.op in ('init', 'read') and show(y).endswith('input.best_lb'):
                        out.add(y)
    return out


def expansion(ctx):
    ctx.rule('C33.node', 'every node of the layer is handed to for_each_in_domain, with the variable chosen for the layer and the node\'s own state, unless its value plus the rough bound of its own state does not exceed the lower bound of the input')
    ctx.rule('C33.decision', 'every decision of the domain is branched on')
    ctx.rule('C33.layer', 'every node entered in the next layer is in the layer expanded in the next iteration, all of which is gone through')
    ctx.rule('C33.end', 'the compilation ends only when there is no next variable or the layer is empty')
    for dd in dds(ctx):
        V = layer_vec(dd)
        ctx.ob('C33.layer', dd.name + ' found', V is not None and len(main_loops(dd)) == 1, 'the loop over the layers or over the nodes of a layer was not recognised')
        if V is None:
            continue
        n = skipped = nd = 0
        for lo in layer_loops(dd):
            ixs = loop_index(lo, V)
            for b in lo.backs:
                for q in enum_paths(b, lo):
                    n += 1
                    evs = [x for x in q.items if is_expand(x)]
                    k = dd.inst('node', q.items[0] if isinstance(q.items[0], Ev) else None)
                    if evs:
                        e = evs[0]
                        ctx.ob('C33.node', k + ' once', len(evs) == 1, 'a node is expanded several times', loc(e))
                        P = node_with(dd, lo, q, e.vals[2], 'state', deref=True)
                        ctx.ob('C33.node', k + ' of layer', P is not None and any(mentions(P, i) for i in ixs), 'the node expanded is not the current node of the layer: %s' % short_show(e.vals[2]), loc(e))
                        ctx.ob('C33.node', k + ' variable', 'next_variable' in show(e.vals[1]), 'the variable is %s' % short_show(e.vals[1]), loc(e))
                        cbs = [x for x in q.items if isinstance(x, LoopObj) and x.what and x.what[0] == 'callback']
                        ctx.ob('C33.decision', k + ' callback', len(cbs) == 1, 'the callback of for_each_in_domain was not analysed', loc(e))
                        for cb in cbs:
                            for b2 in cb.backs:
                                for q2 in enum_paths(b2, cb):
                                    nd += 1
                                    ts = [x for x in q2.items if trans(x)]
                                    arg = [x for x in q2.items if isinstance(x, Ev) and x.kind == 'callback'][:1]
                                    okd = len(ts) == 1 and arg and ts[0].vals[2] is arg[0].args[0]
                                    ctx.ob('C33.decision', k + ' branched', bool(okd), 'a decision of the domain is not branched on', loc(ts[0] if ts else e))
                                    if ts:
                                        ctx.ob('C33.decision', k + ' node', node_with(dd, cb, q2, ts[0].vals[1], 'state', deref=True) is P, 'the transition does not start from the node being expanded', loc(ts[0]))
                    else:
                        skipped += 1
                        ctx.ob('C33.node', k + ' skipped', skip_reason(dd, lo, q, ixs), 'a node of the layer is not expanded although its value plus its rough bound may exceed the lower bound', lo.site)
        ctx.ob('C33.node', dd.name + ' some', n > skipped > 0, 'nodes expanded: %d, skipped: %d' % (n - skipped, skipped))
        ctx.ob('C33.decision', dd.name + ' some', nd > 0, 'no decision is branched on')
        nm = 0
        for lo, q in main_paths(dd):
            nm += 1
            nv = [j for j, x in enumerate(q.items) if is_call(x, 'Problem::next_variable')]
            k = dd.name
            ctx.ob('C33.layer', k + ' one variable', len(nv) == 1, 'next_variable is called %d times for one layer' % len(nv), lo.site)
            fill = filled(dd, q, V)
            ctx.ob('C33.layer', k + ' filled', fill is not None, 'the nodes of the next layer are not all moved to the layer to expand', lo.site)
            exp = [j for j, x in enumerate(q.items) if isinstance(x, LoopObj) and x in layer_loops(dd)]
            okx = len(exp) == 1 and covers(q.items[exp[0]], q, V) and fill is not None and exp[0] > fill
            from .r_dd5 import prune_loops
            pr = {d for l2, d, rs in prune_loops(dd)}
            ctx.ob('C33.layer', k + ' covered', okx, 'the layer is not gone through completely', lo.site)
            bad = [x for j, x in enumerate(q.items) if isinstance(x, Ev) and (fill is None or j > fill) and
                   x not in pr and (x.kind in ('clear', 'drain', 'pop', 'remove') and (x.get('vec') == V or is_vec(x, 'next_l')) or x.kind in ('mremove',) and is_vec(x, 'next_l'))]
            ctx.ob('C33.layer', k + ' kept', not bad, 'nodes disappear from a layer: %s' % (bad and repr(bad[0])[:150]), lo.site)
        ctx.ob('C33.layer', dd.name + ' some', nm > 0, 'no path through the main loop')
        ne = 0
        for st, v in dd.outs:
            for q in enum_paths(st):
                ml = [x for x in q.items if isinstance(x, LoopObj) and x in main_loops(dd)]
                ctx.ob('C33.end', dd.name + ' reached', len(ml) == 1, 'a compilation returns without compiling any layer')
                if not ml:
                    continue
                ne += 1
                nv = [x for x in q.items[q.index(ml[0]):] if is_call(x, 'Problem::next_variable')]
                ok = bool(nv) and (q.f.isvar(nv[0].ret, 'None') is True or layer_empty(dd, q, V, ml[0]))
                ctx.ob('C33.end', dd.name + ' exit', ok, 'the compilation can stop although there is a next variable and the layer is not empty', ml[0].site)
        ctx.ob('C33.end', dd.name + ' some', ne > 1, 'exits: %d' % ne)


def layer_empty(dd, q, V, after):
    """the last layer moved out of the next layer was empty"""
    q = q.since(q.index(after))
    j = filled(dd, q, V)
    if j is None:
        return False
    for i in range(j + 1, len(q.items) + 1):
        x = q.items[i] if i < len(q.items) else q.end
        for s in [s for n, s in q.joins if n == i] + [x.pre if isinstance(x, LoopObj) else x]:
            if q.f.le(s.read(length(V)), Int(0)):
                return True
        if isinstance(x, LoopObj) and (x in layer_loops(dd) or any(has_prefix(p, V) for p in x.havoc)):
            return False
    return False


def skip_reason(dd, lo, q, ixs):
    for x in q.items:
        if is_call(x, 'Problem::estimate'):
            P = node_with(dd, lo, q, x.vals[1], 'state', deref=True)
            if P is not None and any(mentions(P, i) for i in ixs) and below_lb(q, x.ret, dd.reads(lo, q, node_place(dd, P, 'value'))):
                return True
    return False


def filled(dd, q, V):
    """position in the path after which the layer vector holds exactly the node ids of the (emptied) next layer"""
    d = None
    for j, x in enumerate(q.items):
        if isinstance(x, Ev) and x.kind == 'drain' and x.get('map') and is_vec(x, 'next_l'):
            d = x
        elif isinstance(x, LoopObj):
            it = loop_iter(x)
            if it is None or it.op != 'it' or not keeps_all(it):
                continue
            own = d is not None and it.args[0].endswith('own') and it.args[1] is d.val
            if not own and not (it.args[0] in ('map', 'values') and vec_is(it.args[1], 'next_l')):
                continue
            whole = x.what and x.what[0] in WHOLE or j + 1 < len(q.items) and isinstance(q.items[j + 1], Ev) and q.items[j + 1].kind == 'exhausted'
            Ls = {p2 for p in x.havoc if p[1][-1:] == (('f', '#len'),) for p2 in [(p[0], p[1][:-1])]}
            for L in Ls:
                if whole and x.pre.read(length(L)) is Int(0) and fills(x, L) and (L == V or becomes(q, j, x.head.read(length(L)), V)):
                    if own:
                        return j
                    # the next layer has to be emptied afterwards
                    for k, y in enumerate(q.items[j + 1:]):
                        if isinstance(y, LoopObj) and any(vec_is((p[0], p[1][:2]), 'next_l') for p in y.havoc):
                            break
                        if isinstance(y, Ev) and y.kind in ('clear', 'drain') and is_vec(y, 'next_l'):
                            return j + 1 + k
    return None


def fills(x, L):
    """every iteration appends the node id it looks at"""
    for b in x.backs:
        for q in enum_paths(b, x):
            ps = [y for y in q.items if isinstance(y, Ev) and y.get('vec') == L and y.kind in ('push', 'insert', 'pop', 'remove', 'clear', 'truncate', 'drain')]
            if not (len(ps) == 1 and ps[0].kind == 'push' and any(t.op == 'mkey' for t in subterms(ps[0].val)) and ps[0].val.op not in ('mkey',)):
                return False
    return bool(x.backs)


def becomes(q, j, n, V):
    """soon after, V is the vector of length n"""
    for k, s in q.joins:
        if k == j + 1 and s.read(length(V)) is n:
            return True
    for y in q.items[j + 1:]:
        if isinstance(y, LoopObj):
            return y.pre.read(length(V)) is n
        if y.read(length(V)) is n:
            return True
    return q.end.read(length(V)) is n


# ------------------------------------------------------------------ C11
def fact_terms(q):
    for f in q.f.fs:
        for k in list(f.rel):
            yield from k
        yield from f.bl
        yield from f.var


def input_terms(q, name):
    """terms on the path that are the given field of the compilation input"""
    if not hasattr(q, '_inp'):
        q._inp = {}
    if name not in q._inp:
        out = set()
        ts = list(fact_terms(q)) + [x.n for x in q.items if isinstance(x, Ev) and x.kind == 'truncate']
        for t in ts:
            for y in subterms(t):
                if y.op in ('init', 'read') and show(y).endswith('.' + name):
                    out.add(y)
        q._inp[name] = out
    return q._inp[name]


KINDS = ('Exact', 'Restricted', 'Relaxed')


def comp_kinds(q):
    """compilation types possible on the path"""
    ks = set(KINDS)
    for t in input_terms(q, 'comp_type'):
        ks = {k for k in ks if q.f.isvar(t, k) is not False}
        v = q.f.variant(t)
        if v is not None:
            ks &= {v}
    return ks


def merges(x):
    return is_call(x, 'Relaxation::merge')


def main_depth(dd):
    """(initial value, term) of the counters of the main loop that go up by one per layer"""
    out = []
    for lo in main_loops(dd):
        for p in lo.havoc:
            h = lo.head.read(p)
            if h.op == 'phi' and lo.backs and all(b.read(p) is Bin('Add', h, Int(1)) for b in lo.backs):
                out.append((lo.pre.read(p), h))
    return out


def root_depth(dd, q, t):
    """t is the depth of the root: 0, or the length of the path of the subproblem"""
    return t is Int(0)


def deep_enough(dd, q):
    """facts: the layer lies at least two layers below the root"""
    for d0, d in main_depth(dd):
        if q.f.lt(Bin('Add', d0, Int(1)), d) or q.f.le(Bin('Add', d0, Int(2)), d) or q.f.lt(Int(1), Bin('Sub', d, d0)) or q.f.le(Int(2), Bin('Sub', d, d0)):
            return True
    return False


def not_deep(dd, q):
    for d0, d in main_depth(dd):
        if q.f.le(d, Bin('Add', d0, Int(1))) or q.f.lt(d, Bin('Add', d0, Int(2))) or q.f.le(Bin('Sub', d, d0), Int(1)) or q.f.lt(Bin('Sub', d, d0), Int(2)):
            return True
    return False


def width(ctx):
    ctx.rule('C11.drop', 'nodes are cut off a layer only in a restricted compilation, and only those beyond the maximum width')
    ctx.rule('C11.merge', 'nodes are merged only in a relaxed compilation, in a layer wider than the maximum width that lies at least two layers below the root')
    ctx.rule('C11.limit', 'the layer that is expanded is within the maximum width in a restricted compilation, and in a relaxed one unless it is one of the first two')
    for dd in dds(ctx):
        V = layer_vec(dd)
        if V is None:
            ctx.ob('C11.limit', dd.name + ' found', False, 'the layer being expanded was not recognised')
            continue
        cnt = {'drop': 0, 'merge': 0, 'plain': 0}
        for lo, q in main_paths(dd):
            fill = filled(dd, q, V)
            if fill is None:
                ctx.ob('C11.limit', dd.name + ' filled', False, 'the layer is not filled from the next layer', lo.site)
                continue
            ex = [j for j, x in enumerate(q.items) if isinstance(x, LoopObj) and x in layer_loops(dd)]
            end = ex[0] if ex else len(q.items)
            evs = [x for x in q.items[fill + 1:end] if isinstance(x, Ev)]
            mws = input_terms(q, 'max_width')
            ks = comp_kinds(q)
            lens = []
            for j in range(fill, min(end + 1, len(q.items))):
                x = q.items[j]
                ss = [s for n, s in q.joins if n == j and j > fill] + [x if isinstance(x, Ev) else x.head if j == fill else x.pre]
                for s in ss:
                    if s.read(length(V)) not in lens:
                        lens.append(s.read(length(V)))
                if isinstance(x, Ev) and (x.kind == 'truncate' and x.vec == V or x.kind == 'push' and x.vec == V):
                    break
            before = lens
            from .r_dd5 import prune_loops, pruned_ok
            prs = {l2: rs for l2, d, rs in prune_loops(dd)}
            for x in q.items[fill + 1:end]:
                if isinstance(x, LoopObj) and x in prs:
                    w = [w for q2, b2, keep in prs[x] if not keep for w in [pruned_ok(ctx, dd, x, q2, b2)[1]] if w]
                    ctx.ob('C11.drop', dd.name + ' pruned', not w, w and w[0], x.site)
                elif isinstance(x, Ev) and x.kind == 'retained' and x.get('vec') == V:
                    ctx.ob('C11.drop', dd.name + ' removed', any(y in prs for y in q.items if isinstance(y, LoopObj)), 'nodes are taken out of the layer in an unrecognised way', loc(x))
            muts = [x for x in evs if x.kind in ('truncate', 'push', 'remove', 'pop', 'insert') and x.get('vec') == V]
            cuts = [x for x in muts if x.kind in ('truncate', 'remove', 'pop')]
            mg = [x for x in evs if merges(x)]
            k = dd.name
            # length after the reductions: each truncation bounds it, each push adds one
            bound = None
            for x in muts:
                if x.kind == 'truncate':
                    bound = x.n
                elif x.kind == 'push':
                    bound = Bin('Add', bound, Int(1)) if bound is not None else None
            within = bound is not None and any((delta(bound, w) or 0) > 0 or delta(bound, w) == 0 or q.f.le(bound, w) for w in mws)
            small = any(q.f.le(l, w) for l in before for w in mws)
            wide = any(q.f.lt(w, l) for l in before for w in mws)
            if mg:
                cnt['merge'] += 1
                early = [x for x in cuts if q.index(x) < q.index(mg[0])]
                ctx.ob('C11.drop', k + ' before merging', not early, 'nodes are dropped in a compilation that is %s' % '/'.join(sorted(ks)), loc((early or mg)[0]))
                ctx.ob('C11.merge', k + ' kind', ks == {'Relaxed'}, 'nodes can be merged in a compilation that is %s' % '/'.join(sorted(ks)), loc(mg[0]))
                ctx.ob('C11.merge', k + ' wide', wide, 'nodes are merged although the layer may be within the maximum width', loc(mg[0]))
                ctx.ob('C11.merge', k + ' depth', deep_enough(dd, q), 'nodes are merged although the layer may be the first one below the root (or the root itself)', loc(mg[0]))
                ctx.ob('C11.limit', k + ' merged', within, 'after merging the layer may still exceed the maximum width: %s' % (bound is not None and short_show(bound)), loc(mg[0]))
            elif cuts:
                cnt['drop'] += 1
                ctx.ob('C11.drop', k + ' kind', ks == {'Restricted'}, 'nodes can be dropped in a compilation that is %s' % '/'.join(sorted(ks)), loc(cuts[0]))
                ctx.ob('C11.drop', k + ' how', all(x.kind == 'truncate' and any(x.n is w or wide and q.f.le(w, x.n) for w in mws) for x in cuts) or not wide and False, 'more nodes are dropped than those beyond the maximum width', loc(cuts[0]))
                ctx.ob('C11.limit', k + ' cut', within, 'after the cut the layer may still exceed the maximum width: %s' % (bound is not None and short_show(bound)), loc(cuts[0]))
            else:
                cnt['plain'] += 1
                ctx.ob('C11.limit', k + ' restricted', 'Restricted' not in ks or small, 'a layer of a restricted compilation is expanded although it may exceed the maximum width', lo.site)
                ctx.ob('C11.limit', k + ' relaxed', 'Relaxed' not in ks or small or not_deep(dd, q), 'a layer of a relaxed compilation is expanded although it may exceed the maximum width', lo.site)
                ctx.ob('C11.drop', k + ' nothing added', not muts, 'nodes are added to the layer', lo.site)
        for lo in main_loops(dd):
            for d0, d in main_depth(dd):
                pass
        ctx.ob('C11.merge', dd.name + ' depth counter', any(root_level(dd, d0) for d0, d in main_depth(dd)), 'no counter goes up by one per layer from the depth of the root')
        for kk, v in cnt.items():
            ctx.ob('C11.limit', '%s some %s' % (dd.name, kk), v > 0, 'no path of this kind was found')


def root_level(dd, t):
    """the counter starts at zero or at the number of decisions of the root path"""
    if t is Int(0):
        return True
    s = show(t)
    return 'root_pa' in s and '#len' in s or 'residual.path' in s and '#len' in s


# ------------------------------------------------------------------ C31
def is_relax(x):
    return is_call(x, 'Relaxation::relax')


def is_inbound_cursor(dd, lo):
    """cursors of a loop that walks a chain of edges: [(phi, initial value)]"""
    out = []
    for p in lo.havoc:
        h = lo.head.read(p)
        if h.op != 'phi':
            continue
        e = project(payload(h), ('f', '0'))
        ok = bool(lo.backs)
        for b in lo.backs:
            nx = b.read(p)
            ok = ok and (nx is b.read(edge_place(dd, e, 'next')) or nx is lo.head.read(edge_place(dd, e, 'next')))
        if ok:
            out.append((h, lo.pre.read(p)))
    return out


def chain_loop(dd, lo, q, l3, X):
    """on path q the loop l3 goes through all the incoming edges of node X: the cursor, or None"""
    inb = dd.reads(lo, q, node_place(dd, X, 'inbound'))
    for h, i0 in is_inbound_cursor(dd, l3):
        if i0 in inb and q.f.isvar(h, 'None') is True and all(q3.f.isvar(h, 'Some') is True for b in l3.backs for q3 in enum_paths(b, l3)):
            return h
    return None


def slice_of(place, V):
    """(kept, removed from) if the place is the upper part of V"""
    if place[0] == V[0] and place[1][:len(V[1])] == V[1] and len(place[1]) == len(V[1]) + 1:
        pr = place[1][-1]
        if pr[0] == 'sl' and pr[1] == 'hi':
            return pr[2]
    return None


def contains_relax(lo, depth=3):
    for b in lo.backs:
        for q in enum_paths(b, lo):
            for x in q.items:
                if is_relax(x) or depth and isinstance(x, LoopObj) and contains_relax(x, depth - 1):
                    return True
    return False


def merging(ctx):
    ctx.rule('C31.states', 'the merged state is the user\'s merge of the states of exactly the nodes of the layer that are removed')
    ctx.rule('C31.edges', 'every incoming edge of every removed node is visited, and for each exactly one edge is added, with the same source and decision and the cost given by the user\'s relax for the source state, the removed state, the merged state, the decision and the original cost')
    ctx.rule('C31.join', 'the new edges are prepended to the incoming edges of the merged node, whose value and best edge are replaced together, exactly when the new value is better (or equal)')
    ctx.rule('C31.node', 'the merged node is a new node with the merged state and no edge, or a kept node of the layer whose state equals the merged state; it is flagged relaxed before it is expanded')
    ctx.rule('C31.layer', 'only nodes of the merged group leave the layer, and the merged node is in it')
    ctx.rule('C31.deleted', 'where nodes are flagged as deleted, exactly the nodes of the merged group that leave the layer are')
    bits = flag_bits(ctx)
    R, DEL = bits.get('relaxed'), bits.get('deleted')
    for dd in dds(ctx):
        V = layer_vec(dd)
        if V is None:
            ctx.ob('C31.layer', dd.name + ' found', False, 'the layer being expanded was not recognised')
            continue
        uses_deleted = tests_flag(dd, DEL)
        n = ne = 0
        kinds = set()
        for lo, q in main_paths(dd):
            mg = [x for x in q.items if merges(x)]
            if not mg:
                continue
            n += 1
            m = mg[0]
            k = dd.name
            ctx.ob('C31.states', k + ' once', len(mg) == 1, 'merge is called %d times for one layer' % len(mg), loc(m))
            j = q.index(m)
            feeds = [x for x in q.items[j:j + 3] if isinstance(x, LoopObj) and x.what and x.what[0] == 'feed']
            if not feeds:
                ctx.ob('C31.states', k + ' fed', False, 'the states given to merge were not recognised', loc(m))
                continue
            it = loop_iter(feeds[0])
            S = it.args[1] if it is not None and it.op == 'it' and it.args[0] == 'vec' else None
            mid = slice_of(S, V) if S is not None else None
            ctx.ob('C31.states', k + ' slice', mid is not None and keeps_all(it), 'merge is not given all the nodes of the removed part of the layer: %s' % (it is not None and short_show(it)), loc(m))
            if mid is None or mid.op == 'bin' and mid.args[0] == 'Sub' and mid.args[2] is Int(1) and q.f.le(mid.args[1], Int(0)):     # there is no part that starts before the layer
                continue
            fx = loop_index(feeds[0], S)
            for b in feeds[0].backs:
                for q2 in enum_paths(b, feeds[0]):
                    f = [x for x in q2.items if isinstance(x, Ev) and x.kind == 'feed']
                    okf = False
                    if len(f) == 1:
                        for i in indexed(q2, 'nodes'):
                            st = dd.reads(feeds[0], q2, node_place(dd, i, 'state'))
                            if any(project(s, ('d',)) is f[0].val or s is f[0].val for s in st) and any(t.op == 'ix' for t in subterms(i)):
                                okf = True
                    ctx.ob('C31.states', k + ' state', okf, 'what is given to merge is not the state of a node of the group', loc(m))
            # the merged node
            MS = m.ret
            nps = [x for x in q.items[j:] if isinstance(x, Ev) and x.kind == 'push' and is_vec(x, 'nodes')]
            rl = [x for x in q.items[j:] if isinstance(x, LoopObj) and x not in layer_loops(dd) and contains_relax(x)]
            ctx.ob('C31.edges', k + ' loop', len(rl) == 1 and covers(rl[0], q, S), 'the removed nodes are not all gone through', loc(m))
            if len(rl) != 1:
                continue
            M = None
            if nps:
                kinds.add('new')
                x = nps[0]
                M = x.at
                N = x.val
                ok = len(nps) == 1 and same_key(val(N, 'state'), MS) and val(N, 'best') is NONE_T and val(N, 'inbound') is NONE_T and is_min(val(N, 'value'))
                ctx.ob('C31.node', k + ' new', ok, 'the merged node is %s' % short_show(N, n=300), loc(x))
            else:
                kinds.add('kept')
                for i in indexed(q, 'nodes'):
                    if from_kept(i, V, mid, q):
                        for s in dd.reads(None, q, node_place(dd, i, 'state')):
                            if q.f.eq(s, MS) or same_key(s, MS) or any(q.f.eq(a, b) for a in (s, project(s, ('d',))) for b in (MS, T('arc', MS))):
                                M = i
                ctx.ob('C31.node', k + ' kept', M is not None, 'no new node is created, and no kept node is known to have the merged state', loc(m))
            if M is None:
                continue
            ctx.ob('C31.node', k + ' relaxed', flagged(dd, q, j, M, R), 'the merged node is not flagged as relaxed', loc(m))
            # the layer
            muts = [x for x in q.items[j:] if isinstance(x, Ev) and (x.get('vec') == V and x.kind in ('truncate', 'push', 'remove', 'pop', 'insert', 'clear', 'drain') or set_in(x, V))]
            ptr = None
            taken = 0
            inl = not nps
            okl = True
            for x in muts:
                if x.kind == 'truncate':
                    ptr = x.n
                    okl = okl and not inl if nps else okl
                    okl = okl and (delta(mid, x.n) is not None and delta(mid, x.n) >= 0 or q.f.le(mid, x.n))
                elif x.kind == 'push':
                    okl = okl and val(x.val, '0') is M
                    inl = inl or val(x.val, '0') is M
                elif x.kind == 'write':
                    # the only node of the group that is still there makes room for the merged one
                    okl = okl and x.place[1][-1] == ('i', mid) and ptr is not None and delta(mid, ptr) == 1 and val(x.val, '0') is M
                    inl, taken = True, 1
                else:
                    okl = False
            ctx.ob('C31.layer', k + (' new' if nps else ' kept'), okl and inl, 'the layer does not keep all other nodes, or lacks the merged node: %s' % '; '.join(repr(x)[:120] for x in muts), loc(m))
            # edges
            r = rl[0]
            for b in r.backs:
                for q2 in enum_paths(b, r):
                    D = elem_index(dd, r, S, q2)
                    inner = [x for x in q2.items if isinstance(x, LoopObj) and contains_relax(x)]
                    h = chain_loop(dd, r, q2, inner[0], D) if D is not None and len(inner) == 1 else None
                    ctx.ob('C31.edges', k + ' all', h is not None, 'the incoming edges of a removed node are not all visited', r.site)
                    if uses_deleted:
                        w = [q2.end.read(node_place(dd, D, 'flags', '0'))] if D is not None else []
                        ctx.ob('C31.deleted', k + ' flagged', any(has_bit(q2.f, x, DEL) is True for x in w), 'a removed node is not flagged as deleted', r.site)
                    if h is None:
                        continue
                    l3 = inner[0]
                    for b3 in l3.backs:
                        for q3 in enum_paths(b3, l3):
                            ne += 1
                            relaxed_edge(ctx, dd, k, l3, q3, h, D, MS, M)
            if uses_deleted:
                # nodes of the group that stay in the layer are not deleted
                stay = delta(mid, ptr) - taken if ptr is not None and delta(mid, ptr) is not None else None
                un = [x for x in q.items[q.index(r):] if isinstance(x, Ev) and flag_write(x)]
                okd = stay == 0
                if stay == 1:
                    w = [x for x in un if has_bit(q.f, flag_write(x)[1], DEL) is False and is_elem(flag_write(x)[0], V, mid, q)]
                    okd = bool(w)
                ctx.ob('C31.deleted', k + ' kept', okd, 'a node that stays in the layer is left flagged as deleted', loc(m))
        ctx.ob('C31.edges', dd.name + ' some', ne > 0, 'no edge is redirected')
        ctx.ob('C31.node', dd.name + ' some', n > 0 and 'new' in kinds, 'no merge was found')
        if uses_deleted:
            for lo, q in dd.scopes():
                for x in q.items:
                    if isinstance(x, Ev):
                        w = flag_write(x)
                        if w and DEL is not None and w[1].op == 'bits' and w[1].args[1] & DEL:
                            ctx.ob('C31.deleted', dd.inst('only merged', x), lo is not None and contains_relax(lo), 'a node is flagged as deleted outside a merge', loc(x))


def is_min(t):
    return show(t) == 'isize::MIN' or t is Int(-2**63)


def from_kept(i, V, mid, q):
    """the node index is an element of the kept part of the layer"""
    for t in subterms(i):
        if t.op == 'ix' and isinstance(t.args[-1], Term) and t.args[-1].op == 'it' and t.args[-1].args[0] == 'vec':
            p = t.args[-1].args[1]
            if p[0] == V[0] and len(p[1]) == len(V[1]) + 1 and p[1][-1][0] == 'sl' and p[1][-1][1] == 'lo':
                return True
    return False


def set_in(x, V):
    """an element of the layer is replaced"""
    return x.kind == 'write' and x.place[0] == V[0] and x.place[1][:len(V[1])] == V[1] and len(x.place[1]) == len(V[1]) + 1 and x.place[1][-1][0] == 'i'


def is_elem(i, V, at, q):
    """the node index is the id stored in V at the given position"""
    return i.op == 'fld' and False or any(t.op == 'idx' and t.args[-1] is at for t in subterms(i))


def flag_write(ev):
    """(node index, new flag word) of a write to the flags of a node"""
    w = node_write(ev)
    if not w or w[1][0] != 'flags':
        return None
    return w[0], ev.val if len(w[1]) == 2 else word(ev.val)


def flag_writes_in(items, depth=4):
    for x in items:
        if isinstance(x, Ev):
            w = flag_write(x)
            if w:
                yield w
        elif isinstance(x, LoopObj) and depth:
            for b in x.backs:
                for q in enum_paths(b, x):
                    yield from flag_writes_in(q.items, depth - 1)


def flagged(dd, q, j, M, bit):
    """the bit of node M is set at some point of the path after item j, before the layer is expanded, and never cleared later"""
    end = [i for i, x in enumerate(q.items) if isinstance(x, LoopObj) and x in layer_loops(dd)]
    end = end[0] if end else len(q.items)
    for i in range(j, end + 1):
        x = q.items[i] if i < len(q.items) else q.end
        s = x.pre if isinstance(x, LoopObj) else x
        if has_bit(q.f, s.read(node_place(dd, M, 'flags', '0')), bit) is True:
            return all(w.op == 'bits' and not w.args[2] & bit or w.op == 'int' and w.args[0] & bit for n, w in flag_writes_in(q.items[i:end]))
    return False


def elem_index(dd, lo, S, q):
    """the node index the body of a loop over node ids works on"""
    for i in indexed(q, 'nodes'):
        if any(mentions(i, t) for t in loop_index(lo, S)):
            return i
    return None


def relaxed_edge(ctx, dd, k, lo, q, h, D, MS, M):
    e = project(payload(h), ('f', '0'))
    ed = lambda *n: dd.reads(lo, q, edge_place(dd, e, *n))
    rs = [x for x in q.items if is_relax(x)]
    ctx.ob('C31.edges', k + ' one relax', len(rs) == 1, 'relax is called %d times for one edge' % len(rs), lo.site)
    if len(rs) != 1:
        return
    r = rs[0]
    F = None
    for f in ed('from', '0'):
        F = f
        break
    src = node_with(dd, lo, q, r.vals[1], 'state', deref=True)
    ctx.ob('C31.edges', k + ' source', src is not None and src in ed('from', '0'), 'relax is not given the state of the source of the edge', loc(r))
    dst = node_with(dd, lo, q, r.vals[2], 'state', deref=True)
    ctx.ob('C31.edges', k + ' removed', dst is D, 'relax is not given the state of the removed node', loc(r))
    ctx.ob('C31.edges', k + ' merged', same_key(r.vals[3], MS) or project(r.vals[3], ('d',)) is MS, 'relax is not given the merged state', loc(r))
    ctx.ob('C31.edges', k + ' decision', r.vals[4] in ed('decision'), 'relax is not given the decision of the edge', loc(r))
    ctx.ob('C31.edges', k + ' cost', r.vals[5] in ed('cost'), 'relax is not given the cost of the edge', loc(r))
    eps = [x for x in q.items if isinstance(x, Ev) and x.kind == 'push' and is_vec(x, 'edges')]
    ctx.ob('C31.edges', k + ' one edge', len(eps) == 1, '%d edges are added for one edge' % len(eps), lo.site)
    if len(eps) != 1:
        return
    x = eps[0]
    V = x.val
    ctx.ob('C31.edges', k + ' fields', val(V, 'from', '0') in ed('from', '0') and val(V, 'decision') in ed('decision') and val(V, 'cost') is r.ret, 'the edge is %s' % short_show(V, n=300), loc(x))
    W, bad = {}, []
    for y in q.items:
        if isinstance(y, Ev):
            w = node_write(y)
            if w and w[1][0] in ('value', 'best', 'inbound', 'state'):
                if w[0] is M and w[1][0] != 'state':
                    W.setdefault(w[1][0], []).append(y)
                else:
                    bad.append(y)
    ctx.ob('C31.join', k + ' others', not bad, 'another node than the merged one is changed', loc((bad or [x])[0]))
    joined(ctx, 'C31.join', k, dd, lo, q, M, W, x.at, V, r.ret, src, x, r)


def tests_flag(dd, bit):
    """the diagram reads the flag"""
    if bit is None:
        return False
    for lo, q in dd.scopes():
        for f in q.f.fs:
            for t in f.bl:
                if t.op == 'bit' and t.args[1] == bit:
                    return True
    return False


# ------------------------------------------------------------------ C10
def word_exact(ctx, f, w):
    b = flag_bits(ctx)
    return has_bit(f, w, b['exact']) is True and has_bit(f, w, b['relaxed']) is False


def not_relaxed(ctx, f, w):
    return has_bit(f, w, flag_bits(ctx)['relaxed']) is False


def reached(ctx, dd, lo, q, start, good=None):
    """optional node ids reached from the given one along best edges without leaving a relaxed node: ('none',) or node index"""
    out, todo, seen = [], [start], set()
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if q.f.isvar(t, 'None') is True or t is NONE_T:
            out.append(('none', None))
            continue
        if not (q.f.isvar(t, 'Some') is True or is_agg(t, None, 'Some')):
            continue
        x = some_id(t) if is_agg(t, None, 'Some') else project(payload(t), ('f', '0'))
        out.append(('node', x))
        ws = dd.reads(lo, q, node_place(dd, x, 'flags', '0'))
        if not any(not_relaxed(ctx, q.f, w) for w in ws):
            continue
        for b in dd.reads(lo, q, node_place(dd, x, 'best')):
            v = q.f.variant(b)
            if b is NONE_T or q.f.isvar(b, 'None') is True:
                todo.append(NONE_T)
            elif q.f.isvar(b, 'Some') is True or is_agg(b, None, 'Some'):
                e = some_id(b) if is_agg(b, None, 'Some') else project(payload(b), ('f', '0'))
                for fr in dd.reads(lo, q, edge_place(dd, e, 'from')):
                    todo.append(Some(fr))
        # cursors of loops that start here
        for it in q.items:
            if isinstance(it, LoopObj):
                for p in it.havoc:
                    h = it.head.read(p)
                    if h.op == 'phi' and it.pre.read(p) is t and all(in_reached(ctx, dd, it, q2, h, b.read(p)) for b in it.backs for q2 in enum_paths(b, it)):
                        todo.append(h)
    for it in q.items:
        if isinstance(it, LoopObj):
            for p in it.havoc:
                h = it.head.read(p)
                if h.op == 'phi' and it.pre.read(p) is start and h not in seen and all(in_reached(ctx, dd, it, q2, h, b.read(p)) for b in it.backs for q2 in enum_paths(b, it)):
                    out += reached(ctx, dd, lo, q, h)
    return out


def in_reached(ctx, dd, lo, q, start, t):
    r = reached(ctx, dd, lo, q, start)
    if t is NONE_T or q.f.isvar(t, 'None') is True:
        return ('none', None) in r
    x = some_id(t) if is_agg(t, None, 'Some') else project(payload(t), ('f', '0'))
    return ('node', x) in r


def claims_exact_path(ctx, dd, lo, q, start, value, seen=()):
    """the value is true only if the best path that ends in the node `start` meets an exact node before any relaxed one"""
    if value is Bool(False):
        return True
    r = reached(ctx, dd, lo, q, start)
    if any(k == 'none' or any(word_exact(ctx, q.f, w) for w in dd.reads(lo, q, node_place(dd, x, 'flags', '0'))) for k, x in r):
        return True
    for e in q.items:
        if isinstance(e, Ev) and e.kind == 'call' and e.name.startswith('rec:') and e.ret is value:
            for v in e.vals:
                if v.op == 'agg' and in_r(v, r) or v is NONE_T and ('none', None) in r or v.op == 'bin' and False:
                    return rec_function_ok(ctx, dd, e.name[4:], seen)
                if isinstance(v, Term) and project(v, ('f', '0')) in [x for k, x in r if k == 'node'] and v.op != 'agg':
                    return rec_function_ok(ctx, dd, e.name[4:], seen)
    return False


def in_r(v, r):
    x = some_id(v) if is_agg(v, None, 'Some') else project(v, ('f', '0'))
    return ('node', x) in r


def rec_function_ok(ctx, dd, name, seen):
    if name in seen:
        return True
    ids = ctx.prog().find(name=name, self_adt=dd.name)
    if len(ids) != 1:
        return False
    eng, outs = ctx.run(ids[0])
    body = ctx.prog().body(ids[0])
    ok = True
    for st, v in outs:
        for q in enum_paths(st):
            good = False
            for i in range(1, body.argc + 1):
                s = T('sym', body.locals[i][1] or 'arg%d' % i)
                for start in (s, Some(s)):
                    if claims_exact_path(ctx, dd, None, q, start, v, seen + (name,)):
                        good = True
            tv = q.f.truth(v) if v.op != 'bool' else v.args[0]
            ok = ok and (good or tv is False)
    return ok


def reductions(dd, items, V):
    return [x for x in items if isinstance(x, Ev) and (merges(x) or x.kind in ('truncate', 'remove', 'pop', 'insert') and x.get('vec') == V)]


def drop_memory(dd, V):
    """[(place, value it gets when nodes are dropped or merged)]: the booleans of self that remember a reduction"""
    out = []
    for lo in main_loops(dd):
        for p in list(lo.havoc):
            h = lo.head.read(p)
            if h.op != 'phi' or p[0][0] == 'local':
                continue
            qs = [(q, path_value(q, p, h)) for b in lo.backs for q in enum_paths(b, lo)]
            for v in (True, False):
                if all(x is Bool(v) or not reductions(dd, q.items, V) and x is h for q, x in qs):
                    out.append((p, h, v))
    return out


def path_value(q, p, first):
    """value of a scalar place at the end of the path"""
    v = first
    for x in q.items:
        if isinstance(x, Ev) and x.kind == 'write' and (x.place == p or has_prefix(p, x.place)):
            v = x.val if x.place == p else None
        elif isinstance(x, LoopObj) and any(has_prefix(p, h) for h in x.havoc):
            v = None
    return v


def exactness(ctx):
    ctx.rule('C10.claim', 'at every return of the compilation the diagram is marked exact only if a flag set by every reduction of the compilation is known to be unset, or if it is a relaxed diagram whose best path is found to meet an exact node before any merged one')
    ctx.rule('C10.memory', 'every truncation and merge of a layer is remembered until the end of the compilation')
    ctx.rule('C10.flags', 'a node counts as exact only if the parent on its best path does; a merged node never does; no other flag update makes a node exact')
    ctx.rule('C10.query', 'is_exact answers with the mark left by the last compilation')
    bits = flag_bits(ctx)
    ctx.ob('C10.flags', 'bits', all(bits.get(k) for k in ('exact', 'relaxed')) and bits['exact'] != bits['relaxed'], 'the flags of a node were not recognised')
    for dd in dds(ctx):
        V = layer_vec(dd)
        # query
        F = None
        e, outs = ctx.run(dd.ids['is_exact'])
        vs = {v for st, v in outs}
        for v in vs:
            if v.op in ('init', 'read') and len(vs) == 1:
                F = show(v).split('.')[-1]
        ctx.ob('C10.query', dd.name, F is not None, 'is_exact does not return a field of the diagram: %s' % [short_show(v) for v in vs])
        if F is None or V is None:
            continue
        mem = drop_memory(dd, V)
        ctx.ob('C10.memory', dd.name + ' found', bool(mem), 'no boolean of the diagram is set by every reduction and left alone otherwise')
        n = nt = 0
        for st, v in dd.outs:
            for q0 in enum_paths(st):
                ml = [x for x in q0.items if isinstance(x, LoopObj) and x in main_loops(dd)]
                if not ml:
                    continue
                n += 1
                q = q0.since(q0.index(ml[0]) + 1)
                val_ = q0.end.read(fld_place(dd, ('f', F)))
                if val_ is Bool(False) or q.f.truth(val_) is False:
                    continue
                nt += 1
                red = reductions(dd, q.items, V)
                ok1 = not red and any(q.f.truth(h) is (not v) for p, h, v in mem) or not red and any(val_ is Not(h) and v for p, h, v in mem)
                ks = comp_kinds(q)
                best = q0.end.read(fld_place(dd, ('f', 'best_n')))
                ok2 = ks == {'Relaxed'} and claims_exact_path(ctx, dd, None, q, best, val_)
                at = [x for x in q.items if isinstance(x, Ev) and x.kind == 'write' and fields(x.place)[-1:] == (F,)]
                ctx.ob('C10.claim', dd.name + (' layer empty' if q.f.isvar(nv_ret(q), 'Some') else ' end'), ok1 or ok2, 'the diagram can be marked exact (%s) in a %s compilation after nodes were dropped or merged' % (short_show(val_, n=60), '/'.join(sorted(ks))), loc(at[-1]) if at else ml[0].site)
        ctx.ob('C10.claim', dd.name + ' some', n > nt > 0, 'returns: %d, exact: %d' % (n, nt))
        # flags
        nf = 0
        for lo, q in dd.scopes():
            ts = [x for x in q.items if trans(x)]
            rel = [x for x in q.items if is_relax(x)]
            for x in q.items:
                if not isinstance(x, Ev):
                    continue
                if x.kind == 'push' and is_vec(x, 'nodes'):
                    w = word(val(x.val, 'flags'))
                    nf += 1
                    if ts:
                        P = node_with(dd, lo, q, ts[0].vals[1], 'state', deref=True)
                        olds = dd.reads(lo, q, node_place(dd, P, 'flags', '0')) if P is not None else []
                        ctx.ob('C10.flags', dd.inst('new', x), exact_implies(ctx, q.f, w, olds), 'a new node may count as exact although its parent does not', loc(x))
                    elif [y for y in q.items if merges(y)]:
                        ctx.ob('C10.flags', dd.inst('merged', x), exact_implies(ctx, q.f, w, []), 'a merged node counts as exact', loc(x))
                fw = flag_write(x)
                if fw:
                    i, w = fw
                    nf += 1
                    olds = set(dd.reads(lo, q, node_place(dd, i, 'flags', '0')))
                    k = 'updated'
                    if ts and any(y.kind == 'write' and node_write(y) and node_write(y)[0] is i and node_write(y)[1][0] == 'best' for y in q.items if isinstance(y, Ev)):
                        P = node_with(dd, lo, q, ts[0].vals[1], 'state', deref=True)
                        olds = set(dd.reads(lo, q, node_place(dd, P, 'flags', '0'))) if P is not None else set()
                        k = 'best replaced'
                    ctx.ob('C10.flags', dd.inst(k, x), exact_implies(ctx, q.f, w, olds - {w} if k == 'updated' else olds), 'the update can make a node count as exact: %s' % short_show(w), loc(x))
            # a better parent that is not exact
            if ts:
                for X in {node_write(y)[0] for y in q.items if isinstance(y, Ev) and node_write(y) and node_write(y)[1][0] == 'best'}:
                    P = node_with(dd, lo, q, ts[0].vals[1], 'state', deref=True)
                    w = q.end.read(node_place(dd, X, 'flags', '0'))
                    olds = dd.reads(lo, q, node_place(dd, P, 'flags', '0')) if P is not None else []
                    nf += 1
                    ctx.ob('C10.flags', dd.inst('best parent', ts[0]), exact_implies(ctx, q.f, w, olds), 'a node may count as exact although the parent on its best path does not', loc(ts[0]))
        for lo, q in main_paths(dd):
            mg = [x for x in q.items if merges(x)]
            if mg:
                ctx.ob('C10.flags', dd.name + ' merged flagged', merged_flagged(ctx, dd, q, mg[0], V), 'the node standing for the merged ones is not flagged as relaxed', loc(mg[0]))
        ctx.ob('C10.flags', dd.name + ' some', nf > 2, 'updates of flags: %d' % nf)


def nv_ret(q):
    for x in q.items:
        if is_call(x, 'Problem::next_variable'):
            return x.ret
    return NONE_T


def merged_flagged(ctx, dd, q, m, V):
    """the target of the redirected edges is flagged relaxed before the layer is expanded"""
    j = q.index(m)
    R = flag_bits(ctx)['relaxed']
    ms = set()
    for lo in [x for x in q.items[j:] if isinstance(x, LoopObj) and x not in layer_loops(dd) and contains_relax(x)]:
        for y in inner_events(lo):
            w = node_write(y)
            if w and w[1][0] == 'inbound':
                ms.add(w[0])
    return bool(ms) and all(flagged(dd, q, j, M, R) for M in ms)


def inner_events(lo, depth=3):
    for b in lo.backs:
        for q in enum_paths(b, lo):
            for x in q.items:
                if isinstance(x, Ev):
                    yield x
                elif isinstance(x, LoopObj) and depth:
                    yield from inner_events(x, depth - 1)
