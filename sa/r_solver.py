"""Rules about the parallel branch-and-bound solvers."""
from .q import *
from .engine import read_mem

MIN, MAX = Int(-(1 << 63)), Int((1 << 63) - 1)


class Section:
    """one path through a critical section of the shared state"""

    def __init__(self, path, place, start, lock, end):
        self.path, self.place, self.start, self.lock, self.end = path, place, start, lock, end
        self.f = path.f
        self.items = path.items

    def before(self, *names):
        return proj(self.start, *names)

    def after(self, *names):
        return self.end.read(sub(self.place, *[('f', n) for n in names]))


def sub(place, *projs):
    return (place[0], place[1] + tuple(projs))


class SolverModel:
    """everything the rules need about one solver type, for each way of running it"""

    def __init__(self, ctx, adt):
        self.ctx, self.adt = ctx, adt
        p = ctx.prog()
        self.prog = p
        self.name = adt.split('::')[-1]
        self.runs = {}
        for m in ('maximize', 'maximize_with_interrupt'):
            ids = p.find(name=m, self_adt=self.name)
            if len(ids) == 1:
                self.runs[m] = ctx.run(ids[0], 'solver')
        self._sec = {}

    def sections(self, m):
        if m not in self._sec:
            e, outs = self.runs[m]
            res = []
            for u in all_events(outs, 'unlock', 'wait'):
                g = u.guard
                if g is None or g.args[1] != 'mutex':
                    continue
                res += self.section_paths(u, g.args[0])
            self._sec[m] = res
        return self._sec[m]

    def section_paths(self, u, place):
        out = []

        def go(h, items, fs):
            while h is not None:
                it = h.item
                if isinstance(it, Ev) and it.kind == 'lock' and it.place == place:
                    out.append(Section(Path(items[::-1], fs, u), place, it.content, it, u))
                    return
                if isinstance(it, Ev) and it.kind == 'wait' and it.guard is not None and it.guard.args[0] == place:
                    out.append(Section(Path(items[::-1], fs, u), place, it.content, it, u))
                    return
                if isinstance(it, LoopObj) and any(place[0] == p[0] and place[1][:len(p[1])] == p[1] for p in it.havoc):
                    out.append(Section(Path(items[::-1], fs, u), place, it.head.read(place), it, u))
                    return
                if isinstance(it, Join):
                    for hh, s in zip(it.hists, it.states):
                        go(hh, list(items), fs + [s.facts])
                    return
                items.append(it)
                h = h.prev
        go(u.hist, [], [u.facts])
        return out


def models(ctx):
    if not hasattr(ctx, '_solvers'):
        p = ctx.prog()
        ctx._solvers = [SolverModel(ctx, a) for a in p.implementors('Solver')]
    return ctx._solvers


# ------------------------------------------------------------------ vocabulary
def strip_some(v):
    if is_agg(v, None, 'Some'):
        return v.args[3][0]
    return v


def dd_call(t, name):
    """diagram content X if t is `name` of the diagram with content X (possibly re-wrapped in Some)"""
    if t.op == 'call' and t.args[0] == 'DD::' + name:
        return t.args[1]
    if is_agg(t, None, 'Some'):
        x = unpayload(t.args[3][0])
        if x is not None:
            return dd_call(x, name)
    return None


def unpayload(t):
    """o such that t is the payload of Some(o)"""
    if t.op == 'fld' and t.args[1] == '0' and t.args[0].op == 'down' and t.args[0].args[1] == 'Some':
        return t.args[0].args[0]
    return None


def dd_value(t):
    x = unpayload(t)
    return dd_call(x, 'best_value') if x is not None else None


def resolve_max(t, f):
    """max/min terms decided by the facts of the path"""
    if t.op in ('max', 'min'):
        xs = list(t.args)
        keep = []
        for i, x in enumerate(xs):
            others = xs[:i] + xs[i + 1:]
            if t.op == 'max' and any((f.le(x, y) if y not in keep else f.le(x, y)) for y in others if not (f.eq(x, y) and xs.index(y) > i)):
                continue
            if t.op == 'min' and any(f.le(y, x) for y in others if not (f.eq(x, y) and xs.index(y) > i)):
                continue
            keep.append(x)
        if len(keep) == 1:
            return keep[0]
    return t


def known_lbs(model, m):
    """terms that are the incumbent value as read from (or just written to) the shared state"""
    k = ('lbs', m)
    if k not in model._sec:
        s = set()
        for x in model.sections(m):
            s.add(x.before('best_lb'))
            s.add(x.after('best_lb'))
        model._sec[k] = s
    return model._sec[k]


def complete(s):
    """facts of a section show that nothing is open and nobody is busy"""
    f = s.f
    if not f.le(s.after('ongoing'), Int(0)):
        return False
    return fringe_empty(s)


def fringe_places(model, m):
    e, outs = model.runs[m]
    k = ('fp', m)
    if k not in model._sec:
        model._sec[k] = {ev.place for ev in all_events(outs, 'fpush', 'fpop', 'fclear')}
    return model._sec[k]


def fringe_empty(s):
    from .cuts import flen
    for fp in s.fps:
        c = s.end.read(fp)
        l = flen(c)
        if s.f.eq(l, Int(0)) or s.f.le(l, Int(0)):
            return True
    return False


def sections(model, m):
    ss = model.sections(m)
    fps = fringe_places(model, m)
    for s in ss:
        s.fps = fps
    return ss


def inst(model, m, ev, extra=''):
    fn = str(getattr(ev, 'fn', '')).split('::')[-1]
    return '%s.%s@%s%s' % (model.name, m, fn, (' ' + extra) if extra else '')


def each(ctx):
    ms = models(ctx)
    ctx.ob('anchors', 'two solvers', len(ms) >= 2, 'expected at least two implementations of the solver interface, found %d' % len(ms))
    for mo in ms:
        for r in ('maximize', 'maximize_with_interrupt'):
            ok = r in mo.runs
            ctx.ob('anchors', '%s.%s' % (mo.name, r), ok, 'entry point not found')
            if ok:
                yield mo, r


# ------------------------------------------------------------------ C01
def incumbent_pair(ctx):
    ctx.rule('C01.pair', 'in every critical section the incumbent value and solution are both untouched, or both set from the best value and best solution of one and the same diagram, the value being at least the stored one')
    for mo, m in each(ctx):
        n = 0
        for s in sections(mo, m):
            a, b = s.before('best_lb'), s.after('best_lb')
            sa, sb = s.before('best_sol'), s.after('best_sol')
            b = resolve_max(b, s.f)
            if b is a and sb is sa:
                continue
            n += 1
            key = inst(mo, m, s.end)
            X, Y = dd_value(b), dd_call(sb, 'best_solution')
            if b is MIN and Y is not None and s.f.isvar(T('call', 'DD::best_value', Y), 'None'):
                X = Y
            ctx.ob('C01.pair', key + ' value', X is not None, 'the incumbent value is set to %s, which is not the best value of a diagram' % short_show(b), loc(s.end))
            ctx.ob('C01.pair', key + ' same diagram', X is not None and X is Y, 'value and solution of the incumbent are not replaced together from the same diagram (value %s, solution %s)' % (short_show(b, n=120), short_show(sb, n=120)), loc(s.end))
            ctx.ob('C01.pair', key + ' not worse', s.f.le(a, b), 'no check in the same critical section that the new value %s is at least the stored one' % short_show(b, n=120), loc(s.end))
        ctx.ob('C01.pair', '%s.%s some update' % (mo.name, m), n > 0, 'no critical section updates the incumbent')


def getters(ctx):
    ctx.rule('C01.getters', 'the public getters return the stored value, solution and bounds; the value is reported exactly when a solution is stored')
    p = ctx.prog()
    for mo in models(ctx):
        for meth, spec in (('best_value', 'value'), ('best_value_so_far', 'value'), ('best_solution', 'sol'), ('best_solution_so_far', 'sol'),
                           ('best_lower_bound', 'lb'), ('best_upper_bound', 'ub')):
            ids = p.find(name=meth, self_adt=mo.name)
            ids = [i for i in ids if (p.bodies[i].get('trait') or '').split('::')[-1] in ('Solver', 'InterruptibleSolver')]
            key = '%s.%s' % (mo.name, meth)
            ctx.ob('C01.getters', key + ' found', len(ids) == 1, 'public getter not found')
            if len(ids) != 1:
                continue
            e, outs = ctx.run(ids[0], 'solver')
            for st, v in outs:
                f = FactBag([st.facts])
                locks = [x for x in all_events([(st, v)], 'lock') if x.lkind == 'mutex']
                c = locks[0].content if locks else None
                if c is None:
                    ctx.ob('C01.getters', key, False, 'does not read the shared state', e.root_site if hasattr(e, 'root_site') else '')
                    continue
                if len(locks) > 1:
                    # value and existence must come from one acquisition
                    ctx.ob('C01.getters', key + ' one acquisition', spec != 'value', 'reads the shared state under two separate lock acquisitions', loc(locks[1]))
                sol = proj(c, 'best_sol')
                if spec == 'value':
                    ok = (is_agg(v, None, 'Some') and v.args[3][0] is proj(c, 'best_lb') and f.isvar(sol, 'Some')) or (is_agg(v, None, 'None') and f.isvar(sol, 'None'))
                elif spec == 'sol':
                    ok = v is sol or (is_agg(v, None, 'Some') and unpayload(v.args[3][0]) is sol) or (is_agg(v, None, 'None') and f.isvar(sol, 'None'))
                else:
                    ok = v is proj(c, 'best_' + spec)
                ctx.ob('C01.getters', key, ok, 'returns %s' % short_show(v), loc(locks[0]))


def constructed(ctx, mo):
    """(constructor name, state, returned solver value) for every public constructor"""
    p = ctx.prog()
    for meth in ('custom', 'new'):
        for i in p.find(name=meth, self_adt=mo.name):
            e, outs = ctx.run(i, 'solver')
            for st, v in outs:
                yield meth, e, st, v


def initial_state(ctx):
    ctx.rule('C01.initial', 'a freshly built solver has no solution, the trivial bounds, nobody busy and no interruption')
    want = [('best_lb', MIN), ('best_ub', MAX), ('best_sol', None), ('interrupted', FALSE), ('ongoing', Int(0))]
    for mo in models(ctx):
        n = 0
        for meth, e, st, v in constructed(ctx, mo):
            n += 1
            c = critical_of(st, v)
            for fld_, w in want:
                x = proj(c, fld_) if c is not None else None
                ok = x is not None and (x is w if w is not None else is_agg(x, None, 'None'))
                ctx.ob('C01.initial', '%s::%s %s' % (mo.name, meth, fld_), ok, 'starts as %s' % (short_show(x) if x is not None else '?'))
        ctx.ob('C01.initial', mo.name + ' constructors', n >= 2, 'constructors not found')


def critical_of(st, v):
    for t in subterms(v):
        if t.op == 'mutex':
            return t.args[0]
    return None


# ------------------------------------------------------------------ C02
def incumbent_source(ctx):
    ctx.rule('C02.source', 'the diagram whose solution becomes the incumbent was compiled as restricted or exact, or as relaxed and is known to be exact on that path')
    for mo, m in each(ctx):
        n = 0
        for s in sections(mo, m):
            b = resolve_max(s.after('best_lb'), s.f)
            if b is s.before('best_lb') and s.after('best_sol') is s.before('best_sol'):
                continue
            for what, X in (('value', dd_value(b)), ('solution', dd_call(s.after('best_sol'), 'best_solution'))):
                if X is None:
                    if not is_agg(s.after('best_sol'), None, 'None') and not (what == 'value' and b is MIN):
                        ctx.ob('C02.source', inst(mo, m, s.end, what), False, 'the new incumbent %s does not come from a diagram' % what, loc(s.end))
                    continue
                n += 1
                ct = comp_type(X)
                ok = ct in ('Restricted', 'Exact') or (ct is not None and s.f.truth(T('call', 'DD::is_exact', X)) is True)
                ctx.ob('C02.source', inst(mo, m, s.end, '%s from %s' % (what, ct)), ok,
                       'the incumbent %s is taken from a diagram compiled as %s that is not known to be exact' % (what, ct), loc(s.end))
        ctx.ob('C02.source', '%s.%s some' % (mo.name, m), n >= 2, 'fewer than 2 incumbent sources found')


def comp_type(X):
    """compilation type of a diagram content"""
    while X.op == 'drained':
        X = X.args[0]
    if X.op == 'compiled' and len(X.args) > 1:
        c = proj(X.args[1], 'comp_type')
        if c.op == 'agg':
            return c.args[1]
        return '?'
    return None


def residual(X):
    while X.op == 'drained':
        X = X.args[0]
    if X.op == 'compiled' and len(X.args) > 1:
        return proj(X.args[1], 'residual')
    return None


def ref_names(t):
    """fields of the solver a reference was taken from"""
    while t.op == 'ref':
        fs = fields(t.args[0])
        if fs:
            return fs
        root = t.args[0][0]
        if root[0] in ('ptr', 'val') and isinstance(root[1], Term):
            t = root[1]
            continue
        return ()
    if t.op == 'init':
        return fields(t.args[0])
    if t.op in ('deref', 'fld'):
        return ref_names(t.args[0]) + ((t.args[1],) if t.op == 'fld' else ())
    return ()


def compile_inputs(ctx):
    ctx.rule('C02.input', 'every diagram is compiled from the subproblem that was popped, with the solver\'s own problem, relaxation, ranking and width heuristic, and an incumbent value read from the shared state')
    for mo, m in each(ctx):
        e, outs = mo.runs[m]
        nodes = node_terms(mo, m)
        lbs = known_lbs(mo, m)
        n = 0
        for c in all_events(outs, 'compile'):
            n += 1
            ct = proj(c.input, 'comp_type')
            k = inst(mo, m, c, ct.args[1] if ct.op == 'agg' else '?')
            for nm in ('problem', 'relaxation', 'ranking'):
                fs = ref_names(proj(c.input, nm))
                ctx.ob('C02.input', k + ' ' + nm, bool(fs) and fs[-1] == nm, 'compiled with %s' % short_show(proj(c.input, nm)), loc(c))
            r = proj(c.input, 'residual')
            ctx.ob('C02.input', k + ' residual', r in nodes, 'the compiled subproblem %s is not one taken from the frontier' % short_show(r), loc(c))
            w = proj(c.input, 'max_width')
            okw = w.op == 'call' and w.args[0] == 'WidthHeuristic::max_width' and len(w.args) > 2 and mentions(w.args[2], proj(r, 'state'))
            ctx.ob('C02.input', k + ' width', okw, 'the maximum width is %s' % short_show(w), loc(c))
            lb = proj(c.input, 'best_lb')
            ctx.ob('C02.input', k + ' best_lb', lb in lbs, 'the lower bound given to the compilation is %s' % short_show(lb), loc(c))
        ctx.ob('C02.input', '%s.%s some' % (mo.name, m), n >= 2, 'fewer than 2 compilations found')


# ------------------------------------------------------------------ nodes
def node_terms(mo, m):
    """terms denoting subproblems that were popped from the frontier (including loop variables holding one)"""
    k = ('nodes', m)
    if k in mo._sec:
        return mo._sec[k]
    e, outs = mo.runs[m]
    nodes = {ev.node for ev in all_events(outs, 'fpop')}
    carriers = {}
    loops = all_loops(outs)
    changed = True
    while changed:
        changed = False
        for lo in loops:
            for p in lo.havoc:
                if any(q[1] == '*' for q in p[1] if len(q) > 1):
                    continue
                h = lo.head.read(p)
                if (id(lo), p) in carriers:
                    continue
                vals = [lo.pre.read(p)] + [b.read(p) for b in lo.backs]
                if any(holds(v, nodes) for v in vals):
                    some = any(is_agg(v, None, 'Some') or is_agg(v, None, 'None') for v in vals)
                    carriers[(id(lo), p)] = payload(h) if some else h
                    nodes.add(carriers[(id(lo), p)])
                    changed = True
    mo._sec[k] = nodes
    mo._sec[('carriers', m)] = carriers
    return nodes


def holds(v, nodes):
    if v in nodes:
        return True
    if is_agg(v) and v.args[3] and v.args[1] and (v.args[1] in ('Some', 'Ok') or v.args[1] != str(v.args[0]).split('::')[-1]):
        return any(holds(x, nodes) for x in v.args[3])
    if v.op == 'agg' and len(v.args[3]) == 1:
        return holds(v.args[3][0], nodes)
    if v.op == 'join' and len(v.args) > 2:
        return any(holds(x, nodes) for x in v.args[2])
    return False


def carries(v, n):
    return holds(v, {n})


def loop_ends(outs):
    """(loop, back state) for every loop"""
    for lo in all_loops(outs):
        for b in lo.backs:
            yield lo, b


def spawns(outs):
    res = {}
    for s, v in outs:
        stack = [s.hist]
        seen = set()
        while stack:
            h = stack.pop()
            while h is not None and id(h) not in seen:
                seen.add(id(h))
                it = h.item
                if isinstance(it, Spawn):
                    res[id(it)] = it
                elif isinstance(it, Join):
                    stack.extend(it.hists)
                elif isinstance(it, LoopObj):
                    stack.extend(b.hist for b in it.backs)
                h = h.prev
    return list(res.values())


def worker_paths(mo, m):
    """every maximal path piece of a worker: (description, start item, Path) — one per loop iteration and per way out of the thread"""
    k = ('wpaths', m)
    if k in mo._sec:
        return mo._sec[k]
    e, outs = mo.runs[m]
    out = []
    sp = spawns(outs)
    for s in sp:
        for st in s.states:
            ev = last_spawn_event(st)
            for p in enum_paths(st, ev):
                out.append(('exit', ev, p))
            for lo in all_loops([(st, None)]):
                n = node_of(st.hist, lo)
    loops = {}
    for s in sp:
        spev = None
        for st in s.states:
            spev = last_spawn_event(st)
            for lo in loops_after(st.hist, spev):
                loops[id(lo)] = lo
    for lo in loops.values():
        for b in lo.backs:
            for p in enum_paths(b, lo):
                out.append(('iteration', lo, p))
    mo._sec[k] = out
    return out


def last_spawn_event(st):
    best = None
    stack = [st.hist]
    seen = set()
    while stack:
        h = stack.pop()
        while h is not None and id(h) not in seen:
            seen.add(id(h))
            it = h.item
            if isinstance(it, Ev) and it.kind == 'spawn':
                return it
            if isinstance(it, Join):
                stack.extend(it.hists)
            h = h.prev
    return None


def loops_after(hist, stop):
    """loops met on the paths from the item `stop` to here, nested ones included"""
    seen, out = set(), []
    stack = [hist]
    while stack:
        h = stack.pop()
        while h is not None and id(h) not in seen and h.item is not stop:
            seen.add(id(h))
            it = h.item
            if isinstance(it, Join):
                stack.extend(it.hists)
            elif isinstance(it, LoopObj):
                out.append(it)
                stack.extend(b.hist for b in it.backs)
            h = h.prev
    return out


# ------------------------------------------------------------------ C03
def introduced(mo, m, start, path):
    """(node term, index of the item after which it is live) on a path"""
    node_terms(mo, m)
    car = mo._sec[('carriers', m)]
    out = []
    for (lid, p), n in car.items():
        if start is not None and lid == id(start):
            out.append((n, -1, 'held at the loop head'))
    for i, it in enumerate(path.items):
        if isinstance(it, Ev) and it.kind == 'fpop':
            out.append((it.node, i, loc(it)))
        elif isinstance(it, LoopObj):
            for (lid, p), n in car.items():
                if lid == id(it):
                    out.append((n, i, 'left by ' + repr(it)))
    return out


def transferred(mo, m, start, path, n, i):
    car = mo._sec[('carriers', m)]
    for it in path.items[i + 1:]:
        if isinstance(it, LoopObj):
            for (lid, p), _ in car.items():
                if lid == id(it) and carries(it.pre.read(p), n):
                    return True
    if start is not None and isinstance(start, LoopObj) and any(path.end is b for b in start.backs):
        for (lid, p), _ in car.items():
            if lid == id(start) and carries(path.end.read(p), n):
                return True
    return False


def absent(mo, m, start, path, n, i):
    """the loop variable is known to hold no node on this path"""
    o = unpayload(n)
    return o is not None and path.f.isvar(o, 'None')


def small_bound(path, lbs, *bounds):
    f = path.f
    for b in bounds:
        for l in lbs:
            if f.le(b, l):
                return True
            if b.op == 'min' and any(f.le(x, l) for x in b.args):
                return True
    return False


def interrupted_on(path, secs):
    f = path.f
    for it in path.items:
        if isinstance(it, Ev) and it.kind in ('lock', 'wait'):
            c = getattr(it, 'content', None)
            if c is not None and f.truth(proj(c, 'interrupted')) is True:
                return True
        if isinstance(it, Ev) and it.kind == 'write' and last_field(it.place) == 'interrupted' and it.val is TRUE:
            return True
    return False


def recorded(path, n):
    """threshold look-ups for a node: (theta, explored, lookup)"""
    for it in path.items:
        if isinstance(it, Ev) and it.kind == 'mget' and 'barriers' in fields(it.map) and it.mkey is proj(n, 'state') \
                and any(q[0] == 'i' and q[1] is proj(n, 'path', '#len') for q in it.map[1]):
            pl = sub(it.map, ('k', it.mkey))
            yield it.read(sub(pl, ('f', 'theta'))), it.read(sub(pl, ('f', 'explored'))), it


def dominated(path, n):
    """the recorded threshold of the node's own state and layer forbids exploring it"""
    v = proj(n, 'value')
    f = path.f
    for th, ex, ev in recorded(path, n):
        if f.lt(v, th):
            return True
        if f.le(v, th) and (f.truth(ex) is True):
            return True
        if f.le(v, th) and f.truth(Not(Bin('Eq', v, th))) is True:
            return True
    return False


def incumbent_covers(mo, m, path, X):
    """on this path a critical section leaves an incumbent at least as good as the best value of X"""
    f = path.f
    bv = T('call', 'DD::best_value', X)
    if f.isvar(bv, 'None'):
        return True
    v = payload(bv)
    for it in path.items:
        c = None
        if isinstance(it, Ev) and it.kind in ('lock', 'wait'):
            c = proj(it.content, 'best_lb') if getattr(it, 'content', None) is not None else None
        elif isinstance(it, Ev) and it.kind == 'write' and last_field(it.place) == 'best_lb':
            c = it.val
        if c is not None and (f.le(v, c) or c is v or (c.op == 'max' and v in c.args)):
            return True
    return False


def discharged(mo, m, start, path, n, i, lbs):
    f = path.f
    if transferred(mo, m, start, path, n, i) or absent(mo, m, start, path, n, i):
        return 'passed on'
    if small_bound(path, lbs, proj(n, 'ub')):
        return 'bound'
    if dominated(path, n):
        return 'threshold'
    if interrupted_on(path, None):
        return 'interrupted'
    for it in path.items:
        if isinstance(it, Ev) and it.kind == 'ddrain':
            if residual(it.val) is n and comp_type(it.val) == 'Relaxed' and it.val.op == 'compiled':
                return 'cutset'
    for it in path.items:
        if isinstance(it, Ev) and it.kind == 'ddget' and residual(it.val) is n and f.truth(T('call', 'DD::is_exact', it.val)) is True:
            if incumbent_covers(mo, m, path, it.val):
                return 'exact'
    return None


def node_accounting(ctx):
    ctx.rule('C03.node', 'on every path a worker can take, each subproblem it popped is passed on, pruned by its bound against an incumbent read from the shared state, pruned by its recorded threshold, solved exactly with the incumbent brought up to date, replaced by the cutset of its relaxed diagram, or abandoned because of an interruption')
    for mo, m in each(ctx):
        lbs = known_lbs(mo, m)
        ways = {}
        for kind, start, path in worker_paths(mo, m):
            for n, i, where in introduced(mo, m, start if isinstance(start, LoopObj) else None, path):
                w = discharged(mo, m, start, path, n, i, lbs)
                ways[w] = ways.get(w, 0) + 1
                ctx.ob('C03.node', '%s.%s %s' % (mo.name, m, kind), w is not None, 'a subproblem (%s, %s) is lost on a path ending at %s' % (short_show(n, n=80), where, loc(path.items[-1]) if path.items else '?'), where)
        for w in ('bound', 'cutset', 'exact'):
            ctx.ob('C03.node', '%s.%s some %s' % (mo.name, m, w), ways.get(w, 0) > 0, 'no path discharges a subproblem by: ' + w)
        ctx.stats['node_paths_%s_%s' % (mo.name, m)] = sum(ways.values())


def cutset_loops(mo, m):
    """(drain event, callback loop) pairs"""
    e, outs = mo.runs[m]
    res = []
    for kind, start, path in worker_paths(mo, m):
        last = None
        for it in path.items:
            if isinstance(it, Ev) and it.kind == 'ddrain':
                last = it
            elif isinstance(it, LoopObj) and it.what and it.what[0] == 'callback' and it.what[1] == 'DD::drain_cutset' and last is not None:
                if not any(a is last and b is it for a, b in res):
                    res.append((last, it))
    return res


def cutset_paths(mo, m):
    """(drain event, path, element handed over, already bounded) for every path that handles one cutset subproblem;
    subproblems collected in a vector are followed to the loop that consumes it"""
    k = ('cpaths', m)
    if k in mo._sec:
        return mo._sec[k]
    out = []
    for ev, lo in cutset_loops(mo, m):
        parent = residual(ev.val)
        for b in lo.backs:
            for p in enum_paths(b, lo):
                cbs = [x for x in p.items if isinstance(x, Ev) and x.kind == 'callback']
                if not cbs:
                    continue
                a = cbs[0].args[0]
                vp = [x for x in p.items if isinstance(x, Ev) and x.kind == 'push' and all(proj(x.val, fl) is proj(a, fl) for fl in ('state', 'value', 'path'))]
                if len(vp) == 1 and not any(True for _ in p.evs('fpush')):
                    u = proj(vp[0].val, 'ub')
                    pu = proj(parent, 'ub')
                    bounded = u is Min(proj(a, 'ub'), pu) or (u is proj(a, 'ub') and p.f.le(u, pu)) or (u is pu and p.f.le(pu, proj(a, 'ub')))
                    if bounded or u is proj(a, 'ub'):
                        cons = consumers(mo, m, lo, vp[0].vec)
                        if cons:
                            for lo2 in cons:
                                for b2 in lo2.backs:
                                    for p2 in enum_paths(b2, lo2):
                                        nx = [x for x in p2.items if isinstance(x, Ev) and x.kind == 'next']
                                        if nx:
                                            e = nx[0].elem
                                            out.append((ev, p2, e, bounded))
                            continue
                out.append((ev, p, a, False))
    mo._sec[k] = out
    return out


def consumers(mo, m, lo, vec):
    """loops over the vector `vec` filled by loop `lo`, if every path after `lo` runs one before leaving the section"""
    res = []
    for kind, start, p in worker_paths(mo, m):
        i = p.index(lo)
        if i < 0:
            continue
        hit = None
        for x in p.items[i + 1:]:
            if isinstance(x, LoopObj):
                for b in x.backs:
                    for e in events(b.hist, upto=node_of(b.hist, x)):
                        if e.kind == 'next' and isinstance(e.it, Term) and any(t.op == 'phi' and t.args[0][0] == vec[0] for t in subterms(e.it)) and not skips(e.it):
                            hit = x
            if hit is not None or (isinstance(x, Ev) and x.kind == 'unlock' and x.guard is not None and x.guard.args[1] == 'mutex'):
                break
        if hit is None:
            return []
        if hit not in res:
            res.append(hit)
    return res


def skips(it):
    """adaptors that may leave elements out without the analysis seeing them"""
    return it.op == 'it' and any(isinstance(a, tuple) and a and a[0] in ('skip', 'take', 'step_by', 'take_while', 'skip_while') for a in (it.args[-1] or ()))


def cutset_accounting(ctx):
    ctx.rule('C03.cutset', 'every subproblem of the cutset is put on the shared frontier exactly once, with its own state, value and path, unless its bound (or its parent\'s) does not exceed an incumbent read from the shared state')
    ctx.rule('C08.push', 'the bound of a subproblem put on the frontier is the minimum of the bound computed by the diagram and the bound of the subproblem it comes from')
    for mo, m in each(ctx):
        lbs = known_lbs(mo, m)
        n = 0
        for ev, p, a, bounded in cutset_paths(mo, m):
            parent = residual(ev.val)
            n += 1
            k = inst(mo, m, ev)
            pushes = [x for x in p.evs('fpush')]
            au, pu = proj(a, 'ub'), proj(parent, 'ub') if parent is not None else None
            if not pushes:
                bs = [au] + ([pu] if pu is not None else [])
                bs += [Min(*bs)] if len(bs) > 1 else []
                ctx.ob('C03.cutset', k + ' dropped', small_bound(p, lbs, *bs), 'a cutset subproblem is not put on the frontier on a path that does not establish that its bound is at most the incumbent', loc(ev))
                continue
            ctx.ob('C03.cutset', k + ' once', len(pushes) == 1, 'a cutset subproblem is put on the frontier %d times' % len(pushes), loc(pushes[-1]))
            x = pushes[0].node
            for fl in ('state', 'value', 'path'):
                ctx.ob('C03.cutset', k + ' ' + fl, proj(x, fl) is proj(a, fl), 'the %s of the subproblem put on the frontier is %s' % (fl, short_show(proj(x, fl))), loc(pushes[0]))
            u = proj(x, 'ub')
            okub = (u is Min(au, pu) if pu is not None else False) or (bounded and u is au)
            if not okub and pu is not None:
                # decided by comparisons on this path
                okub = (u is au and p.f.le(au, pu)) or (u is pu and p.f.le(pu, au))
            ctx.ob('C08.push', k, okub, 'the bound of the subproblem put on the frontier is %s' % short_show(u), loc(pushes[0]))
            fps = fringe_places(mo, m)
            ctx.ob('C03.cutset', k + ' shared frontier', pushes[0].place in fps and is_shared(pushes[0].place), 'pushed on %s' % str(pushes[0].place)[:150], loc(pushes[0]))
        ctx.ob('C03.cutset', '%s.%s some' % (mo.name, m), n >= 2, 'no enqueueing of cutset subproblems was found')


def is_shared(place):
    """the frontier lies (possibly behind a pointer) in the content of a lock"""
    if any(q[0] == 'm' for q in place[1]):
        return True
    root = place[0]
    return root[0] == 'ptr' and isinstance(root[1], Term) and any(x.op in ('fresh', 'content') for x in subterms(root[1]))


def root_pushed(ctx):
    ctx.rule('C03.root', 'before any worker starts, the root subproblem (initial state, initial value, empty path, unlimited bound) is put on the frontier, exactly once')
    for mo, m in each(ctx):
        e, outs = mo.runs[m]
        sp = spawn_events(mo, m)
        ctx.ob('C03.root', '%s.%s spawn' % (mo.name, m), bool(sp), 'no worker is started')
        n = 0
        for s, v in outs:
            for p in enum_paths(s):
                idx = [i for i, it in enumerate(p.items) if isinstance(it, Ev) and it.kind == 'fpush']
                par = [i for i, it in enumerate(p.items) if (isinstance(it, Ev) and it.kind in ('scope', 'spawn')) or isinstance(it, (Spawn,))
                       or (isinstance(it, LoopObj) and any(x.kind == 'spawn' for b in it.backs for x in events(b.hist, upto=node_of(b.hist, it))))]
                n += 1
                k = '%s.%s' % (mo.name, m)
                ctx.ob('C03.root', k + ' once', len(idx) == 1, '%d subproblems are put on the frontier by the caller' % len(idx))
                if len(idx) != 1:
                    continue
                ctx.ob('C03.root', k + ' first', bool(par) and idx[0] < par[0], 'the root is not on the frontier before the workers start', loc(p.items[idx[0]]))
                x = p.items[idx[0]].node
                st = proj(x, 'state')
                ctx.ob('C03.root', k + ' state', st.op == 'arc' and st.args[0].op == 'call' and st.args[0].args[0] == 'Problem::initial_state', 'state %s' % short_show(st))
                va = proj(x, 'value')
                ctx.ob('C03.root', k + ' value', va.op == 'call' and va.args[0] == 'Problem::initial_value', 'value %s' % short_show(va))
                ctx.ob('C03.root', k + ' path', proj(x, 'path', '#len') is Int(0), 'path %s' % short_show(proj(x, 'path')))
                ctx.ob('C03.root', k + ' ub', proj(x, 'ub') is MAX, 'bound %s' % short_show(proj(x, 'ub')))
        ctx.ob('C03.root', '%s.%s some' % (mo.name, m), n > 0, 'no path')


def spawn_events(mo, m):
    e, outs = mo.runs[m]
    return all_events(outs, 'spawn')


def frontier_cleared(ctx):
    ctx.rule('C03.clear', 'the frontier is emptied only when a subproblem just taken from it has a bound that does not exceed the incumbent, or when the search is interrupted')
    for mo, m in each(ctx):
        lbs = known_lbs(mo, m)
        node_terms(mo, m)
        car = mo._sec[('carriers', m)]
        n = 0
        for s in sections(mo, m):
            for i, it in enumerate(s.items):
                if not (isinstance(it, Ev) and it.kind == 'fclear'):
                    continue
                n += 1
                ok = s.f.truth(s.after('interrupted')) is True or s.after('interrupted') is TRUE
                if not ok:
                    live = []
                    for x in ([s.lock] if isinstance(s.lock, LoopObj) else []) + s.items[:i]:
                        if isinstance(x, Ev) and x.kind == 'fpop':
                            live.append(x.node)
                        elif isinstance(x, Ev) and x.kind == 'fpush':
                            live = []
                        elif isinstance(x, LoopObj):
                            if x.what is not None:
                                live = []
                            live += [nd for (lid, p), nd in car.items() if lid == id(x)]
                    f = it_facts = FactBag(s.f.fs + [it.facts])
                    ok = any(small_bound(Path(s.items, f.fs, s.end), lbs, proj(nd, 'ub')) for nd in live)
                ctx.ob('C03.clear', inst(mo, m, it), ok, 'the frontier is emptied although neither the search is interrupted nor a subproblem taken from it is known to have a bound at most the incumbent', loc(it))
        ctx.ob('C03.clear', '%s.%s some' % (mo.name, m), True)


# ------------------------------------------------------------------ vocabulary over worker paths
def lin(t):
    """linear normal form over Add/Sub: ({atom: coefficient}, constant)"""
    if t.op == 'int':
        return {}, t.args[0]
    if t.op == 'bin' and t.args[0] in ('Add', 'Sub'):
        a, ca = lin(t.args[1])
        b, cb = lin(t.args[2])
        s = 1 if t.args[0] == 'Add' else -1
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + s * v
        return {k: v for k, v in r.items() if v}, ca + s * cb
    return {t: 1}, 0


def delta(a, b):
    """b - a as a number, None if not constant"""
    x, cx = lin(a)
    y, cy = lin(b)
    r = dict(y)
    for k, v in x.items():
        r[k] = r.get(k, 0) - v
    if any(r.values()):
        return None
    return cy - cx


def psections(mo, m, path):
    """critical sections (of the mutex) lying completely on a path, in order, with the path's facts"""
    out = []
    open_ = {}
    fps = fringe_places(mo, m)
    for i, it in enumerate(path.items):
        if not isinstance(it, Ev):
            continue
        if it.kind in ('unlock', 'wait') and it.guard is not None and it.guard.args[1] == 'mutex' and it.guard.args[0] in open_:
            j, c, lk = open_.pop(it.guard.args[0])
            s = Section(Path(path.items[j + 1:i], path.f.fs + [it.facts], it), it.guard.args[0], c, lk, it)
            s.fps, s.i, s.j = fps, j, i
            out.append(s)
        if it.kind == 'lock' and it.lkind == 'mutex':
            open_[it.place] = (i, it.content, it)
        if it.kind == 'wait' and it.guard is not None:
            open_[it.guard.args[0]] = (i, it.content, it)
    return out


def idle(s):
    """at the end of the section nobody is busy and nothing is open"""
    return complete(s)


def stop_requested(s):
    return s.f.truth(s.after('interrupted')) is True or s.after('interrupted') is TRUE


# ------------------------------------------------------------------ C04
def bound_lowered(ctx):
    ctx.rule('C04.bound', 'the global upper bound is changed only in a critical section that observed that nothing is open and nobody is busy, and then to the incumbent value, or in one that records an interruption')
    ctx.rule('C07.kept', 'once an interruption is recorded the upper bound stored with it is not touched any more')
    ctx.rule('C04.interrupt', 'the interruption flag is only ever set, only to true, and only after the interrupt condition returned true in that section')
    for mo, m in each(ctx):
        n = k2 = 0
        for s in sections(mo, m):
            a, b = s.before('best_ub'), s.after('best_ub')
            if a is not b:
                n += 1
                lbs = (s.after('best_lb'), s.before('best_lb'))
                done = complete(s) and b in lbs
                records = s.after('interrupted') is TRUE and s.f.truth(s.before('interrupted')) is False
                if m == 'maximize_with_interrupt':
                    ctx.ob('C07.kept', inst(mo, m, s.end), records or s.f.truth(s.before('interrupted')) is False,
                           'the upper bound may be overwritten with %s after an interruption was recorded' % short_show(b, n=120), loc(s.end))
                ctx.ob('C04.bound', inst(mo, m, s.end), done or stop_requested(s), 'the upper bound becomes %s although the section does not establish that nothing is open and nobody is busy (nor an interruption)' % short_show(b, n=120), loc(s.end))
            a, b = s.before('interrupted'), s.after('interrupted')
            if a is not b and not (b is TRUE and s.f.truth(a) is True) and not (b is FALSE and s.f.truth(a) is False):
                k2 += 1
                asked = any(isinstance(x, Ev) and x.kind == 'call' and x.name == 'callback' and mentions_interrupt(x) and s.f.truth(x.ret) is True for x in s.items)
                ctx.ob('C04.interrupt', inst(mo, m, s.end), b is TRUE and asked, 'the interruption flag becomes %s without the interrupt condition having returned true' % short_show(b), loc(s.end))
        ctx.ob('C04.bound', '%s.%s some' % (mo.name, m), n > 0, 'the upper bound is never set')
        if m == 'maximize_with_interrupt':
            ctx.ob('C04.interrupt', '%s.%s some' % (mo.name, m), k2 > 0, 'the interruption flag is never set')


def mentions_interrupt(ev):
    t = ev.d.get('fn_term')
    return t is not None and any(x.op == 'sym' and x.args[0] == 'interrupt' or x.op in ('sym', 'init') for x in subterms(t))


def worker_exits(ctx):
    ctx.rule('C04.exit', 'a worker ends only after a critical section in which nothing was open and nobody was busy, or the interruption was recorded')
    for mo, m in each(ctx):
        n = 0
        for kind, start, p in worker_paths(mo, m):
            if kind != 'exit':
                continue
            n += 1
            ss = psections(mo, m, p)
            ok = stops(mo, m, p)
            ctx.ob('C04.exit', '%s.%s' % (mo.name, m), ok, 'a worker can end although its last critical section established neither that the search is exhausted nor an interruption', loc(ss[-1].end) if ss else '')
        ctx.ob('C04.exit', '%s.%s some' % (mo.name, m), n > 0, 'no way out of a worker was found')


def stops(mo, m, p, seen=()):
    """the last critical section before the end of the path established the end of the search; a way out that leads
    straight from a loop head is traced back to the iterations that can lead there"""
    ss = psections(mo, m, p)
    if ss:
        return idle(ss[-1]) or stop_requested(ss[-1])
    lo = next((x for x in reversed(p.items) if isinstance(x, LoopObj)), None)
    if lo is None:
        return False
    if lo in seen:
        return True
    known = [(q, p.f.truth(lo.head.read(q))) for q in lo.havoc]
    known = [(q, v) for q, v in known if v is not None]

    def leads_here(st, f):
        for q, v in known:
            x = st.read(q)
            t = True if x is TRUE else False if x is FALSE else f.truth(x)
            if t is not None and t != v:
                return False
        return True
    if leads_here(lo.pre, FactBag([lo.pre.facts])):
        return False
    n = 0
    for b in lo.backs:
        for q in enum_paths(b, lo):
            if leads_here(b, q.f):
                n += 1
                if not stops(mo, m, q, seen + (lo,)):
                    return False
    return n > 0


def status(ctx):
    ctx.rule('C04.status', 'the status returned agrees with the interruption flag read after all workers ended: Proved exactly when it is not set')
    for mo in models(ctx):
        m = 'maximize_with_interrupt'
        if m not in mo.runs:
            continue
        e, outs = mo.runs[m]
        seen = set()
        for s, v in outs:
            name = v.args[1] if is_agg(v) else None
            for p in enum_paths(s):
                after = False
                flag = None
                f = p.f
                for it in p.items:
                    if isinstance(it, Ev) and it.kind == 'scope':
                        after = True
                    if isinstance(it, (Spawn,)):
                        after = True
                    if after and isinstance(it, Ev) and it.kind == 'lock' and it.lkind == 'mutex':
                        flag = f.truth(proj(it.content, 'interrupted'))
                want = {True: 'Interrupted', False: 'Proved'}.get(flag)
                seen.add(name)
                ctx.ob('C04.status', mo.name + ' ' + str(name), name is not None and name == want, 'status %s is returned while the interruption flag read after the workers ended is %s' % (name, flag))
        ctx.ob('C04.status', mo.name + ' both', {'Proved', 'Interrupted'} <= seen, 'statuses returned: %s' % sorted(map(str, seen)))


# ------------------------------------------------------------------ C05
def sleeping(ctx):
    ctx.rule('C05.sleep', 'a worker sleeps only while holding the shared lock, in a critical section that observed that the frontier is empty, that somebody else is busy and that no interruption was recorded')
    for mo, m in each(ctx):
        n = 0
        for s in sections(mo, m):
            if s.end.kind != 'wait':
                continue
            n += 1
            k = inst(mo, m, s.end)
            ctx.ob('C05.sleep', k + ' empty', fringe_empty(s), 'sleeps although the frontier is not known to be empty', loc(s.end))
            o = s.after('ongoing')
            busy = s.f.truth(Bin('Eq', o, Int(0))) is False or s.f.lt(Int(0), o)
            ctx.ob('C05.sleep', k + ' busy', busy and delta(s.before('ongoing'), o) == 0, 'sleeps although nobody is known to be busy: nobody might wake it up', loc(s.end))
            ctx.ob('C05.sleep', k + ' not interrupted', s.f.truth(s.after('interrupted')) is False, 'sleeps although the search may have been interrupted', loc(s.end))
        ctx.ob('C05.sleep', '%s.%s some' % (mo.name, m), n > 0, 'no worker ever sleeps: not the algorithm these rules were written for')


def busy_count(ctx):
    ctx.rule('C05.take', 'taking a subproblem to process it and being counted as busy happen in the same critical section')
    ctx.rule('C05.finish', 'a worker that is counted as busy stops being counted exactly once on every path, after everything it generated is on the frontier, and wakes up all sleepers of the same monitor at or after that moment')
    for mo, m in each(ctx):
        node_terms(mo, m)
        car = mo._sec[('carriers', m)]
        waits = {ev.cond for ev in all_events(mo.runs[m][1], 'wait')}
        n = 0
        for kind, start, p in worker_paths(mo, m):
            ss = psections(mo, m, p)
            k = '%s.%s %s' % (mo.name, m, kind)
            up, down = [], []
            for s in ss:
                d = delta(s.before('ongoing'), s.after('ongoing'))
                ctx.ob('C05.finish', k + ' delta', d in (-1, 0, 1), 'the number of busy workers is changed by %s in one critical section' % d, loc(s.end))
                if d == 1:
                    up.append(s)
                elif d == -1:
                    down.append(s)
            for s in up:
                took = [x for x in s.items if (isinstance(x, Ev) and x.kind == 'fpop') or (isinstance(x, LoopObj) and any(lid == id(x) for (lid, q) in car))]
                ctx.ob('C05.take', k, bool(took), 'counted as busy in a critical section that takes nothing from the frontier', loc(s.end))
            comp = [i for i, x in enumerate(p.items) if isinstance(x, Ev) and x.kind in ('compile', 'ddrain', 'fpush')]
            work = [i for i in comp if p.items[i].kind != 'fpush']
            if work:
                comp0 = work[0]
                ctx.ob('C05.take', k + ' counted', any(s.j < comp0 for s in up), 'processes a subproblem without being counted as busy', loc(p.items[comp[0]]))
            if up or down:
                n += 1
                ctx.ob('C05.finish', k + ' once', len(up) == 1 and len(down) == 1 and up[0].j < down[0].i, 'on one path a worker is counted as busy %d time(s) and released %d time(s)' % (len(up), len(down)), loc((up + down)[0].end))
            for s in down:
                ctx.ob('C05.finish', k + ' last', not any(i > s.i for i in comp), 'stops being counted as busy before its subproblems are on the frontier', loc(s.end))
                notes = [x for i, x in enumerate(p.items) if isinstance(x, Ev) and x.kind == 'notify' and i > s.i]
                ctx.ob('C05.finish', k + ' wakes all', any(x.which == 'notify_all' and x.cond in waits for x in notes), 'does not wake up all sleeping workers after it stopped being counted as busy', loc(s.end))
        ctx.ob('C05.finish', '%s.%s some' % (mo.name, m), n > 0, 'no worker path is counted as busy')


def no_worker_is_none(ctx):
    ctx.rule('C04.workers', 'a solver always has at least one worker, so a search cannot end without having been made')
    for mo in models(ctx):
        n = 0
        for meth, e, st, v in list(constructed(ctx, mo)) + list(reconfigured(ctx, mo)):
            n += 1
            t = proj(v, 'nb_threads')
            f = FactBag([st.facts])
            ok = f.le(Int(1), t) or f.lt(Int(0), t) or (t.op == 'max' and any(x.op == 'int' and x.args[0] >= 1 for x in t.args)) or (t.op == 'int' and t.args[0] >= 1) or hw_threads(t)
            ctx.ob('C04.workers', '%s::%s' % (mo.name, meth), ok, 'the number of workers is %s, which may be 0: the solver would then claim optimality without exploring anything' % short_show(t))
        ctx.ob('C04.workers', mo.name + ' constructors', n >= 3, 'constructors not found')


def hw_threads(t):
    return t.op == 'call' and 'num_cpus' in str(t.args[0])


def reconfigured(ctx, mo):
    for i in ctx.prog().find(name='with_nb_threads', self_adt=mo.name):
        e, outs = ctx.run(i, 'solver')
        for st, v in outs:
            yield 'with_nb_threads', e, st, v


# ------------------------------------------------------------------ C06
def lock_class(place):
    """a lock is identified by its place with indices forgotten"""
    return tuple(str(q[1]) for q in place[1] if q[0] == 'f') or ('root',)


def held_places(locks):
    return [(g.args[0], g.args[1]) for g in locks if g.op == 'guard']


def may_alias(a, b):
    """can two lock places denote the same lock?"""
    if lock_class(a) != lock_class(b):
        return False
    return True


def lock_runs(ctx):
    for mo, m in each(ctx):
        yield '%s.%s' % (mo.name, m), mo.runs[m][1]
    p = ctx.prog()
    for dd in p.implementors('DecisionDiagram'):
        for meth in ('compile', 'drain_cutset'):
            for i in p.find(name=meth, self_adt=dd.split('::')[-1]):
                if (p.bodies[i].get('trait') or '').split('::')[-1] == 'DecisionDiagram':
                    e, outs = ctx.run(i)
                    yield '%s.%s' % (dd.split('::')[-1], meth), outs


def locking(ctx):
    ctx.rule('C06.reacquire', 'no lock is acquired while a lock that may be the same one is held by the same thread')
    ctx.rule('C06.order', 'the relation "acquired while holding" between locks has no cycle, over the solvers and the diagrams together')
    ctx.rule('C06.wait', 'the only lock held while sleeping on the monitor is the one the sleep releases')
    ctx.rule('C06.release', 'no worker holds a lock while it compiles a diagram, when workers are started, or when it ends')
    edges = {}
    n = 0
    for name, outs in lock_runs(ctx):
        for ev in all_events(outs, 'lock', 'wait', 'compile', 'thread_end', 'scope', 'spawn'):
            held = held_places(ev.locks)
            if ev.kind == 'lock':
                n += 1
                held = [h for h in held if h[0] is not ev.place or True]
                # the event may be recorded after the acquisition
                others = list(held)
                if (ev.place, ev.lkind) in others and ev.d.get('guard') is not None and any(g is ev.guard for g in ev.locks):
                    others.remove((ev.place, ev.lkind))
                k = '%s %s' % (name, '.'.join(lock_class(ev.place)))
                bad = [h for h in others if may_alias(h[0], ev.place)]
                ctx.ob('C06.reacquire', k, not bad, 'acquires %s while already holding it' % '.'.join(lock_class(ev.place)), loc(ev))
                for h in others:
                    edges.setdefault((lock_class(h[0]), lock_class(ev.place)), '%s %s' % (name, loc(ev)))
            elif ev.kind == 'wait':
                others = [h for h in held if h[0] != ev.guard.args[0]]
                ctx.ob('C06.wait', name, not others and ev.guard is not None and ev.guard.args[1] == 'mutex', 'sleeps while holding another lock', loc(ev))
            else:
                ctx.ob('C06.release', '%s %s' % (name, ev.kind), not held, 'holds %s' % [lock_class(h[0]) for h in held], loc(ev))
    graph = {}
    for (a, b) in edges:
        graph.setdefault(canon_lock(a), set()).add(canon_lock(b))
    cyc = find_cycle(graph)
    ctx.ob('C06.order', 'acyclic', cyc is None, 'locks are nested in a cycle: %s; %s' % (cyc, sorted(edges.items())))
    ctx.ob('C06.order', 'acquisitions', n >= 10, 'only %d lock acquisitions found' % n)
    ctx.stats['lock_edges'] = len(edges)


def canon_lock(c):
    """the threshold store is the same set of locks whether reached from a solver or from a diagram"""
    return c[-1]


def find_cycle(g):
    state = {}

    def go(x, path):
        state[x] = 1
        for y in g.get(x, ()):
            if state.get(y) == 1:
                return path + [x, y]
            if y not in state:
                r = go(y, path + [x])
                if r:
                    return r
        state[x] = 2
        return None
    for x in list(g):
        if x not in state:
            r = go(x, [])
            if r:
                return r
    return None


# ------------------------------------------------------------------ C07
def covers(U, x, f, depth=4):
    """U >= x by construction or by the facts"""
    if U is x or U is MAX or x is MIN:
        return True
    if U.op == 'max' and any(covers(a, x, f, depth - 1) for a in U.args):
        return True
    if x.op == 'min' and any(covers(U, a, f, depth - 1) for a in x.args):
        return True
    return f.le(x, U)


def parts(U):
    return list(U.args) if U.op == 'max' else [U]


def over_upper_bounds(it):
    """the iterated container is the table of published bounds"""
    return isinstance(it, Term) and it.op == 'it' and it.args[0] == 'vec' and it.args[1][1][-1:] == (('f', 'upper_bounds'),) and not skips(it)


def published_covered(s, U):
    """U covers the published bounds of all workers: by a reduction or a loop over the table"""
    if any(p is MAX for p in parts(U)):
        return True
    items = s.items
    for n, x in enumerate(items):
        if isinstance(x, Ev) and x.kind == 'reduce' and x.how == 'max' and over_upper_bounds(x.it):
            lo = next((y for y in reversed(items[:n]) if isinstance(y, LoopObj) and y.what and y.what[-1] is x.it), None)
            if lo is not None and filter_ok(lo, x) and any(reduction_of(part, x) for part in parts(U)):
                return True
        if isinstance(x, LoopObj):
            for part in parts(U):
                for p in x.havoc:
                    h = x.head.read(p)
                    if h is part and accumulates(x, p) or h is not None and h is unpayload(part) and accumulates_some(x, p):
                        return True
    return False


def reduction_of(t, ev):
    """t is the value of the reduction of this event"""
    for x in (t, unpayload(t)):
        if x is not None and (x is ev.ret or (x.op == 'red' and x.args[0] == ev.how and x.args[1] is ev.it)):
            return True
    return False


def filter_ok(lo, ev):
    """the elements themselves are reduced, and those left out are unbounded"""
    cand = set()
    for el, v, fx in ev.elems:
        if v is not el:
            return False
        cand.add(el)
    for b in lo.backs:
        f = FactBag([b.facts])
        if any(b.facts is fx or b.facts.bl == fx.bl and b.facts.rel == fx.rel for el, v, fx in ev.elems):
            continue
        if not any(f.eq(c, MAX) or f.le(MAX, c) for c in cand):
            return False
    return True


def accumulates(lo, p):
    """over one iteration the accumulator at p dominates its old value and the element (unless the element is unbounded)"""
    head = lo.head.read(p)
    n = 0
    for b in lo.backs:
        for path in enum_paths(b, lo):
            n += 1
            new = path.end.read(p)
            f = path.f
            el = table_elements(path, new)
            if not covers(new, head, f) or not el or not any(covers(new, e, f) or f.eq(e, MAX) or f.le(MAX, e) for e in el):
                return False
    return n > 0


def accumulates_some(lo, p):
    """the same with an accumulator that is missing as long as no element was met"""
    head = lo.head.read(p)
    if lo.pre.read(p) is None or not is_none(lo.pre.read(p)):
        return False
    n = 0
    for b in lo.backs:
        for path in enum_paths(b, lo):
            n += 1
            new = path.end.read(p)
            f = path.f
            el = table_elements(path, new)
            some = new.args[3][0] if new.op == 'agg' and new.args[1] == 'Some' else payload(new) if new is head and f.isvar(head, 'Some') is True else None
            if some is None:        # nothing kept so far, nor this element
                if not (el and any(f.eq(e, MAX) or f.le(MAX, e) for e in el) and (f.isvar(head, 'None') is True or new is head)):
                    return False
            elif f.isvar(head, 'None') is not True and not covers(some, payload(head), f) or not el or not any(covers(some, e, f) or f.eq(e, MAX) or f.le(MAX, e) for e in el):
                return False
    return n > 0


def is_none(t):
    return t.op == 'agg' and t.args[1] == 'None'


def table_elements(path, new):
    """terms on the path that denote the current element of the table of published bounds"""
    out = set()

    def scan(t):
        for x in subterms(t):
            if x.op == 'idx' and 'upper_bounds' in show(x.args[0]):
                out.add(x)
    scan(new)
    for fx in path.f.fs:
        for (a, b) in fx.rel:
            scan(a)
            scan(b)
    return out


def interrupted_bound(ctx):
    ctx.rule('C07.bound', 'when an interruption is recorded, the upper bound stored in that section covers the incumbent, the best subproblem on the frontier at that moment, and the published bound of every busy worker')
    ctx.rule('C07.publish', 'the bound of a subproblem is published under the worker\'s own index in the critical section that counts the worker as busy, and withdrawn only in the one that stops counting it')
    for mo, m in each(ctx):
        n = 0
        for s in sections(mo, m):
            if m == 'maximize_with_interrupt' and s.before('interrupted') is not s.after('interrupted') and s.after('interrupted') is TRUE:
                n += 1
                U = s.after('best_ub')
                k = inst(mo, m, s.end)
                f = s.f
                ctx.ob('C07.bound', k + ' changed', U is not s.before('best_ub'), 'the upper bound is not set when the interruption is recorded', loc(s.end))
                ctx.ob('C07.bound', k + ' incumbent', covers(U, s.after('best_lb'), f), 'the upper bound %s may be below the incumbent' % short_show(U, n=120), loc(s.end))
                pops = [x for x in s.items if isinstance(x, Ev) and x.kind == 'fpop']
                first = next((x for x in s.items if isinstance(x, Ev) and x.kind in ('fpop', 'fclear', 'fpush')), None)
                if first is not None and first.kind == 'fpop':
                    okf = covers(U, proj(first.node, 'ub'), f)
                else:
                    okf = frontier_was_empty(s) or U is MAX
                ctx.ob('C07.bound', k + ' frontier', okf, 'the upper bound %s does not cover the best subproblem left on the frontier' % short_show(U, n=120), loc(s.end))
                o = s.before('ongoing')
                okp = f.eq(o, Int(0)) or f.le(o, Int(0)) or published_covered(s, U)
                ctx.ob('C07.bound', k + ' workers', okp, 'the upper bound %s does not cover the subproblems being processed by the workers' % short_show(U, n=120), loc(s.end))
        if m == 'maximize_with_interrupt':
            ctx.ob('C07.bound', '%s.%s some' % (mo.name, m), n > 0, 'no section records an interruption')
        publishing(ctx, mo, m)


def frontier_was_empty(s):
    from .cuts import flen
    for fp in s.fps:
        rel = fp
        for cand in (s.start,):
            pass
        # content of the frontier at the beginning of the section
        for c in {read_mem(s.lock.mem, fp)} if isinstance(s.lock, Ev) else {s.lock.head.read(fp)}:
            if s.f.eq(flen(c), Int(0)) or s.f.le(flen(c), Int(0)):
                return True
    # the frontier as seen through the content acquired
    for name in ('fringe',):
        c = s.before(name)
        for x in (c, T('deref', c)):
            if s.f.eq(flen(x), Int(0)):
                return True
    return any(s.f.eq(flen(r), Int(0)) for r in frontier_contents(s))


def frontier_contents(s):
    """every content of the frontier mentioned on the path before it is modified"""
    out = []
    for x in s.items:
        if isinstance(x, Ev) and x.kind in ('fpop', 'fclear', 'fpush'):
            out.append(x.before)
            break
    return out


def publishing(ctx, mo, m):
    node_terms(mo, m)
    car = mo._sec[('carriers', m)]
    n = 0
    idxs = set()
    for s in sections(mo, m):
        if s.end.locks and all(False for _ in ()):
            pass
        d = delta(s.before('ongoing'), s.after('ongoing'))
        ws = [x for x in s.items if isinstance(x, Ev) and x.kind == 'write' and ('f', 'upper_bounds') in x.place[1]]
        other = [x for x in s.items if isinstance(x, LoopObj) and any(('f', 'upper_bounds') in p[1] for p in x.havoc)
                 or isinstance(x, Ev) and x.kind not in ('write', 'index') and ('f', 'upper_bounds') in (x.d.get('vec') or ((), ()))[1]]
        ctx.ob('C07.publish', inst(mo, m, s.end) + ' others', not other, 'the published bounds of other workers are changed')
        k = inst(mo, m, s.end)
        if d == 1:
            n += 1
            live = [x.node for x in s.items if isinstance(x, Ev) and x.kind == 'fpop']
            live += [nd for x in s.items if isinstance(x, LoopObj) for (lid, q), nd in car.items() if lid == id(x)]
            live += [nd for (lid, q), nd in car.items() if lid == id(s.lock)]
            ok = len(ws) >= 1 and any(ws[-1].val is proj(nd, 'ub') for nd in live[-1:] or ()) or (ws and ws[-1].val in [proj(nd, 'ub') for nd in live])
            ctx.ob('C07.publish', k + ' published', ok, 'the bound of the subproblem taken is not published with it (%s)' % (short_show(ws[-1].val) if ws else 'no write'), loc(s.end))
        elif d == -1:
            ctx.ob('C07.publish', k + ' withdrawn', bool(ws) and ws[-1].val is MAX, 'the published bound is not withdrawn when the worker stops being busy', loc(s.end))
        else:
            ctx.ob('C07.publish', k + ' untouched', not ws, 'the published bounds are changed in a section that does not change who is busy', loc(ws[-1]) if ws else '')
        for w in ws:
            q = [q for q in w.place[1] if q[0] == 'i']
            ok = bool(q) and isinstance(q[0][1], Term)
            if ok:
                idxs.add(q[0][1])
    for i in idxs:
        ok = i.op == 'ix' or (i.op == 'sym')
        ctx.ob('C07.publish', '%s.%s own slot' % (mo.name, m), ok, 'bounds are published at index %s, which is not the worker\'s own' % short_show(i))
    ctx.ob('C07.publish', '%s.%s one slot' % (mo.name, m), len(idxs) == 1, 'bounds are published and withdrawn at different indices: %s' % [short_show(i, n=40) for i in idxs])
    ctx.ob('C07.publish', '%s.%s some' % (mo.name, m), n > 0, 'no section publishes a bound')


# ------------------------------------------------------------------ C19
def caching(ctx):
    """solvers that use a threshold store"""
    for mo, m in each(ctx):
        if any('barriers' in fields(x.map) for x in all_events(mo.runs[m][1], 'mget', 'minsert')):
            yield mo, m


def threshold_of(path, n):
    """'none' / (theta, explored) known about the stored threshold of n on this path"""
    for th, ex, ev in recorded(path, n):
        yield ev, th, ex


def thresholds(ctx):
    ctx.rule('C19.discard', 'a subproblem taken from the frontier is discarded for another reason than its bound, an interruption or its processing only when the threshold stored for its own state at its own depth exceeds its value, or equals it and is marked explored')
    ctx.rule('C19.record', 'before a subproblem is processed, and in the critical section that took it, its value is stored as explored threshold of its own state at its own depth, and only after a look-up in the same section showed that this does not lower the stored threshold')
    k = 0
    for mo, m in caching(ctx):
        k += 1
        lbs = known_lbs(mo, m)
        node_terms(mo, m)
        car = mo._sec[('carriers', m)]
        nd = nr = 0
        for kind, start, p in worker_paths(mo, m):
            intro = introduced(mo, m, start if isinstance(start, LoopObj) else None, p)
            for n, i, where in intro:
                if any(isinstance(x, Ev) and x.kind == 'compile' and residual_of_event(x) is n for x in p.items):
                    continue
                if transferred(mo, m, start, p, n, i) or absent(mo, m, start, p, n, i) or small_bound(p, lbs, proj(n, 'ub')) or interrupted_on(p, None):
                    continue
                nd += 1
                ctx.ob('C19.discard', '%s.%s %s' % (mo.name, m, kind), dominated(p, n), 'a subproblem is discarded on a path where its stored threshold does not forbid exploring it', where)
            for s in psections(mo, m, p):
                if delta(s.before('ongoing'), s.after('ongoing')) != 1:
                    continue
                live = [n for n, i, w in introduced(mo, m, None, s.f and Path(s.items, s.f.fs, s.end))]
                nodes_here = [n for n in live if not transferred(mo, m, None, Path(s.items, s.f.fs, s.end), n, -1) or True]
                ins = [x for x in s.items if isinstance(x, Ev) and x.kind == 'minsert' and 'barriers' in fields(x.map)]
                nr += 1
                key = inst(mo, m, s.end)
                taken = [x for x in p.items if isinstance(x, Ev) and x.kind == 'compile']
                n = residual_of_event(taken[0]) if taken else (live[-1] if live else None)
                good = [x for x in ins if n is not None and x.mkey is proj(n, 'state') and any(q[0] == 'i' and q[1] is proj(n, 'path', '#len') for q in x.map[1])]
                ctx.ob('C19.record', key + ' recorded', bool(good), 'a subproblem is taken for processing without its threshold being recorded under its own state and depth', loc(s.end))
                for x in ins:
                    ctx.ob('C19.record', key + ' own', x in good, 'a threshold is recorded for another state or depth than those of the subproblem taken', loc(x))
                for x in good:
                    ctx.ob('C19.record', key + ' value', proj(x.val, 'theta') is proj(n, 'value') and proj(x.val, 'explored') is TRUE, 'the threshold recorded is %s' % short_show(x.val), loc(x))
                    f = s.f
                    known = False
                    for ev, th, ex in threshold_of(Path(s.items, f.fs, s.end), n):
                        if f.isvar(ev.lookup, 'None') or f.le(th, proj(n, 'value')):
                            known = True
                    ctx.ob('C19.record', key + ' not lowered', known, 'the recorded threshold may be lower than the one already stored', loc(x))
        for e in all_events(mo.runs[m][1], 'minsert'):
            if 'barriers' in fields(e.map):
                ctx.ob('C19.record', '%s.%s under the shared lock' % (mo.name, m), any(g.op == 'guard' and g.args[1] == 'mutex' for g in e.locks), 'a threshold is recorded by the solver outside the critical section', loc(e))
        ctx.ob('C19.discard', '%s.%s some' % (mo.name, m), nd > 0, 'no subproblem is ever discarded because of a threshold')
        ctx.ob('C19.record', '%s.%s some' % (mo.name, m), nr > 0, 'no threshold is ever recorded')
    ctx.ob('C19.record', 'caching solver', k >= 1, 'no solver uses the threshold store')


def residual_of_event(ev):
    return proj(ev.input, 'residual')


# ------------------------------------------------------------------ C21
OPEN, RUN = 'open_by_layer', 'ongoing_by_layer'


def counter_writes(items, name):
    """[(depth term, delta or ('set', v), event)] in order"""
    out = []
    for x in items:
        if isinstance(x, Ev) and x.kind == 'write' and ('f', name) in x.place[1]:
            q = [q for q in x.place[1] if q[0] == 'i']
            d = delta(x.old, x.val) if x.d.get('old') is not None else None
            out.append((q[0][1] if q else None, d if d is not None else ('set', x.val), x))
    return out


def resets(items, name):
    """indices of loops that set every entry of the table to zero"""
    out = []
    for i, x in enumerate(items):
        if isinstance(x, LoopObj) and any(('f', name) in p[1] for p in x.havoc):
            ok = bool(x.backs)
            for b in x.backs:
                for p in enum_paths(b, x):
                    ws = [w for w in p.items if isinstance(w, Ev) and w.kind == 'write' and ('f', name) in w.place[1]]
                    if not (len(ws) >= 1 and ws[-1].val is Int(0)):
                        ok = False
            whole = whole_table(x, name)
            if ok and whole:
                out.append(i)
        elif isinstance(x, Ev) and x.kind == 'write' and x.place[1] and x.place[1][-1] == ('f', name):
            if x.val.op == 'vecrep' and x.val.args[0] is Int(0):
                out.append(i)
        elif isinstance(x, Ev) and x.kind in ('fill', 'vfill') and x.d.get('vec', ((), ()))[1][-1:] == (('f', name),):
            if x.val is Int(0):
                out.append(i)
    return out


def whole_table(lo, name):
    it = lo.what[-1] if lo.what else None
    if isinstance(it, Term) and it.op == 'it':
        return name in show(it) and not skips(it)
    # for loop over the table: the iterator is advanced inside
    for b in lo.backs:
        for e in events(b.hist, upto=node_of(b.hist, lo)):
            if e.kind == 'next' and name in show(e.it):
                return not skips(e.it)
    return False


def built_len(vec, outs, f, bound):
    """is the length of a freshly built vector at least `bound`?  None when the way it is built is not understood"""
    if vec.op == 'arc':
        return built_len(vec.args[0], outs, f, bound)
    l = vec.args[1] if vec.op == 'vecrep' else proj(vec, '#len')
    d = delta(bound, l)
    if d is not None:
        return d >= 0
    if f.le(bound, l):
        return True
    for lo in all_loops(outs):
        if lo.head is None:
            continue
        for p in lo.havoc:
            if lo.head.read(p) is l:
                break
        else:
            continue
        if not lo.backs or not all(delta(l, b.read(p)) == 1 for b in lo.backs):
            return None
        first = lin(lo.pre.read(p))
        it = loop_iter(lo)
        if it is None or it.op != 'it' or first[0]:
            return None
        n = None
        if it.args[0] in ('range', 'rangei') and keeps_all(it):
            a, b = it.args[1].args[3][:2]
            n = Bin('Sub', b, a)
            if it.args[0] == 'rangei':
                n = Bin('Add', n, Int(1))
        elif it.args[2] and it.args[2][0][0] == 'take' and all(a[0] in ('map', 'take') for a in it.args[2]) and len([a for a in it.args[2] if a[0] == 'take']) == 1:
            n = it.args[2][0][1]
        if n is None:
            return None
        d = delta(bound, Bin('Add', n, Int(first[1])))
        return None if d is None else d >= 0
    return None


def layer_tables(ctx):
    ctx.rule('C21.tables', 'the tables indexed by layer (both counters and the thresholds) have an entry for every layer, from the root to the one after the last variable; no subproblem is counted at first')
    for mo in {id(mo): mo for mo, m in caching(ctx)}.values():
        for meth, e, st, v in constructed(ctx, mo):
            c = critical_of(st, v)
            if c is None:
                continue
            f = FactBag([st.facts])
            nv = [x for t in (c, v) for x in subterms(t) if x.op == 'call' and x.args[0] == 'Problem::nb_variables']
            nv += [x for lo in all_loops([(st, v)]) for it in [loop_iter(lo)] if it is not None for x in subterms(it) if x.op == 'call' and x.args[0] == 'Problem::nb_variables']
            bound = Bin('Add', nv[0], Int(1)) if nv else None
            tabs = [(OPEN, proj(c, OPEN)), (RUN, proj(c, RUN)), ('barriers', proj(proj(v, 'shared'), 'barriers'))]
            for name, t in tabs:
                r = built_len(t, [(st, v)], f, bound) if bound is not None else None
                ctx.ob('C21.tables', '%s::%s %s' % (mo.name, meth, name), r is True, 'the table has no entry for the last layer' if r is False else 'the number of entries is not known to cover all layers: %s' % short_show(proj(t, '#len')))
            for name, t in tabs[:2]:
                z = T_elem(t)
                ctx.ob('C21.tables', '%s::%s %s zero' % (mo.name, meth, name), z is Int(0) or z.op != 'int' and written_zero(t, [(st, v)]), 'the counters start as %s' % short_show(z, n=80))


def written_zero(t, outs):
    """some value stored while the tables were built is zero (or none of them is known)"""
    vals = [x.val for x in all_events(outs, 'vpush', 'push', 'resize') if isinstance(x.val, Term)]
    return any(x is Int(0) for x in vals) or not any(x.op in ('int', 'bin', 'min', 'max', 'call') for x in vals)


def layer_counters(ctx):
    ctx.rule('C21.push', 'putting a subproblem on the frontier increments the open counter of its own depth once, in the same critical section')
    ctx.rule('C21.take', 'a subproblem taken from the frontier decrements the open counter of its own depth exactly once (unless the frontier is emptied), and increments the running counter of that depth when it is kept for processing; both in the same critical section')
    ctx.rule('C21.finish', 'the running counter of the depth of the processed subproblem is decremented exactly when the worker stops being busy')
    ctx.rule('C21.clear', 'emptying the frontier while the search goes on resets every open counter in the same critical section')
    ctx.rule('C21.purge', 'the thresholds of a layer are thrown away only for the lowest active layer, after both its counters were seen to be zero, and that layer is then passed for good')
    for mo, m in caching(ctx):
        lbs = known_lbs(mo, m)
        e, outs = mo.runs[m]
        k0 = '%s.%s' % (mo.name, m)
        n = {x: 0 for x in ('push', 'take', 'finish', 'clear', 'purge')}
        # callback pushes
        pieces = [(ev, p) for ev, p, a, bd in cutset_paths(mo, m)]
        for s, v in outs:
            pieces += [(None, p) for p in enum_paths(s)]
        for ev, p in pieces:
            pu = [x for x in p.items if isinstance(x, Ev) and x.kind == 'fpush']
            ws = counter_writes(p.items, OPEN)
            for x in pu:
                n['push'] += 1
                d = proj(x.node, 'path', '#len')
                ctx.ob('C21.push', '%s %s' % (k0, 'cutset' if ev else 'root'), [w for w in ws if w[0] is d and w[1] == 1] and len(ws) == len(pu),
                       'a subproblem is put on the frontier without counting it (once) as open at its own depth', loc(x))
                ctx.ob('C21.push', '%s %s locked' % (k0, 'cutset' if ev else 'root'), any(g.op == 'guard' and g.args[1] == 'mutex' for g in x.locks), 'not in a critical section', loc(x))
            if not pu and ev:
                ctx.ob('C21.push', k0 + ' not pushed', not ws, 'a subproblem that is not put on the frontier is counted as open', loc(ws[0][2]) if ws else '')
        for kind, start, p in worker_paths(mo, m):
            if any(p is q or start_is(q, start) for ev, q, a, bd in cutset_paths(mo, m)):
                continue
            if isinstance(start, LoopObj) and resets([start], OPEN):
                continue
            st = start if isinstance(start, LoopObj) else None
            if interrupted_on(p, None):
                continue
            secs = psections(mo, m, p)
            clr = [i for i, x in enumerate(p.items) if isinstance(x, Ev) and x.kind == 'fclear']
            rs = resets(p.items, OPEN)
            for i in clr:
                n['clear'] += 1
                j = next((s.j for s in secs if s.i < i < s.j), len(p.items))
                # the purge below a piece starting inside the section
                end = next((q for q, x in enumerate(p.items) if q > i and isinstance(x, Ev) and x.kind in ('unlock', 'wait') and x.guard is not None and x.guard.args[1] == 'mutex'), len(p.items))
                ctx.ob('C21.clear', k0, any(i2 < end and (i2 > i or inside(p, i2, i)) for i2 in rs), 'the frontier is emptied without resetting the open counters in the same critical section', loc(p.items[i]))
            ws = counter_writes(p.items, OPEN)
            intro = introduced(mo, m, st, p)
            taken = []
            for nd, i, where in intro:
                if transferred(mo, m, start, p, nd, i) or absent(mo, m, start, p, nd, i):
                    continue
                d = proj(nd, 'path', '#len')
                taken.append(d)
                if clr:
                    continue
                n['take'] += 1
                mine = [w for w in ws if w[0] is d]
                ctx.ob('C21.take', k0 + ' open ' + kind, len(mine) == 1 and mine[0][1] == -1, 'a subproblem is taken from the frontier but the open counter of its depth changes by %s' % [w[1] for w in mine], where)
            if not clr:
                for w in ws:
                    ctx.ob('C21.take', k0 + ' own depth ' + kind, w[0] in taken or any(w[0] is proj(nd, 'path', '#len') for nd, i, wh in intro), 'the open counter of an unrelated depth (%s) is changed' % short_show(w[0]), loc(w[2]))
            up = [s for s in secs if delta(s.before('ongoing'), s.after('ongoing')) == 1]
            dn = [s for s in secs if delta(s.before('ongoing'), s.after('ongoing')) == -1]
            rw = counter_writes(p.items, RUN)
            if up and dn:
                n['finish'] += 1
                a = counter_writes(up[0].items, RUN)
                b = counter_writes(dn[0].items, RUN)
                ctx.ob('C21.take', k0 + ' running', len(a) == 1 and a[0][1] == 1 and a[0][0] in taken, 'the running counter of the depth of the subproblem is not incremented once when it is taken', loc(up[0].end))
                ctx.ob('C21.finish', k0, len(b) == 1 and b[0][1] == -1 and len(a) == 1 and b[0][0] is a[0][0], 'the running counter decremented when the worker finishes is not the one it incremented', loc(dn[0].end))
                ctx.ob('C21.finish', k0 + ' nothing else', len(rw) == 2, 'the running counters are changed %d times on one path' % len(rw), loc(rw[-1][2]) if rw else '')
            else:
                ctx.ob('C21.take', k0 + ' not running', not rw, 'the running counters change on a path that does not process a subproblem', loc(rw[0][2]) if rw else '')
        # purging
        for lo in all_loops(outs):
            for b in lo.backs:
                for p in enum_paths(b, lo):
                    for x in p.items:
                        if isinstance(x, Ev) and x.kind == 'clear' and 'barriers' in fields(x.vec):
                            n['purge'] += 1
                            purge_ok(ctx, k0, p, x)
        for s in sections(mo, m):
            for x in s.items:
                if isinstance(x, Ev) and x.kind == 'clear' and 'barriers' in fields(x.vec):
                    n['purge'] += 1
                    purge_ok(ctx, k0, s.f and Path(s.items, s.f.fs, s.end), x)
        for lo in all_loops(outs):
            for b in lo.backs:
                for p in enum_paths(b, lo):
                    for x in p.items:
                        if isinstance(x, Ev) and x.kind == 'write' and last_field(x.place) == 'lowest_active_layer':
                            lowest_ok(ctx, k0, p, x)
        for x in ('push', 'take', 'finish', 'clear', 'purge'):
            ctx.ob('C21.' + x, k0 + ' some', n[x] > 0, 'nothing found')


def start_is(q, start):
    return isinstance(start, LoopObj) and any(q.end is b for b in start.backs)


def inside(p, i2, i):
    return False


def both_zero(p, layer, ev):
    f = p.f
    def at(name):
        for x in p.items:
            if isinstance(x, Ev) and x.kind == 'index' and ('f', name) in x.vec[1] and x.at is layer:
                return x.read(sub(x.vec, ('i', layer)))
        return None
    a, b = at(OPEN), at(RUN)
    if a is None or b is None:
        return False
    z = Int(0)
    s = Bin('Add', a, b)
    return (f.eq(a, z) and f.eq(b, z)) or f.eq(s, z) or f.le(s, z) or (f.le(a, z) and f.le(b, z))


def purge_ok(ctx, k0, p, x):
    layer = next((q[1] for q in x.vec[1] if q[0] == 'i'), None)
    ctx.ob('C21.purge', k0 + ' idle', layer is not None and both_zero(p, layer, x), 'thresholds are thrown away without both counters of that layer having been seen to be zero', loc(x))
    low = [w for w in p.items if isinstance(w, Ev) and w.kind == 'write' and last_field(w.place) == 'lowest_active_layer']
    ctx.ob('C21.purge', k0 + ' lowest', layer is not None and bool(low) and low[0].old is layer, 'the layer whose thresholds are thrown away is not the lowest active one', loc(x))
    ctx.ob('C21.purge', k0 + ' locked', any(g.op == 'guard' and g.args[1] == 'mutex' for g in x.locks), 'not in a critical section', loc(x))


def lowest_ok(ctx, k0, p, x):
    ctx.ob('C21.purge', k0 + ' next', delta(x.old, x.val) == 1 and both_zero(p, x.old, x), 'the lowest active layer changes from %s to %s without that layer having been seen to be inactive' % (short_show(x.old, n=60), short_show(x.val, n=60)), loc(x))


# ------------------------------------------------------------------ C27
def worker_count(ctx):
    ctx.rule('C27.spawn', 'one worker is started for every number from 0 to the configured count, inside a scope that waits for all of them, each with a diagram of its own')
    ctx.rule('C27.config', 'the configured count is the one given (at least one), by default the number of hardware threads, and there is one bound slot per worker')
    for mo, m in each(ctx):
        e, outs = mo.runs[m]
        k = '%s.%s' % (mo.name, m)
        n = 0
        for lo in all_loops(outs):
            for b in lo.backs:
                for p in enum_paths(b, lo):
                    sp = [x for x in p.items if isinstance(x, Spawn)]
                    if not sp:
                        continue
                    n += 1
                    ctx.ob('C27.spawn', k + ' one per index', len(sp) == 1, 'starts %d workers per iteration' % len(sp), loc(sp[0].site))
                    nx = [x for x in p.items if isinstance(x, Ev) and x.kind == 'next']
                    r = nx[0].it if nx else (lo.what[-1] if lo.what else None)
                    ctx.ob('C27.spawn', k + ' range', r is not None and full_range(r), 'the workers are not numbered from 0 to the configured count (%s)' % (short_show(r) if r is not None else '?'), loc(sp[0].site))
                    for s in sp:
                        for st in s.states:
                            ev = last_spawn_event(st)
                            for q in enum_paths(st, ev):
                                mk = [x for x in q.items if isinstance(x, Ev) and x.kind == 'ddnew']
                                ctx.ob('C27.spawn', k + ' own diagram', len(mk) == 1, '%d diagrams are created by a worker' % len(mk), loc(s.site))
        ctx.ob('C27.spawn', k + ' some', n > 0, 'no loop starting workers was found')
        for s, v in outs:
            for p in enum_paths(s):
                ctx.ob('C27.spawn', k + ' scope', any(isinstance(x, Ev) and x.kind == 'scope' for x in p.items), 'the workers are not started inside a scope that joins them')
    for mo in models(ctx):
        for meth, e, st, v in list(constructed(ctx, mo)) + list(reconfigured(ctx, mo)):
            t = proj(v, 'nb_threads')
            f = FactBag([st.facts])
            key = '%s::%s' % (mo.name, meth)
            src = T('sym', 'nb_threads')
            if meth == 'new':
                ok = any(hw_threads(x) for x in subterms(t)) and count_of(t, None, f)
            else:
                ok = count_of(t, src, f)
            ctx.ob('C27.config', key + ' count', ok, 'the number of workers is set to %s' % short_show(t))
            c = critical_of(st, v)
            ub = bound_table(v, c)
            l = proj(ub, '#len') if ub is not None else None
            unb = [x.val for x in all_events([(st, v)], 'resize')] if meth == 'with_nb_threads' else [T_elem(ub)]
            ctx.ob('C27.config', key + ' unbounded slots', all(x is MAX for x in unb), 'the bound slots start as %s' % [short_show(x, n=60) for x in unb])
            ctx.ob('C27.config', key + ' slots', l is not None and (l is t or f.eq(l, t)), 'the number of bound slots is %s while there are %s workers' % (short_show(l) if l is not None else '?', short_show(t)))


def bound_table(v, c):
    """the table of published bounds of a solver value"""
    from .engine import project
    if c is not None:
        return proj(c, 'upper_bounds')
    cr = project(proj(v, 'shared', 'critical'), ('m',))
    return proj(cr, 'upper_bounds')


def full_range(r):
    for x in subterms(r) if isinstance(r, Term) else ():
        if is_agg(x, None, None) and 'start' in x.args[2] and 'end' in x.args[2]:
            e = proj(x, 'end')
            return proj(x, 'start') is Int(0) and 'nb_threads' in show(e)
    return False


def count_of(t, src, f):
    """t is the requested count, or the requested count raised to at least one"""
    def is_src(x):
        return (x is src) if src is not None else hw_threads(x)
    if is_src(t):
        return True
    if t.op == 'max':
        return all(is_src(x) or (x.op == 'int' and x.args[0] <= 1) for x in t.args) and any(is_src(x) for x in t.args)
    if t.op == 'int' and t.args[0] == 1 and src is not None:
        return f.le(src, Int(1)) or f.lt(src, Int(1)) or f.eq(src, Int(0))
    return False


def T_elem(vec):
    """generic element of a vector value"""
    from .engine import project
    return project(vec, ('i', T('sym', 'any index')))
