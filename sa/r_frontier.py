"""Rules about the frontiers: ordering, the heap and its tables (C22, C23)."""
from .terms import *
from .engine import Ev, read_mem, LoopObj
from .q import *

ALLO = frozenset(('Less', 'Equal', 'Greater'))
REV = {'Less': 'Greater', 'Greater': 'Less', 'Equal': 'Equal'}


def lastseg(t):
    return t[1].split('::')[-1] if t and t[0] == 'adt' else None


class Tables:
    """the tables of an indexed heap of subproblems: found by their types"""

    def __init__(self, ctx, adt):
        p = ctx.prog()
        self.ctx, self.adt, self.name = ctx, adt, adt.split('::')[-1]
        self.fields = {f[0]: f[1] for f in p.adts[adt]['variants'][0][1]}
        self.states = self.nodes = self.pos = None
        ids = []
        for n, t in self.fields.items():
            k = lastseg(t)
            if k in ('HashMap', 'BTreeMap') and self.states is None:
                self.states = n
            elif k == 'Vec':
                e = t[2][0]
                if lastseg(e) == 'SubProblem':
                    self.nodes = n
                elif e == ['int', 'usize']:
                    self.pos = n
                elif lastseg(e):
                    ids.append(n)
        # the heap is the list whose length is the length of the frontier
        self.heap = self.bin = None
        e, outs = ctx.run(self.method('len'))
        vs = {v for s, v in outs}
        for n in ids:
            if all(v.op in ('init', 'sym', 'fld') and show(v) == show_len(n) for v in vs):
                self.heap = n
        rest = [n for n in ids if n != self.heap]
        self.bin = rest[0] if len(rest) == 1 else None

    def method(self, name):
        p = self.ctx.prog()
        for r in p.raw():
            s = r.get('self')
            if r.get('name') == name and s and s[0] == 'adt' and s[1] == self.adt and (r.get('trait') or '').split('::')[-1] == 'Frontier':
                return r['id']
        for r in p.raw():
            s = r.get('self')
            if r.get('name') == name and s and s[0] == 'adt' and s[1] == self.adt:
                return r['id']
        return None

    def is_(self, place, f):
        """is the place the table itself?"""
        fs = fields(place)
        return place[0][0] == 'ptr' and tuple(fs[:1]) == (f,) and all(q[0] in 'fd' for q in place[1]) and len(fs) == 1

    def entry(self, place, f):
        """index when the place is an entry (or part of one) of the table"""
        pr = place[1]
        if place[0][0] == 'ptr' and len(pr) >= 2 and pr[0] == ('f', f) and pr[1][0] == 'i':
            return pr[1][1]
        return None


def show_len(n):
    return '*self.%s.#len' % n


def inst(t, *xs):
    return ' '.join([t.name] + [str(x) for x in xs])


def ids_eq(f, a, b):
    return a is b or f.eq(a, b)


def num(t):
    """the number inside an identifier"""
    return proj(t, '0')


def path_value(P, st, place):
    """value of a place on one path, looking through the joins the path went through"""
    v = st.read(place)
    if v.op != 'join' or not P.joins:
        return v
    for n, s in reversed(P.joins):
        w = s.read(place)
        if w.op != 'join':
            return w
    return v


# ---- orders between heap positions
def ub_state(mem, T, root, x):
    h = (root, (('f', T.heap), ('i', x)))
    n = num(read_mem(mem, h))
    base = (root, (('f', T.nodes), ('i', n)))
    return read_mem(mem, (base[0], base[1] + (('f', 'ub'),))), read_mem(mem, (base[0], base[1] + (('f', 'state'),)))


def deref_same(a, b):
    """two terms for the same state (the shared pointer or what it points to)"""
    def strip(t):
        if t.op == 'deref':
            t = t.args[0]
        s = show(t)
        while s.startswith('&*'):
            s = s[2:]
        return s.rstrip('^')
    return a is b or strip(a) == strip(b)


def outcomes(fs, ux, uy, sx, sy):
    """possible results of comparing (ux, sx) with (uy, sy): by bound, ties by ranking"""
    poss = set(ALLO)
    m = 7
    for f in fs:
        m &= f.rel_of(ux, uy)
    rank = set(ALLO)
    for f in fs:
        for t, v in f.var.items():
            names = {v[1]} if v[0] == 'is' else ALLO - set(v[1])
            if t.op == 'crev':
                names = {REV.get(n, n) for n in names}
                t = t.args[0]
            if t.op == 'cthen' and len(t.args) == 2 and t.args[0].op == 'cmp':
                a, b = t.args[0].args
                c = t.args[1]
                if c.op == 'call' and str(c.args[0]).endswith('compare') and len(c.args) == 4:
                    if a is ux and b is uy and deref_same(c.args[2], sx) and deref_same(c.args[3], sy):
                        poss &= names
                    elif a is uy and b is ux and deref_same(c.args[2], sy) and deref_same(c.args[3], sx):
                        poss &= {REV[n] for n in names}
            elif t.op == 'call' and str(t.args[0]).endswith('compare') and len(t.args) == 4:
                if deref_same(t.args[2], sx) and deref_same(t.args[3], sy):
                    rank &= names
                elif deref_same(t.args[2], sy) and deref_same(t.args[3], sx):
                    rank &= {REV[n] for n in names}
    byub = set()
    if m & LT:
        byub.add('Less')
    if m & GT:
        byub.add('Greater')
    if m & EQ:
        byub |= rank
    return poss & byub


# ---- arithmetic of positions: multiples of one variable k, at k*a + c
def lin(t, me, r):
    """t as a*k + c, where the position me is 2k + r; None when it is not of that form"""
    if t is me:
        return (2, r)
    if t.op == 'int':
        return (0, t.args[0])
    if t.op == 'bin':
        o = t.args[0]
        x, y = lin(t.args[1], me, r), lin(t.args[2], me, r)
        if x is None or y is None:
            return None
        if o == 'Add':
            return (x[0] + y[0], x[1] + y[1])
        if o == 'Sub':
            return (x[0] - y[0], x[1] - y[1])
        if o == 'Mul' and (x[0] == 0 or y[0] == 0):
            k, (a, c) = (x[1], y) if x[0] == 0 else (y[1], x)
            return (a * k, c * k)
        if o in ('Div', 'Shr') and y[0] == 0:
            d = y[1] if o == 'Div' else 1 << y[1]
            if d and x[0] % d == 0:
                return (x[0] // d, x[1] // d)
        if o == 'BitAnd' and x[0] == 0 and y[0]:
            x, y = y, x
        if o in ('Rem', 'BitAnd') and y[0] == 0 and (o == 'Rem' and y[1] == 2 or o == 'BitAnd' and y[1] == 1) and x[0] % 2 == 0:
            return (0, x[1] % 2)
        if o == 'Shl' and y[0] == 0:
            return (x[0] << y[1], x[1] << y[1])
    if t.op == 'ssub' or t.op == 'call' and t.args[0] == 'saturating_sub':
        a = t.args if t.op == 'ssub' else t.args[1:]
        x, y = lin(a[0], me, r), lin(a[1], me, r)
        if x is not None and y is not None and y[0] == 0 and x[0] >= 0 and x[1] >= y[1]:
            return (x[0], x[1] - y[1])
    return None


def parity_ok(fs, me, r):
    """may the position me be of the form 2k + r, given the facts?"""
    for f in fs:
        for (a, b), m in f.rel.items():
            if a.op != 'int' and b.op != 'int':
                continue
            x, y = lin(a, me, r), lin(b, me, r)
            if x is None or y is None or x[0] or y[0]:
                continue
            if a.op == 'bin' and a.args[0] in ('Rem', 'BitAnd') or b.op == 'bin' and b.args[0] in ('Rem', 'BitAnd'):
                v = LT if x[1] < y[1] else EQ if x[1] == y[1] else GT
                if not m & v:
                    return False
        for t, v in f.bl.items():
            if t.op == 'bit' and t.args[1] in (1, Int(1)):
                x = lin(t.args[0], me, r)
                if x is not None and x[0] % 2 == 0 and bool(x[1] % 2) != v:
                    return False
    return True


def is_parent(fs, par, me):
    """par is the position of the parent of me (which is not the root)"""
    for r in (1, 2):      # me = 2k+1 or 2k+2: the parent is k
        if parity_ok(fs, me, r) and lin(par, me, r) != (1, 0):
            return False
    return True


def child_no(kid, me):
    """1 or 2 when kid is the left or right child of me"""
    if me.op == 'int':
        c = kid.args[0] - 2 * me.args[0] if kid.op == 'int' else None
        return c if c in (1, 2) else None
    for r in (0, 1):
        k = lin(kid, me, r)
        if k is None:
            return None
        if k[0] != 4:
            return None
        c = k[1] - 2 * r
        if r == 0:
            first = c
        elif c != first:
            return None
    return first if first in (1, 2) else None


def zero(fs, t):
    if t is Int(0):
        return True
    b = FactBag(fs)
    return b.eq(t, Int(0)) or b.le(t, Int(0))


def not_zero(fs, t):
    b = FactBag(fs)
    return b.truth(Bin('Eq', t, Int(0))) is False or b.lt(Int(0), t) or b.le(Int(1), t)


# ---- repair loops
class Repair:
    """a loop that swaps a heap entry with another until the order is restored"""

    def __init__(self, T, lo, ctx, meth):
        self.T, self.lo, self.ctx, self.meth = T, lo, ctx, meth
        self.iters = []       # (path, back state, {position: value}, root)
        for b in lo.backs:
            for P in enum_paths(b, lo):
                w, pw, root = {}, {}, None
                for e in P.evs('write'):
                    x = T.entry(e.place, T.heap)
                    if x is not None:
                        w[x] = e.val
                        root = e.place[0]
                    x = T.entry(e.place, T.pos)
                    if x is not None:
                        pw[x] = e.val
                self.iters.append((P, b, w, pw, root))
        self.root = next((i[4] for i in self.iters if i[4] is not None), None)
        self.kind = None
        self.me = self.id = self.other = None
        self.others = []      # the other entry, for every iteration

    def phis(self):
        out = {}
        for p in self.lo.havoc:
            h = self.lo.head.read(p)
            if h.op == 'phi':
                out[h] = p
        return out

    def at_entry(self):
        """(facts, state) of every way into the loop"""
        return [(P, self.lo.pre) for P in enum_paths(self.lo.pre)]

    def check_swaps(self):
        """every iteration exchanges two heap entries and updates their positions; fills me / id"""
        T, ctx, lo = self.T, self.ctx, self.lo
        ph = self.phis()
        head = lo.head
        for P, b, w, pw, root in self.iters:
            who = inst(T, self.meth, 'repair')
            ok = len(w) == 2
            ctx.ob('C22.swap', who + ' two entries', ok, 'an iteration of the heap repair writes %d heap entries' % len(w), loc(lo.site))
            if not ok:
                return False
            (a, va), (c, vc) = w.items()
            old = {x: head.read((root, (('f', T.heap), ('i', x)))) for x in w}
            # the moving entry is carried by a loop variable
            good = False
            names = {}
            both = ((a, va, c, vc), (c, vc, a, va))
            for x, vx, y, vy in sorted(both, key=lambda o: not (o[0] in ph and b.read(ph[o[0]]) is o[2])):
                # entry y receives the moving identifier, x receives what was at y
                if vx is not old[y]:
                    continue
                if vy is old[x]:
                    mover_ok = True
                else:
                    mover_ok = x in ph and self.carries(ph[x], num(vy))
                if not mover_ok:
                    continue
                good = True
                # the loop may know the moving identifier under another name
                me = num(vy)
                for k in pw:
                    if vy is old[x] and k is not num(vx) and k is not me and x in ph and self.carries(ph[x], k):
                        names[k] = me
                if x in ph and b.read(ph[x]) is y:
                    self.me, self.other = x, y
                    self.others.append(y)
                    self.id = next(iter(names), me)
                break
            ctx.ob('C22.swap', who + ' exchange', good, 'an iteration of the heap repair does not exchange two entries', loc(lo.site))
            want = {num(v): p for p, v in w.items()}
            pw = {names.get(k, k): v for k, v in pw.items()}
            at = lambda k: head.read((root, (('f', T.pos), ('i', k))))
            for k in want:      # by the invariant itself: the position recorded for an entry is its place
                for x in w:
                    if want[k] is x and k in pw and any(pw[k] is at(j) for j in [num(old[x])] + [j for j, v in names.items() if v is num(old[x])]):
                        pw[k] = x
            same = set(want) == set(pw) and all(pw[k] is want[k] for k in want)
            if not same:
                same = len(want) == len(pw) and all(any(P.f.eq(k, j) and pw[j] is want[k] for j in pw) for k in want)
            ctx.ob('C22.swap', who + ' positions', same, 'the positions recorded for the exchanged entries are not where they are put', loc(lo.site))
            if not good:
                return False
        return True

    def carries(self, place, ident):
        """invariant: the number of the heap entry at the loop variable is `ident`"""
        T, lo = self.T, self.lo
        for P, st in self.at_entry():
            a0 = path_value(P, st, place)
            pos0 = st.read((self.root, (('f', T.pos), ('i', ident))))
            h0 = st.read((self.root, (('f', T.heap), ('i', a0))))
            if not (a0 is pos0 or num(h0) is ident):
                return False
        for P, b, w, pw, root in self.iters:
            here = w.get(b.read(place))
            if here is None or num(here) is not ident and here is not self.lo.head.read((self.root, (('f', T.heap), ('i', self.lo.head.read(place))))):
                return False
        return True

    def relation(self, other, me, fs, evs, mem=None):
        """'up' when other is the parent of me, 'down' when it is its best child, 'root' / 'leaf' when there is none"""
        T = self.T
        evs = list(evs)
        r = 'root' if zero(fs, me) else None
        if r is None and is_parent(fs, other, me):
            return 'up'
        k = child_no(other, me)
        left = Bin('Add', Bin('Mul', me, Int(2)), Int(1))
        right = Bin('Add', Bin('Mul', me, Int(2)), Int(2))
        n = self.lo.head.read((self.root, (('f', T.heap), ('f', '#len'))))
        bag = FactBag(fs)
        beyond = lambda x: any(child_no(t, me) == x and (bag.le(n, t)) for t in self.positions(fs, evs, me))
        if k is None:
            if zero(fs, other) and (beyond(1)):
                return 'leaf'
            return r
        sib = {1: 2, 2: 1}[k]
        if k == 1 and beyond(2):
            return 'down'
        mems = [mem] if mem is not None else []
        mems += [e.mem for e in evs if e.kind == 'call' and str(e.name).endswith('compare')]
        for m in mems:
            for y in self.positions(fs, evs, me):
                if child_no(y, me) == sib:
                    o = outcomes(fs, *[z for pr in zip(ub_state(m, T, self.root, other), ub_state(m, T, self.root, y)) for z in pr])
                    if 'Less' not in o:
                        return 'down'
        return r

    def positions(self, fs, evs, me):
        out = {e.at for e in evs if e.kind == 'index' and self.T.is_(e.vec, self.T.heap)}
        for f in fs:
            for a, b in f.rel:
                out |= {a, b}
        return out

    def check_order(self):
        T, ctx, lo = self.T, self.ctx, self.lo
        if self.me is None or len(self.others) != len(self.iters):
            return
        who = inst(T, self.meth, 'repair')
        ph = self.phis()
        me, other = self.me, self.other
        # the relation between the two positions
        rels = set()
        if other in ph:
            for P, st in self.at_entry():
                rels.add(self.relation(path_value(P, st, ph[other]), path_value(P, st, ph[me]), P.f.fs, P.evs('call', 'index'), st.mem))
            for P, b, w, pw, root in self.iters:
                rels.add(self.relation(b.read(ph[other]), b.read(ph[me]), P.f.fs, P.evs('call', 'index'), b.mem))
        else:
            for (P, b, w, pw, root), other in zip(self.iters, self.others):
                rels.add(self.relation(other, me, P.f.fs, P.evs('call', 'index'), lo.head.mem))
        self.kind = 'up' if rels <= {'up', 'root'} and 'up' in rels else 'down' if rels <= {'down', 'leaf', 'root'} and 'down' in rels else None
        ctx.ob('C23.order', who + ' relation', self.kind is not None, 'entries are not exchanged with their parent, nor with their best child (%s)' % sorted(map(str, rels)), loc(lo.site))
        if self.kind is None:
            return
        worse = 'Less' if self.kind == 'up' else 'Greater'
        for (P, b, w, pw, root), other in zip(self.iters, self.others):
            o = self.compare(P.f.fs, me, other, lo.head.mem)
            ctx.ob('C23.order', who + ' exchange only if better', worse not in o and len(o) < 3, 'an exchange may happen although the order of the two entries is right', loc(lo.site))
            ctx.ob('C23.order', who + ' inside', not_zero(P.f.fs, me) if self.kind == 'up' else not_zero(P.f.fs, other) or FactBag(P.f.fs).lt(other, lo.head.read((self.root, (('f', T.heap), ('f', '#len'))))),
                   'an exchange may involve an entry that does not exist', loc(lo.site))

    def compare(self, fs, x, y, mem):
        a, b = ub_state(mem, self.T, self.root, x), ub_state(mem, self.T, self.root, y)
        return outcomes(fs, a[0], b[0], a[1], b[1])

    def check_exit(self, P, i):
        """path P leaves the loop (item i): nothing was left to repair"""
        T, lo = self.T, self.lo
        if self.kind is None:
            return
        fs, me, other = P.f.fs, self.me, self.other
        for f in fs:      # a child is never at position zero
            for (a, b), m in f.rel.items():
                t = b if a is Int(0) else a if b is Int(0) else None
                if t is not None and m == EQ and child_no(t, me):
                    return
        better = 'Greater' if self.kind == 'up' else 'Less'
        evs = [x for x in P.items[i + 1:] if isinstance(x, Ev)]
        ok = False
        n = lo.head.read((self.root, (('f', T.heap), ('f', '#len'))))
        bag = FactBag(fs)
        if self.kind == 'up':
            ok = zero(fs, me)
        else:
            ok = zero(fs, other) or any(child_no(t, me) == 1 and bag.le(n, t) for t in self.positions(fs, evs, me))
        if not ok:
            for y in [other] + list(self.positions(fs, evs, me)):
                if y is not other and (is_parent(fs, y, me) if self.kind == 'up' else self.relation(y, me, fs, evs, lo.head.mem) == 'down') is False:
                    continue
                if y.op == 'int' and y is not other:
                    continue
                o = self.compare(fs, me, y, lo.head.mem)
                if better not in o:
                    ok = True
                    break
        self.ctx.ob('C23.order', inst(T, self.meth, 'repair', self.kind, 'complete'), ok, 'the repair may stop although an entry is better than its parent', loc(lo.site))


def tables(ctx):
    p = ctx.prog()
    out = []
    for a in p.implementors('Frontier'):
        t = Tables(ctx, a)
        if t.nodes is not None:
            out.append(t)
    return out


def rules(ctx):
    ctx.rule('C22.tables', 'The deduplicating frontier has an index from states to identifiers, a table of subproblems, a table of positions, a heap of identifiers and a list of free identifiers.')
    ctx.rule('C22.swap', 'Every iteration of a heap repair exchanges exactly two heap entries and records their new positions.')
    ctx.rule('C22.table', 'Outside the repairs, every recorded position is the place of that very identifier in the heap.')
    ctx.rule('C22.new', 'Pushing a state that is not present stores the subproblem under a free identifier, puts it at the end of the heap, records its position and indexes it under its own state.')
    ctx.rule('C22.dup', 'Pushing a state that is present leaves the tables alone and keeps the larger bound and the subproblem of larger value, whole.')
    ctx.rule('C22.pop', 'Pop answers none only when the heap is empty; otherwise it removes exactly the returned subproblem from the heap and the index, and frees no other identifier.')
    ctx.rule('C22.clear', 'Clearing empties all tables.')
    ctx.rule('C22.frame', 'No other method changes the tables.')
    ctx.rule('C23.order', 'A heap repair exchanges an entry with its parent only if it is better, or with its best child only if that is better, and stops only when nothing is left to repair.')
    ctx.rule('C23.repair', 'Whatever may break the order of the heap (a new entry, a larger bound, the removal of the first entry) is followed by a repair from that entry.')
    ctx.rule('C23.first', 'Pop returns the first entry of the heap.')
    ctx.rule('C23.cmp', 'The comparison of subproblems is by bound, ties by the ranking of their states.')
    ctx.rule('C23.len', 'Length is the number of entries of the heap; emptiness is length zero.')
    ctx.rule('C23.heap', 'The plain frontier forwards to a binary heap ordered by that comparison.')
    ts = tables(ctx)
    ctx.ob('C22.tables', 'found', len(ts) >= 1, 'no frontier with an index was found')
    for T in ts:
        ok = all((T.states, T.nodes, T.pos, T.heap, T.bin))
        ctx.ob('C22.tables', inst(T, 'tables'), ok, 'the tables of the frontier were not recognised (or its length is not that of the heap)')
        ctx.ob('C23.len', inst(T, 'len'), T.heap is not None, 'the length of the frontier is not the length of its heap')
        if not ok:
            continue
        for m in ('push', 'pop'):
            method(ctx, T, m)
        cleared(ctx, T)
        frame(ctx, T)
        empty(ctx, T.adt, T.heap)
    comparator(ctx)
    plain(ctx)


def method(ctx, T, m):
    fid = T.method(m)
    e, outs = ctx.run(fid)
    reps = {}
    for lo in all_loops(outs):
        wr = any(isinstance(x, Ev) and x.kind == 'write' and (T.entry(x.place, T.heap) is not None or T.entry(x.place, T.pos) is not None) for b in lo.backs for P in enum_paths(b, lo) for x in P.items)
        if wr:
            r = Repair(T, lo, ctx, m)
            if r.check_swaps():
                r.check_order()
            reps[id(lo)] = r
    n = dict(new=0, dup=0, pop=0, none=0)
    for st, v in outs:
        for P in enum_paths(st):
            for i, x in enumerate(P.items):
                if isinstance(x, LoopObj) and id(x) in reps:
                    reps[id(x)].check_exit(P, i)
            outside(ctx, T, m, P)
            (push_path if m == 'push' else pop_path)(ctx, T, P, st, v, reps, n)
    if m == 'push':
        ctx.ob('C22.new', inst(T, 'some'), n['new'] > 0, 'no path stores a new state')
        ctx.ob('C22.dup', inst(T, 'some'), n['dup'] > 0, 'no path meets a state already present')
    else:
        ctx.ob('C22.pop', inst(T, 'some'), n['pop'] > 0, 'no path returns a subproblem')


def outside(ctx, T, m, P):
    """position writes outside the loops"""
    for e in P.evs('write'):
        x = T.entry(e.place, T.pos)
        if x is None:
            continue
        root = e.place[0]
        h = read_mem(e.mem, (root, (('f', T.heap), ('i', e.val))))
        ok = num(h) is x or P.f.eq(num(h), x)
        if not ok:      # recorded before the entry is put there
            i = P.index(e)
            for y in P.items[i:]:
                if isinstance(y, Ev) and y.kind == 'push' and T.is_(y.vec, T.heap) and (y.at is e.val) and num(y.val) is x:
                    ok = True
        ctx.ob('C22.table', inst(T, m, 'position'), ok, 'position %s is recorded for the identifier %s, which is not there' % (show(e.val), show(x)), loc(e))


def heap_changes(T, P):
    return [e for e in P.items if isinstance(e, Ev) and (e.kind in ('push', 'pop', 'remove', 'clear', 'fill', 'truncate', 'insert', 'drain', 'swap') and T.is_(e.d.get('vec', ((None,), ())), T.heap)
                                                          or e.kind == 'write' and (T.entry(e.place, T.heap) is not None or T.is_(e.place, T.heap)))]


def vec_events(T, P, f, *kinds):
    return [e for e in P.items if isinstance(e, Ev) and e.kind in kinds and e.d.get('vec') is not None and T.is_(e.vec, f)]


MUT = ('push', 'pop', 'remove', 'clear', 'fill', 'truncate', 'insert', 'drain', 'resize', 'retained', 'reverse', 'sort', 'dedup', 'moved')


def changes(T, P, f):
    """every event that changes table f, outside loops"""
    out = vec_events(T, P, f, *MUT)
    for e in P.items:
        if isinstance(e, Ev) and e.kind == 'write' and (T.entry(e.place, f) is not None or T.is_(e.place, f)):
            out.append(e)
    return out


def map_events(T, P, *kinds):
    return [e for e in P.items if isinstance(e, Ev) and e.kind in kinds and T.is_(e.map, T.states)]


def same_sub(P, a, b, names):
    return all(proj(a, n) is proj(b, n) or P.f.eq(proj(a, n), proj(b, n)) for n in names)


SUB = ('state', 'value', 'path', 'depth')


def push_path(ctx, T, P, st, v, reps, n):
    look = map_events(T, P, 'mget')
    ins = map_events(T, P, 'minsert')
    rem = map_events(T, P, 'mremove')
    node = pushed(ctx, T)
    hp, npu, ppu = vec_events(T, P, T.heap, 'push'), vec_events(T, P, T.nodes, 'push'), vec_events(T, P, T.pos, 'push')
    hch, bch = changes(T, P, T.heap), changes(T, P, T.bin)
    site = loc(look[0]) if look else ''
    ctx.ob('C22.tables', inst(T, 'lookup'), bool(look) and same_state(look[0].mkey, node), 'a pushed subproblem is not looked up under its own state', site)
    if not look:
        return
    known = present(P, look[0])
    rep = [reps[id(x)] for x in P.items if isinstance(x, LoopObj) and id(x) in reps]
    if known is None and not ins:
        known = True
    if known is None:
        ctx.ob('C22.new', inst(T, 'vacant'), False, 'a state is indexed without having been found missing', loc(ins[0]))
        return
    if not known:
        n['new'] += 1
        who = inst(T, 'push')
        ok = len(ins) == 1 and not rem and same_state(ins[0].mkey, node)
        ctx.ob('C22.new', who + ' indexed', ok, 'a new state is not indexed (once, under its own state)', site)
        if not ok:
            return
        ident = ins[0].val
        ok = len(hp) == 1 and len(hch) == 1 and hp[0].val is ident
        ctx.ob('C22.new', who + ' heap', ok, 'the new identifier is not added to the heap (once)', site)
        pops = vec_events(T, P, T.bin, 'pop')
        nst = last_node(T, P, num(ident))
        if pops:
            ok = len(bch) == 1 and pops[0].val is ident and not npu and not ppu
            ctx.ob('C22.new', who + ' recycled', ok, 'a recycled identifier is not taken from the free list (once)', site)
        else:
            ok = not bch and len(npu) == 1 and len(ppu) == 1 and num(ident) is npu[0].at
            ctx.ob('C22.new', who + ' fresh', ok, 'a fresh identifier does not name the end of the table of subproblems (with a position of its own)', site)
        ok = nst is not None and same_sub(P, nst, node, SUB + ('ub',))
        ctx.ob('C22.new', who + ' stored', ok, 'the stored subproblem is not the pushed one', site)
        if hp:
            pw = [e for e in P.evs('write') if T.entry(e.place, T.pos) is num(ident)]
            at = hp[0].at
            ok = pw and (pw[-1].val is at or P.f.eq(pw[-1].val, at)) or not pw and ppu and ppu[0].val is at and num(ident) is npu[0].at
            ctx.ob('C22.new', who + ' position', bool(ok), 'the position of the new identifier is not recorded as its place in the heap', site)
        ok = any(r.kind == 'up' and r.id is num(ident) for r in rep) or zero(P.f.fs, hp[0].at if hp else Int(1))
        ctx.ob('C23.repair', inst(T, 'push new'), ok, 'the heap is not repaired upwards from a new entry', site)
    else:
        n['dup'] += 1
        who = inst(T, 'push known')
        ch = hch + bch + vec_events(T, P, T.nodes, *MUT) + vec_events(T, P, T.pos, *MUT) + [e for e in P.evs('write') if T.entry(e.place, T.pos) is not None]
        ok = not ins and not rem and not ch
        ctx.ob('C22.dup', who + ' tables', ok, 'pushing a known state changes the index, the heap or the list of free identifiers', loc(ch[0]) if ch else site)
        idt = found_id(P, look[0], T)
        if idt is None:
            ctx.ob('C22.dup', who + ' found', False, 'the identifier of the known state was not recognised', site)
            return
        rt = look[0].map[0]
        base = (rt, (('f', T.nodes), ('i', num(idt))))
        wr = [e for e in P.evs('write') if e.place[1][:1] == (('f', T.nodes),)]
        foreign = [e for e in wr if T.entry(e.place, T.nodes) is not num(idt)]
        ctx.ob('C22.dup', who + ' own entry', not foreign, 'pushing a known state changes the subproblem of another state', loc(foreign[0]) if foreign else site)
        g = lambda mem, x: read_mem(mem, (base[0], base[1] + (('f', x),)))
        end = final_node(T, P, base, wr, look[0])
        old = {x: g(look[0].mem, x) for x in SUB + ('ub',)}
        new = {x: proj(node, x) for x in SUB + ('ub',)}
        f = P.f
        isnew = all(end[x] is new[x] for x in ('value', 'path', 'depth'))
        isold = all(end[x] is old[x] for x in ('value', 'path', 'depth'))
        ctx.ob('C22.dup', who + ' whole', isnew or isold, 'after pushing a known state, value, path and depth do not belong to one subproblem', site)
        ctx.ob('C22.dup', who + ' state', deref_same(end['state'], old['state']) or same_state(end['state'], node), 'the state of the kept subproblem changed', site)
        if isnew:
            ctx.ob('C22.dup', who + ' larger value', f.le(old['value'], new['value']), 'the pushed subproblem replaces the stored one although its value may be smaller', site)
        elif isold:
            ctx.ob('C22.dup', who + ' larger value', f.le(new['value'], old['value']), 'the stored subproblem is kept although the pushed one may have a larger value', site)
        u = end['ub']
        mx = Max(old['ub'], new['ub'])
        ok = u is mx or (u is new['ub'] and f.le(old['ub'], u)) or (u is old['ub'] and f.le(new['ub'], u)) or f.eq(u, mx)
        ctx.ob('C22.dup', who + ' larger bound', ok, 'the bound kept for a known state is %s instead of the larger one' % show(u), site)
        up = any(r.kind == 'up' and r.id is num(idt) for r in rep)
        ok = up or u is old['ub'] or f.le(u, old['ub']) or f.le(new['ub'], old['ub']) or cmp_not_greater(P, old['ub'], (new['ub'], mx, u))
        ctx.ob('C23.repair', inst(T, 'push known'), ok, 'the bound of a stored subproblem may grow without a repair of the heap from its entry', site)


def cmp_not_greater(P, old, news):
    """the path established that the (new) subproblem does not compare greater than the stored one"""
    for f in P.f.fs:
        for t, v in f.var.items():
            names = {v[1]} if v[0] == 'is' else ALLO - set(v[1])
            if t.op == 'crev':
                t, names = t.args[0], {REV[n] for n in names}
            c = t.args[0] if t.op == 'cthen' else t
            if c.op == 'cmp':
                a, b = c.args
                if b is old and any(a is x for x in news) and 'Greater' not in names:
                    return True
                if a is old and any(b is x for x in news) and 'Less' not in names:
                    return True
    return False


def pushed(ctx, T):
    """the subproblem handed to push"""
    r = ctx.prog().bodies[T.method('push')]
    e, outs = ctx.run(r['id'])
    name = r['locals'][2][1] or '_2'
    for st, v in outs:
        for P in enum_paths(st):
            for x in P.items:
                if isinstance(x, Ev):
                    for val in x.d.values():
                        if isinstance(val, Term):
                            for t in subterms(val):
                                if t.op in ('sym', 'arg', 'init') and show(t) == name:
                                    return t
                                if t.op == 'fld' and show(t.args[0]) == name:
                                    return t.args[0]
    return Sym(name)


def Sym(name):
    return T('sym', name)


def same_state(key, node):
    return deref_same(key, proj(node, 'state'))


def present(P, look):
    """was the state found? (True / False / None)"""
    for t in (look.lookup,):
        if P.f.isvar(t, 'Occupied') or P.f.isvar(t, 'Some'):
            return True
        if P.f.isvar(t, 'Vacant') or P.f.isvar(t, 'None'):
            return False
    v = P.f.variant(look.lookup)
    return {'Occupied': True, 'Some': True, 'Vacant': False, 'None': False}.get(v)


def found_id(P, look, T):
    """the identifier stored under the looked-up state"""
    rt = look.map
    t = read_mem(look.mem, (rt[0], rt[1] + (('k', look.mkey),)))
    seen = set()
    for x in P.items:
        if isinstance(x, Ev):
            if x.kind == 'index' and T.is_(x.vec, T.nodes):
                seen.add(x.at)
            if x.kind == 'write':
                i = T.entry(x.place, T.nodes)
                if i is not None:
                    seen.add(i)
    for a in seen:
        if a is num(t):
            return t
    for a in seen:
        for s in subterms(a):
            if s.op == 'init' and show(s).startswith('*self.%s[key ' % T.states):
                return a.args[0] if a.op == 'fld' else s if num(s) is a else None
    return t


def final_node(T, P, base, wr, look):
    """fields of a stored subproblem at the end of a path, from the writes of the path"""
    cur = {x: read_mem(look.mem, (base[0], base[1] + (('f', x),))) for x in SUB + ('ub',)}
    for e in wr:
        pr = e.place[1]
        if pr[:2] != base[1]:
            continue
        if len(pr) == 2:
            for x in cur:
                cur[x] = proj(e.val, x)
        elif len(pr) == 3 and pr[2][0] == 'f' and pr[2][1] in cur:
            cur[pr[2][1]] = e.val
    return cur


def last_node(T, P, i):
    """subproblem stored at index i on a path"""
    out = None
    for e in P.items:
        if isinstance(e, Ev):
            if e.kind == 'push' and T.is_(e.vec, T.nodes) and e.at is i:
                out = e.val
            elif e.kind == 'write' and T.entry(e.place, T.nodes) is i and len(e.place[1]) == 2:
                out = e.val
    return out


def pop_path(ctx, T, P, st, v, reps, n):
    f = P.f
    rt = None
    var = v.args[1] if v.op == 'agg' else None
    site = ''
    rem = map_events(T, P, 'mremove')
    ins = map_events(T, P, 'minsert')
    hch = changes(T, P, T.heap)
    if var == 'None':
        n['none'] += 1
        ln = [t for x in f.fs for ab in x.rel for t in ab if show(t) == show_len(T.heap)]
        ok = any(f.eq(t, Int(0)) or f.le(t, Int(0)) for t in ln)
        ctx.ob('C22.pop', inst(T, 'none'), ok, 'pop may answer none although the heap holds entries')
        ctx.ob('C22.pop', inst(T, 'none frame'), not rem and not ins and not [e for e in hch if e.kind != 'pop'], 'pop changes the tables although it answers none')
        return
    if var != 'Some':
        ctx.ob('C22.pop', inst(T, 'answer'), False, 'the answer of pop was not recognised: %s' % show(v))
        return
    n['pop'] += 1
    gone = [e for e in hch if e.kind in ('remove', 'pop')]
    site = loc(gone[0]) if gone else ''
    ctx.ob('C22.pop', inst(T, 'one'), len(gone) == 1, 'pop removes %d entries from the heap' % len(gone), site)
    if len(gone) != 1:
        return
    g = gone[0]
    rt = g.vec[0]
    put = [e for e in hch if e is not g]
    heap0 = read_mem(g.mem, (rt, (('f', T.heap), ('i', Int(0)))))
    n0 = read_mem(g.mem, (rt, (('f', T.heap), ('f', '#len'))))
    first_is_last = f.le(Bin('Sub', n0, Int(1)), Int(0)) or f.le(n0, Int(1)) or f.lt(n0, Int(2))
    if g.kind == 'remove':
        ident = g.val
        ok = g.how == 'swap_remove' and not put
        moved = read_mem(g.mem, (rt, (('f', T.heap), ('i', Bin('Sub', n0, Int(1))))))
        ctx.ob('C22.pop', inst(T, 'removal'), ok, 'the removal shifts or rewrites other heap entries without recording their positions', site)
        ctx.ob('C23.first', inst(T, 'pop'), g.at is Int(0), 'pop does not take the first entry of the heap', site)
    else:
        moved = g.val
        w = [e for e in put if e.kind == 'write' and T.entry(e.place, T.heap) is Int(0)]
        if put and len(w) == len(put) == 1 and w[0].val is moved:
            ident = heap0
        elif not put and first_is_last:
            fr = [e.val for e in changes(T, P, T.bin) if e.kind == 'push']
            ident = heap0 if fr and fr[0] is heap0 else moved      # one and the same entry
        else:
            ctx.ob('C22.pop', inst(T, 'removal'), False, 'the removal rewrites other heap entries', site)
            return
    val = payload(v)
    cell = (rt, (('f', T.nodes), ('i', num(ident))))
    want = read_mem(g.mem, cell)
    ok = val is want or same_sub(P, val, want, SUB + ('ub',))
    ctx.ob('C22.pop', inst(T, 'returned'), ok, 'the returned subproblem is not the one of the removed entry', site)
    nw = [e for e in changes(T, P, T.nodes)]
    shr = [e for e in nw if e.kind != 'write' or T.entry(e.place, T.nodes) is not num(ident)]
    ctx.ob('C22.pop', inst(T, 'others'), not shr, 'pop changes the subproblems of other entries', loc(shr[0]) if shr else site)
    st_key = read_mem(g.mem, (cell[0], cell[1] + (('f', 'state'),)))
    ok = len(rem) == 1 and not ins and deref_same(rem[0].mkey, st_key) or len(rem) == 1 and not ins and same_state(rem[0].mkey, val)
    ctx.ob('C22.pop', inst(T, 'index'), ok, 'the state of the returned subproblem is not removed from the index (once)', site)
    fr = changes(T, P, T.bin)
    ok = not fr or len(fr) == 1 and fr[0].kind == 'push' and fr[0].val is ident
    ctx.ob('C22.pop', inst(T, 'freed'), ok, 'pop frees an identifier that is not the one of the returned subproblem', site)
    if not first_is_last:
        pw = [e for e in P.evs('write') if T.entry(e.place, T.pos) is not None]
        ok = any(T.entry(e.place, T.pos) is num(moved) and e.val is Int(0) for e in pw)
        ctx.ob('C22.pop', inst(T, 'moved'), ok, 'the entry moved to the front keeps its old position', site)
        rep = [reps[id(x)] for x in P.items if isinstance(x, LoopObj) and id(x) in reps]
        ok = any(r.kind == 'down' and r.id is num(moved) for r in rep)
        ctx.ob('C23.repair', inst(T, 'pop'), ok, 'the heap is not repaired downwards from the entry moved to the front', site)


def cleared(ctx, T):
    fid = T.method('clear')
    e, outs = ctx.run(fid)
    for st, v in outs:
        for P in enum_paths(st):
            for f in (T.states, T.nodes, T.pos, T.heap, T.bin):
                ok = any(isinstance(x, Ev) and (x.kind == 'clear' and T.is_(x.vec, f) or x.kind == 'write' and T.is_(x.place, f) and is_empty_val(x.val) or x.kind == 'truncate' and T.is_(x.vec, f)) for x in P.items)
                if not ok:
                    rts = [x.vec[0] for x in P.items if isinstance(x, Ev) and x.kind == 'clear']
                    ok = bool(rts) and st.read((rts[0], (('f', f), ('f', '#len')))) is Int(0)
                ctx.ob('C22.clear', inst(T, f), ok, 'clear leaves the table %s as it is' % f)


def is_empty_val(v):
    return v.op == 'agg' and any(k == '#len' and x is Int(0) for k, x in zip(v.args[2], v.args[3]))


def frame(ctx, T):
    """methods with mutable access, other than the ones examined (and what they call)"""
    p = ctx.prog()
    examined = set()
    for m in ('push', 'pop', 'clear', 'len'):
        e, outs = ctx.run(T.method(m))
        examined |= {T.method(m)} | set(e.functions)
    for r in p.raw():
        s = r.get('self')
        if not s or s[0] != 'adt' or s[1] != T.adt or r.get('derived') or r['id'] in examined or r['kind'] == 'Closure':
            continue
        a = r['locals'][1][0] if r['argc'] else None
        mut = a and a[0] == 'ref' and a[2] and a[1][0] == 'adt' and a[1][1] == T.adt
        ctx.ob('C22.frame', inst(T, r['name']), not mut, 'the method %s can change the frontier and is not examined' % r['name'], r['span'])
    for x in T.fields:
        vis = next(f[2] for f in p.adts[T.adt]['variants'][0][1] if f[0] == x)
        ctx.ob('C22.frame', inst(T, 'field', x), not vis or x == 'cmp', 'the table %s is public' % x)


def empty(ctx, adt, heap):
    """is_empty, own or inherited from the trait"""
    p = ctx.prog()
    for r in p.raw():
        s = r.get('self')
        own = s and s[0] == 'adt' and s[1] == adt
        if r.get('name') != 'is_empty' or not (own or 'prelude' in r['id'] and r['argc'] == 1 and not own):
            continue
        e, outs = ctx.run(r['id'])
        for st, v in outs:
            for P in enum_paths(st):
                rets = [x.ret for x in P.evs('call') if str(x.name).endswith('::len')]
                isl = lambda t: show(t) == show_len(heap) or t in rets
                ln = [t for t in subterms(v) if isl(t)] + [t for f in P.f.fs for ab in f.rel for t in ab if isl(t)]
                ok = False
                for t in ln:
                    if v.op == 'bool':
                        ok = ok or P.f.truth(Bin('Eq', t, Int(0))) is v.args[0]
                    else:
                        ok = ok or v is Bin('Eq', t, Int(0)) or v is Bin('Eq', Int(0), t) or v is Bin('Le', t, Int(0)) or v is Bin('Lt', t, Int(1))
                ctx.ob('C23.len', '%s is_empty' % (adt.split('::')[-1] if own else 'Frontier'), ok, 'emptiness is %s, not length zero' % show(v), r['span'])


def comparator(ctx):
    """Compare<SubProblem> for the comparator of the library"""
    p = ctx.prog()
    n = 0
    for a in p.implementors('Compare'):
        for r in p.raw():
            s = r.get('self')
            if r.get('name') not in ('compare',) or not s or s[0] != 'adt' or s[1] != a or r['argc'] != 3:
                continue
            l, rr = [x[1] or '_%d' % (i + 2) for i, x in enumerate(r['locals'][2:4])]
            e, outs = ctx.run(r['id'])
            n += 1
            for st, v in outs:
                for P in enum_paths(st):
                    ok = cmp_ok(P, v, l, rr)
                    ctx.ob('C23.cmp', a.split('::')[-1], ok, 'compares by %s' % show(v), r['span'])
    ctx.ob('C23.cmp', 'found', n >= 1, 'no comparator of subproblems was found')
    for a in p.implementors('Compare'):
        for i in p.impls:
            if i['trait'] and i['trait'].split('::')[-1] == 'Compare' and i['self'][0] == 'adt' and i['self'][1] == a:
                extra = [x for x in i['items'] if x != 'compare']
                ctx.ob('C23.cmp', a.split('::')[-1] + ' items', not extra, 'redefines %s' % ', '.join(extra))


def cmp_ok(P, v, l, r):
    """the returned ordering, given the facts of the path, is the one by bound and then by ranking"""
    def is_ub(t, x):
        return show(t) in ('*%s.ub' % x,)

    def is_rank(t):
        return t.op == 'call' and str(t.args[0]).endswith('compare') and len(t.args) == 4 and show(t.args[2]).startswith('*%s.state' % l) and show(t.args[3]).startswith('*%s.state' % r)

    def is_cmp(t):
        return t.op == 'cmp' and is_ub(t.args[0], l) and is_ub(t.args[1], r)
    if v.op == 'cthen' and len(v.args) == 2 and is_cmp(v.args[0]) and is_rank(v.args[1]):
        return True
    # by cases
    ubs = {show(t): t for f in P.f.fs for ab in f.rel for t in ab if is_ub(t, l) or is_ub(t, r)}
    for f in P.f.fs:
        for t, x in f.var.items():
            if is_cmp(t):
                ubs[show(t.args[0])], ubs[show(t.args[1])] = t.args
    a, b = ubs.get('*%s.ub' % l), ubs.get('*%s.ub' % r)
    if a is None or b is None:
        return False
    m = 7
    for f in P.f.fs:
        m &= f.rel_of(a, b)
    if m == LT:
        return v.op == 'agg' and v.args[1] == 'Less' or is_cmp(v)
    if m == GT:
        return v.op == 'agg' and v.args[1] == 'Greater' or is_cmp(v)
    if m == EQ:
        return is_rank(v)
    if m == LT | GT:
        return is_cmp(v)
    return False


def plain(ctx):
    """frontiers that wrap a library heap"""
    p = ctx.prog()
    n = 0
    for a in p.implementors('Frontier'):
        fs = {f[0]: f[1] for f in p.adts[a]['variants'][0][1]}
        heaps = [x for x, t in fs.items() if lastseg(t) == 'BinaryHeap']
        if len(heaps) != 1:
            continue
        h = heaps[0]
        n += 1
        name = a.split('::')[-1]
        t = fs[h]
        cmps = [lastseg(x) for x in t[2]]
        ctx.ob('C23.heap', name + ' comparator', len(cmps) == 2 and cmps[0] == 'SubProblem' and any(c.split('::')[-1] == cmps[1] for c in p.implementors('Compare')), 'the heap is not ordered by the comparator of subproblems: %s' % (cmps,))
        for r in p.raw():
            s = r.get('self')
            if not s or s[0] != 'adt' or s[1] != a or r['kind'] == 'Closure' or r.get('derived'):
                continue
            m = r['name']
            if m not in ('push', 'pop', 'clear', 'len', 'new', 'default'):
                mut = r['argc'] and r['locals'][1][0][0] == 'ref' and r['locals'][1][0][2]
                ctx.ob('C23.heap', name + ' ' + m, not mut, 'the method %s can change the frontier and is not examined' % m, r['span'])
                continue
            e, outs = ctx.run(r['id'])
            for st, v in outs:
                for P in enum_paths(st):
                    calls = [x for x in P.items if isinstance(x, Ev) and (x.kind == 'call' and str(x.name).startswith('BinaryHeap::') or x.kind in ('clear', 'push', 'pop', 'remove'))]
                    nm = [str(x.name).split('::')[-1] if x.kind == 'call' else x.kind for x in calls]
                    if m == 'push':
                        arg = r['locals'][2][1]
                        ok = nm == ['push'] and show(calls[0].vals[0]) == '*self.' + h and show(calls[0].vals[1]) == arg
                    elif m == 'pop':
                        ok = nm == ['pop'] and (v is calls[0].ret or v.op == 'agg' and (v.args[1] == 'None' and P.f.isvar(calls[0].ret, 'None') or v.args[1] == 'Some' and payload(v) is payload(calls[0].ret)))
                    elif m == 'clear':
                        ok = nm in (['clear'], ['drain']) and show_place(calls[0].vec) == '*self.' + h if calls and calls[0].kind == 'clear' else False
                    elif m == 'len':
                        ok = show(v) == show_len(h) and not nm
                    else:
                        ok = not [x for x in nm if x not in ('from_vec_cmp', 'new_by', 'with_capacity_from_vec', 'from_vec_cmp_raw', 'with_capacity_by', 'new_from_vec')] and len(nm) == 1
                    ctx.ob('C23.heap', '%s %s' % (name, m), ok, '%s does not simply forward to the heap' % m, r['span'])
        empty(ctx, a, h)
    ctx.ob('C23.heap', 'found', n >= 1, 'no plain frontier was found')
