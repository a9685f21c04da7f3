"""C09: nothing a diagram remembers from an earlier use is read before it is reset."""
from .r_dd import *
from .engine import Join, events
from .q import *
from .terms import *

OTHERS = ('drain_cutset', 'best_solution', 'best_value', 'is_exact')
RESETS = ('clear', 'write', 'moved')


def hist_items(hists):
    """every item (events, loops, joins) reachable from the histories, each once"""
    seen = set()
    stack = list(hists)
    while stack:
        h = stack.pop()
        while h is not None and id(h) not in seen:
            seen.add(id(h))
            it = h.item
            yield it
            if isinstance(it, Join):
                stack.extend(it.hists)
            elif isinstance(it, LoopObj):
                stack.extend(b.hist for b in it.backs)
            elif hasattr(it, 'states'):
                stack.extend(s.hist for s in it.states)
            h = h.prev


def self_field(dd, place):
    r, pre = self_root(dd)
    n = len(pre)
    if place[0] == r and place[1][:n] == pre and len(place[1]) > n and place[1][n][0] == 'f':
        return place[1][n][1]


def fact_terms_of(f):
    for a, b in f.rel:
        yield a
        yield b
    yield from f.var
    yield from f.bl


class Taint:
    """which terms depend on the value self had when the compilation started"""

    def __init__(self, dd, outs, config):
        self.dd, self.config = dd, config
        self.deps = {}          # phi / join term -> terms it may stand for
        self.items = list(hist_items([s.hist for s, v in outs]))
        for it in self.items:
            if isinstance(it, LoopObj):
                for p in it.havoc:
                    t = T('phi', p, it.tag)
                    d = self.deps.setdefault(t, set())
                    for st in [it.pre] + list(it.backs):
                        d.update(self.values(st, p))
            elif isinstance(it, Join):
                keys = {k for s in it.states for k in s.mem}
                for k in keys:
                    for t in (T('join', it.key, k),):
                        d = self.deps.setdefault(t, set())
                        for s in it.states:
                            v = s.mem.get(k)
                            v = v if v is not None else s.read(k)
                            if not self.empty(s, k):
                                d.add(v)
        self.memo = {}
        self.stale = {}
        self.solve()

    def empty(self, s, k):
        """the place lies in a container known to be empty in s"""
        for n in range(len(k[1])):
            if k[1][n] == ('f', '#len') or k[1][n][0] in ('i', 'k'):
                ln = s.read((k[0], k[1][:n] + (('f', '#len'),)))
                return ln is Int(0) or s.facts.rel_of(ln, Int(0)) == 2
        ln = s.read((k[0], k[1] + (('f', '#len'),)))
        return ln.op == 'init' and s.facts.rel_of(ln, Int(0)) == 2

    def values(self, st, p):
        yield st.read(p)
        for k, v in st.mem.items():
            if has_prefix(k, p):
                yield v

    def direct(self, t):
        """(initial fields t mentions, phi and join terms it mentions)"""
        r = self.memo.get(t)
        if r is None:
            f, ph = set(), set()
            seen = set()
            stack = [t]
            while stack:
                x = stack.pop()
                if isinstance(x, tuple):
                    stack.extend(x)
                    continue
                if not isinstance(x, Term) or x in seen:
                    continue
                seen.add(x)
                if x.op == 'init':
                    n = self_field(self.dd, x.args[0])
                    if n is not None and n not in self.config:
                        f.add(n)
                    stack.extend(q[1] for q in x.args[0][1] if len(q) > 1)
                elif x.op == 'mkey':        # a key of the map named (not read) by the second argument
                    stack.extend(a for a in x.args if not (isinstance(a, Term) and a.op == 'init'))
                elif x.op == 'phi':
                    ph.add(x)
                    stack.extend(q[1] for q in x.args[0][1] if len(q) > 1)
                elif x.op == 'join':
                    y = T('join', *x.args[:2])
                    if y in self.deps or len(x.args) <= 2:
                        ph.add(y)
                    else:
                        stack.append(x.args[2])
                else:
                    stack.extend(x.args)
            r = self.memo[t] = (f, ph)
        return r

    def solve(self):
        users = {}
        work = []
        for t, ds in self.deps.items():
            fs = set()
            for d in ds:
                f, ph = self.direct(d)
                fs |= f
                for p in ph:
                    users.setdefault(p, set()).add(t)
            self.stale[t] = fs
            if fs:
                work.append(t)
        while work:
            t = work.pop()
            for u in users.get(t, ()):
                if not self.stale[t] <= self.stale[u]:
                    self.stale[u] = self.stale[u] | self.stale[t]
                    work.append(u)

    def of(self, t):
        """fields of self whose earlier content t depends on"""
        f, ph = self.direct(t)
        r = set(f)
        for p in ph:
            r |= self.stale.get(p, set())
        return r


def queries(dd):
    """the public methods of the diagram besides compile and the constructors"""
    p = dd.ctx.prog()
    me = {a for a in p.implementors('DecisionDiagram') if a.split('::')[-1] == dd.name}
    r = {m: f for m, f in dd.ids.items() if m != 'compile'}
    for f, b in p.bodies.items():
        t = b.get('self')
        if t and t[0] == 'adt' and t[1] in me and not b.get('trait') and b.get('vis') and b['argc'] == 1 and b.get('kind') != 'Closure' \
                and b['locals'][1][0][0] == 'ref':
            r[b['name']] = f
    return r


def read_fields(dd, fid):
    """fields of self whose content a query depends on"""
    eng, outs = ctx_run(dd.ctx, fid)
    r = set()

    def see(t):
        for x in subterms(t):
            if x.op == 'init':
                for q in x.args[0][1]:
                    if q[0] == 'f':
                        r.add(q[1])
    for st, v in outs:
        see(v)
        for t in fact_terms_of(st.facts):
            see(t)
        for e in events(st.hist):
            for x in e.d.values():
                if isinstance(x, Term):
                    see(x)
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, Term):
                            see(y)
            for k in ('vec', 'map', 'place'):
                p = e.d.get(k)
                if p is not None:
                    r.update(q[1] for q in p[1] if q[0] == 'f')
            for t in fact_terms_of(e.facts):
                see(t)
    return r


def dd_self(dd, t):
    return t.op == 'init' and (t.args[0][0], t.args[0][1]) == self_root(dd)


def strong(st, place):
    """the terms that say how much a container holds"""
    yield st.read(place)
    yield st.read(field(place, '#len'))


def resets(e):
    return e.kind == 'clear' or e.kind == 'truncate' and e.n is Int(0) or e.kind == 'drain' and e.get('full') or \
        e.kind == 'moved' or e.kind == 'unlock' or e.kind == 'lock'


def guarded_reset(dd, tn, f):
    """the only thing tested about the field is whether it is empty, and when it is not the next thing done is to reset it"""
    p = fld_place(dd, ('f', f))
    ln = T('init', field(p, '#len'))
    hit = False
    for e in tn.items:
        if not isinstance(e, Ev):
            continue
        fs = list(fact_terms_of(e.facts))
        if not any(t is not ln and f in tn.of(t) for t in fs):
            if ln in fs:
                if any(ln in k and (set(k) - {ln}) != {Int(0)} for k in e.facts.rel):
                    return False
                hit = True
                if e.facts.rel_of(ln, Int(0)) != 2 and not (resets(e) and (e.d.get('vec') or e.d.get('map')) == p) and e.read(field(p, '#len')) is ln:
                    return False
        else:
            return False
    return hit


def dd_fields(dd):
    p = dd.ctx.prog()
    for a, r in p.adts.items():
        if a.split('::')[-1] == dd.name and a in p.implementors('DecisionDiagram'):
            return {f[0]: f[1] for f in r['variants'][0][1]}
    return {}


def shared(ty):
    return ty[0] == 'adt' and ty[1].split('::')[-1] == 'Arc'


def configuration(dd, fs):
    """fields that are the same after any use as before it, and what is shared with the solver"""
    r = {f for f, ty in fs.items() if shared(ty)}
    for f in fs:
        ok = True
        for m in ('compile', 'drain_cutset'):
            eng, outs = dd.run(m)
            root = None
            for st, v in outs:
                for k, t in st.mem.items():
                    if k[0][0] == 'ptr' and k[1][:1] == (('f', f),) and not (t.op == 'init' and t.args[0] == k):
                        ok = False
        if ok:
            r.add(f)
    return r


def reuse(ctx):
    R = 'C09.'
    n = 0
    for dd in dds(ctx):
        n += 1
        reads = set()
        for m in OTHERS:
            ctx.ob(R + 'method', '%s.%s' % (dd.name, m), m in dd.ids, 'there is no %s to analyse' % m)
        fs = dd_fields(dd)
        for m, fid in queries(dd).items():
            reads |= read_fields(dd, fid)
        config = configuration(dd, fs)
        tn = Taint(dd, dd.outs, config)
        bad = {}

        def see(kind, t, e):
            fs = tn.of(t)
            for f in fs:
                bad.setdefault((kind, f), (t, e))

        kinds = set()
        nev = 0
        seenf = set()
        for e in tn.items:
            if isinstance(e, LoopObj):
                if isinstance(e.what, Term):
                    for x in subterms(e.what):
                        if x.op == 'it' and isinstance(x.args[1], tuple) and x.args[1] and isinstance(x.args[1][0], tuple):
                            for t in strong(e.pre, x.args[1]):
                                see('iterated', t, e)
                continue
            if not isinstance(e, Ev):
                continue
            nev += 1
            if id(e.facts) not in seenf:
                seenf.add(id(e.facts))
                for t in fact_terms_of(e.facts):
                    see('tested', t, e)
            if e.kind == 'call':
                for t in e.vals:
                    if t.op in ('with', 'init') and all(dd_self(dd, x) for x in [t if t.op == 'init' else t.args[0]]):
                        continue        # a method of the diagram itself: what it reads is seen in its own body
                    see('passed', t, e)
            if not resets(e):
                for k in ('vec', 'map'):
                    p = e.d.get(k)
                    if p is not None and not (self_field(dd, p) in config):
                        for t in strong(e, p):
                            see('used', t, e)
                if e.kind == 'next' and isinstance(e.it, Term) and e.it.op == 'it' and isinstance(e.it.args[1], tuple):
                    for t in strong(e, e.it.args[1]):
                        see('iterated', t, e)
            for k in ('at', 'place'):
                p = e.d.get(k)
                if isinstance(p, Term):
                    see('indexed', p, e)
        for st, v in dd.outs:
            see('returned', v, None)
            for t in fact_terms_of(st.facts):
                see('tested', t, None)
        for f in [f for k, f in bad if k == 'tested']:
            if guarded_reset(dd, tn, f):
                del bad['tested', f]
        for (kind, f), (t, e) in sorted(bad.items(), key=lambda x: x[0]):
            ctx.ob(R + 'read', '%s %s %s' % (dd.name, f, kind), False,
                   'the content `%s` had before the compilation is %s: %s' % (f, kind, short_show(t, n=160)), loc(e) if e is not None else '')
        ctx.ob(R + 'read', dd.name + ' some', nev > 100, 'nothing was analysed')
        nf = 0
        for f in sorted(fs):
            if f in config:
                continue
            if f not in reads:
                continue
            nf += 1
            p = fld_place(dd, ('f', f))
            for st, v in dd.outs:
                ts = {t for k, t in st.mem.items() if has_prefix(k, p)} | set(strong(st, p))
                w = [t for t in ts if tn.of(t)]
                ctx.ob(R + 'left', '%s %s' % (dd.name, f), not w, 'after the compilation `%s` may still hold something of an earlier one: %s' % (f, w and short_show(w[0], n=160)))
        ctx.ob(R + 'left', dd.name + ' some', nf >= 4, 'the fields read by the queries were not found: %s' % sorted(reads))
    ctx.ob(R + 'some', 'diagrams', n > 0, 'no decision diagram was found')
