"""Disjunctive abstract interpretation of (inlined) MIR.

Domain: value-numbering terms for memory (sa/terms.py), a conjunction of predicate
facts per disjunct, and an event history.  Disjuncts are kept apart inside acyclic
regions and joined at loop heads, where every location written by the body is widened
to a `phi` term; bodies are iterated until no new location changes (a fixpoint).
Nothing is executed and no solver is consulted: branches are discarded only when the
branch condition is syntactically contradicted by the facts of the disjunct.
"""
from collections import defaultdict
import itertools, heapq
from .terms import *
from . import models


class H:
    """event history node (a DAG)"""
    __slots__ = ('prev', 'item')

    def __init__(self, prev, item):
        self.prev, self.item = prev, item


class Ev:
    __slots__ = ('kind', 'd', 'site', 'fn', 'frame', 'facts', 'mem', 'locks', 'hist', 'key', 'serial')
    count = itertools.count()

    def __hash__(self):
        return self.serial

    def __init__(self, kind, d, site, fn, frame, st, key):
        self.serial = next(Ev.count)
        self.kind, self.d, self.site, self.fn, self.frame = kind, d, site, fn, frame
        self.facts = st.facts
        st.fshared = True
        self.mem = st.mem
        st.mshared = True
        self.locks = st.locks
        self.hist = st.hist
        self.key = key

    def __getattr__(self, k):
        if k in Ev.__slots__:
            raise AttributeError(k)
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def get(self, k, default=None):
        return self.d.get(k, default)

    def read(self, place):
        return read_mem(self.mem, place)

    def __repr__(self):
        if self.kind == 'write':
            return '%s: %s := %s' % (self.site, show_place(self.d['place']), show(self.d['val']))
        if self.kind == 'call':
            return '%s: %s(%s) -> %s' % (self.site, self.d['name'], ', '.join(show(a) for a in self.d['vals']), show(self.d['ret']))
        return '%s: %s %s' % (self.site, self.kind, {k: (show(v) if isinstance(v, Term) else v) for k, v in self.d.items()})


class LoopObj:
    """A loop of the analysed program (syntactic or an iterator/closure loop)"""
    kind = 'loop'

    def __hash__(self):
        return self.serial

    def __init__(self, tag, key, site, fn, pre):
        self.serial = next(Ev.count)
        self.tag, self.key, self.site, self.fn, self.pre = tag, key, site, fn, pre
        self.head = None
        self.backs = []      # states reaching the back edge
        self.havoc = ()
        self.what = None     # e.g. the iterator term for iterator loops

    def __repr__(self):
        return 'loop@%s' % self.site


class Join:
    kind = 'join'

    def __init__(self, hists, states=(), key=None):
        self.hists = hists
        self.key = key
        self.states = states      # one representative state per history


class Spawn:
    kind = 'spawn'

    def __init__(self, states, site):
        self.states, self.site = states, site


# ------------------------------------------------------------------ memory
def wild(projs):
    return tuple((q[0], '*') if q[0] in ('i', 'k') else q for q in projs)


def project(t, q):
    """read projection q out of value t"""
    k = q[0]
    if t.op == 'init':
        p = t.args[0]
        return T('init', (p[0], p[1] + (q,)), *t.args[1:])
    if k == 'v':
        if t.op == 'agg':
            return t
        if t.op == 'optmap' or t.op == 'lookup':
            return T('down', t, q[1])
        return T('down', t, q[1])
    if t.op == 'with':
        return with_read(t, (q,))
    if k == 'f':
        n = q[1]
        if t.op == 'agg':
            if n in t.args[2]:
                return t.args[3][t.args[2].index(n)]
            if n == '#len' and t.args[0] == 'array':
                return Int(len(t.args[3]))
        if t.op == 'closure' and n.isdigit() and int(n) < len(t.args[1]):
            return t.args[1][int(n)]
        if t.op == 'down':
            b = t.args[0]
            if b.op == 'lookup' and t.args[1] == 'Some':
                return Ref(lookup_place(b))
            if b.op == 'optmap' and t.args[1] == 'Some':
                return b.args[1]
        if t.op == 'vecrep' and n == '#len':
            return t.args[1]
        if t.op == 'trunc' and n == '#len':
            return Min(t.args[1], project(t.args[0], q))
        if t.op == 'cloned':
            return project(t.args[0], q)
    if k == 'd':
        if t.op == 'arc':
            return t.args[0]
    if k in ('i', 'k'):
        if t.op == 'vecrep':
            return t.args[0]
        if t.op == 'agg' and t.args[0] == 'array' and q[1] != '*' and q[1].op == 'int' and 0 <= q[1].args[0] < len(t.args[3]):
            return t.args[3][q[1].args[0]]
        return T('idx', t, q[0], q[1])
    if k == 'f':
        return T('fld', t, q[1])
    if k == 'd':
        return T('deref', t)
    if k == 'm':
        return T('content', t)
    return T('proj', t, q)


def lookup_place(b):
    place, ver, key = b.args
    return sub(place, ('k', key)) if not (isinstance(key, tuple)) else sub(place, key)


def with_read(t, projs):
    base, ents = t.args
    ents = dict(ents)
    projs = tuple(projs)
    for n in range(len(projs), 0, -1):
        pre = projs[:n]
        v = ents.get(pre)
        if v is None:
            w = wild(pre)
            if w != pre and w in ents:
                v = ents[w]
                for q in pre:
                    if q[0] in ('i', 'k'):
                        v = T('idx', v, q[0], q[1])
        if v is not None:
            for q in projs[n:]:
                v = project(v, q)
            return v
    subs = {p[len(projs):]: v for p, v in ents.items() if len(p) > len(projs) and p[:len(projs)] == projs}
    v = base
    for q in projs:
        v = project(v, q)
    return mk_with(v, subs)


def mk_with(base, subs):
    if not subs:
        return base
    if base.op == 'with':
        ents = dict(base.args[1])
        for p, v in subs.items():
            for e in [e for e in ents if len(e) >= len(p) and e[:len(p)] == p]:
                del ents[e]
            ents[p] = v
        return mk_with(base.args[0], ents)
    if base.op == 'agg':
        names = base.args[2]
        tops = defaultdict(dict)
        ok = True
        for p, v in subs.items():
            q = p
            if q[0][0] == 'v' and q[0][1] == base.args[1] and len(q) > 1:
                q = q[1:]
            if q[0][0] == 'f' and q[0][1] in names:
                tops[q[0][1]][q[1:]] = v
            else:
                ok = False
        if ok:
            vals = list(base.args[3])
            for n, s in tops.items():
                i = names.index(n)
                if () in s:
                    vals[i] = s.pop(())
                vals[i] = mk_with(vals[i], s)
            return T('agg', base.args[0], base.args[1], names, tuple(vals))
    return T('with', base, tuple(sorted(subs.items(), key=lambda x: (len(x[0]), str(x[0])))))


def default_value(place):
    root, projs = place
    if root[0] == 'val':
        v = root[1]
        for q in projs:
            v = project(v, q)
        return v
    if projs and projs[-1] == ('f', '#len') and len(projs) > 1 and projs[-2][0] == 'sl':
        return T('init', place)
    return T('init', place)


def read_mem(mem, place):
    root, projs = place
    v = None
    for n in range(len(projs), -1, -1):
        pre = projs[:n]
        v = mem.get((root, pre))
        if v is None:
            w = wild(pre)
            if w != pre:
                v = mem.get((root, w))
                if v is not None:
                    for q in pre:
                        if q[0] in ('i', 'k'):
                            v = T('idx', v, q[0], q[1])
        if v is not None:
            for q in projs[n:]:
                v = project(v, q)
            break
    if v is None:
        v = default_value(place)
        n = -1
        pre = ()
    # sub-entries written separately
    subs = None
    L = len(projs)
    wp = wild(projs)
    # the value covers every entry unless it was written at these very indices
    every = wp != projs and not (n >= 0 and mem.get((root, pre)) is not None and wild(projs[n:]) == projs[n:])
    if every:
        for (r, p), x in mem.items():
            if r == root and len(p) > L and p[:L] == wp:
                for q in projs:
                    if q[0] in ('i', 'k'):
                        x = T('idx', x, q[0], q[1])
                subs = subs or {}
                subs[p[L:]] = x
    for (r, p), x in mem.items():
        if r == root and len(p) > L and p[:L] == projs:
            subs = subs or {}
            subs[p[L:]] = x
    return mk_with(v, subs) if subs else v


class State:
    __slots__ = ('mem', 'facts', 'hist', 'locks', 'mshared', 'fshared')

    def __init__(self):
        self.mem, self.facts, self.hist, self.locks = {}, Facts(), None, ()
        self.mshared = self.fshared = False

    def copy(self):
        s = State.__new__(State)
        s.mem, s.facts, s.hist, s.locks = self.mem, self.facts, self.hist, self.locks
        self.mshared = self.fshared = s.mshared = s.fshared = True
        return s

    def wm(self):
        if self.mshared:
            self.mem = dict(self.mem)
            self.mshared = False
        return self.mem

    def wf(self):
        if self.fshared:
            self.facts = self.facts.copy()
            self.fshared = False
        return self.facts

    def read(self, place):
        return read_mem(self.mem, place)

    def kill(self, place):
        root, projs = place
        L = len(projs)
        dead = []
        haswild = any(q[0] in ('i', 'k') and q[1] == '*' for q in projs)
        for (r, p) in self.mem:
            if r != root or len(p) < L:
                continue
            if p[:L] == projs or (haswild and wild(p[:L]) == projs):
                dead.append((r, p))
        if dead:
            m = self.wm()
            for d in dead:
                del m[d]

    def write(self, place, val, alias_key=None):
        root, projs = place
        self.kill(place)
        m = self.wm()
        idxs = [i for i, q in enumerate(projs) if q[0] in ('i', 'k') and q[1] != '*']
        if idxs:
            w = wild(projs)
            if alias_key is not None:
                # other indices may alias: forget them
                L = len(projs)
                dead = [e for e in m if e[0] == root and len(e[1]) >= L and wild(e[1][:L]) == w and e[1][:L] != w
                        and not self._distinct(e[1][:L], projs)]
                for d in dead:
                    del m[d]
                base = None
                m[(root, w)] = T('fresh', 'alias', alias_key)
            # make wildcard information below this place explicit
            for (r, p) in list(m):
                if r == root and len(p) > len(w) and p[:len(w)] == w and p != w:
                    v = val
                    for q in p[len(w):]:
                        if q[0] in ('i', 'k'):
                            v = None
                            break
                        v = project(v, q)
                    if v is not None:
                        m[(root, projs + p[len(w):])] = v
        m[place] = val

    def _distinct(self, p, q):
        for a, b in zip(p, q):
            if a != b:
                if a[0] != b[0]:
                    return True
                if a[0] in ('i', 'k') and isinstance(a[1], Term) and isinstance(b[1], Term):
                    if self.facts.rel_of(a[1], b[1]) & EQ == 0:
                        return True
                elif a[0] == 'f':
                    return True
        return False

    def assume(self, t, val, universe=None):
        c = self.facts.truth(t)
        if c is not None:
            return c == val
        return self.wf().assume(t, val, universe)

    def assume_variant(self, t, name, pos=True, universe=None):
        return self.wf().assume_variant(t, name, pos, universe)


def known(f, c, e):
    """a condition that must have the given truth value already has it"""
    if f.truth(c) is e:
        return True
    if c.op == 'bin' and c.args[0] == 'Lt' and c.args[1].op == 'cast' and e:
        return f.truth(Bin('Lt', c.args[1].args[0], c.args[2])) is True
    return False


def join_states(states, key):
    if len(states) == 1:
        return states[0].copy()
    s = State()
    s.facts = states[0].facts
    for o in states[1:]:
        s.facts = s.facts.meet_join(o.facts)
    s.fshared = True
    keys = {}
    for o in states:
        keys.update(dict.fromkeys(o.mem))
    m = {}
    same = {}           # places that agree in every state still agree afterwards

    def joint(vals, k):
        if all(v is vals[0] for v in vals):
            return vals[0]
        vals = tuple(vals)
        if vals in same:
            return same[vals]
        v0 = vals[0]
        if v0.op == 'it' and v0.args[0] == 'range' and all(v.op == 'it' and v.args[0] == 'range' and v.args[2] == v0.args[2] for v in vals):
            a = v0.args[1]
            j = tuple(joint([v.args[1].args[3][i] for v in vals], (k[0], k[1] + (('f', n),))) for i, n in enumerate(a.args[2]))
            r = T('it', 'range', T('agg', a.args[0], a.args[1], a.args[2], j), v0.args[2])
        else:
            u = set(vals)
            r = T('join', key, k, tuple(sorted(u, key=lambda t: t.id))) if len(u) <= 6 else T('join', key, k)
        same[vals] = r
        return r
    # entries present (or readable) everywhere
    for k in sorted(keys, key=lambda k: len(k[1])):
        haswild = any(q[0] in ('i', 'k') and q[1] == '*' for q in k[1])
        if haswild:
            vals = [o.mem.get(k) for o in states]
            if all(v is vals[0] for v in vals):
                m[k] = vals[0]
            else:
                m[k] = T('join', key, k)
            continue
        m[k] = joint([exact_or_proj(o.mem, k) for o in states], k)
    s.mem = m
    s.hist = H(None, Join([o.hist for o in states], states, key))
    locks = [l for l in states[0].locks if all(l in o.locks for o in states)]
    s.locks = tuple(locks)
    return s


def exact_or_proj(mem, place):
    root, projs = place
    for n in range(len(projs), -1, -1):
        pre = projs[:n]
        v = mem.get((root, pre))
        if v is None:
            w = wild(pre)
            if w != pre:
                v = mem.get((root, w))
                if v is not None:
                    for q in pre:
                        if q[0] in ('i', 'k'):
                            v = T('idx', v, q[0], q[1])
        if v is not None:
            for q in projs[n:]:
                v = project(v, q)
            return v
    return default_value(place)


class Frame:
    __slots__ = ('fid', 'body', 'parent', 'site')

    def __init__(self, fid, body, parent, site):
        self.fid, self.body, self.parent, self.site = fid, body, parent, site

    def stack(self):
        f, out = self, []
        while f:
            out.append(f.body)
            f = f.parent
        return out


class Bug(Exception):
    pass


class Engine:
    LIMIT = 1500

    def __init__(self, prog, cut=None, root_fn=None):
        self.prog = prog
        self.fids = {}
        self.tags = []
        self.cut = cut or (lambda body, info: None)
        self.stats = defaultdict(int)
        self.functions = set()
        self.unmodelled = defaultdict(int)
        self.root_fn = root_fn
        self.dead = []

    # ---------------------------------------------------------- frames
    @property
    def promfids(self):
        return self.__dict__.setdefault('_promfids', set())

    def fid(self, *key):
        if key not in self.fids:
            self.fids[key] = len(self.fids)
        return self.fids[key]

    def fresh(self, *key):
        return T('fresh', *(key + tuple(self.tags)))

    def tagged(self, op, *key):
        return T(op, *(key + tuple(self.tags)))

    # ---------------------------------------------------------- events
    def ev(self, st, kind, fr, site, **d):
        e = Ev(kind, d, site, fr.body.path if fr else '?', fr, st, None)
        st.hist = H(st.hist, e)
        self.stats['events'] += 1
        return e

    # ---------------------------------------------------------- entry
    def run(self, body_id, args=None, init=None):
        body = self.prog.body(body_id)
        st = State()
        fr = Frame(self.fid('root', body_id), body, None, body.span)
        for i in range(1, body.argc + 1):
            name = body.locals[i][1] or 'arg%d' % i
            v = (args or {}).get(i) or T('sym', name)
            st.mem[(('local', fr.fid, i), ())] = v
        if init:
            init(st, fr)
        outs = self.exec_body(fr, st)
        for s, v in outs:
            self.ev(s, 'return', fr, body.span, val=v)
        return outs

    def exec_body(self, fr, st):
        """returns [(state, value)]"""
        self.functions.add(fr.body.id)
        exits = self.run_region(fr, None, 0, [st], None)
        out = []
        for s in exits.pop('ret', []):
            v = s.read((('local', fr.fid, 0), ()))
            # drop the frame's locals
            m = s.wm()
            for k in [k for k in m if k[0][0] == 'local' and k[0][1] == fr.fid]:
                del m[k]
            out.append((s, v))
        return out

    # ---------------------------------------------------------- regions / loops
    def run_region(self, fr, blocks, entry, states, header):
        body = fr.body
        rpo = body.rpo
        pend = {entry: list(states)}
        heap = [(rpo[entry], entry)]
        exits = defaultdict(list)
        first = True

        def give(t, s):
            if t == 'ret':
                exits['ret'].append(s)
            elif t == header:
                exits['back'].append(s)
            elif blocks is not None and t not in blocks:
                exits[t].append(s)
            else:
                if t not in pend:
                    pend[t] = []
                    heapq.heappush(heap, (rpo[t], t))
                pend[t].append(s)
        while heap:
            _, b = heapq.heappop(heap)
            sts = pend.pop(b)
            if len(sts) > self.LIMIT:
                self.stats['limit_joins'] += 1
                sts = [join_states(sts, ('lim', fr.fid, b) + tuple(self.tags))]
            if b in body.loops and not (b == header and first):
                ex = self.run_loop(fr, b, body.loops[b], sts)
                for t, ss in ex.items():
                    for s in ss:
                        give(t, s)
            else:
                for s in sts:
                    for t, s2 in self.exec_block(fr, b, s):
                        give(t, s2)
            first = False
        return exits

    def prune_dead(self, fr, b, st):
        live = fr.body.live[b]
        bor = fr.body.borrowed
        dead = [k for k in st.mem if k[0][0] == 'local' and k[0][1] == fr.fid and k[0][2] not in live and k[0][2] not in bor]
        if dead:
            m = st.wm()
            for d in dead:
                del m[d]

    def run_loop(self, fr, head, blocks, states):
        for s in states:
            self.prune_dead(fr, head, s)
        groups = self.partition(fr, states)
        if len(groups) > 1:
            out = defaultdict(list)
            for g in sorted(groups):
                for t, ss in self.run_loop1(fr, head, blocks, groups[g], (g,)).items():
                    out[t] += ss
            return out
        return self.run_loop1(fr, head, blocks, states, ())

    def partition(self, fr, states):
        """trace partitioning at a loop head: by the variants of the live optional locals of the frame"""
        groups = defaultdict(list)
        for s in states:
            k = []
            for p, v in s.mem.items():
                if p[0][0] == 'local' and p[0][1] == fr.fid and not p[1] and v.op != 'int':
                    n = v.args[1] if v.op == 'agg' else s.facts.variant(v)
                    if n in ('Some', 'None'):
                        k.append((p[0][2], n))
            groups[tuple(sorted(k))].append(s)
        return groups if len(groups) <= 3 else {(): states}

    def run_loop1(self, fr, head, blocks, states, part):
        pre = join_states(states, ('lj', fr.fid, head) + part + tuple(self.tags))
        site = fr.body.blocks[head]['t']['s']

        def runner(S):
            ex = self.run_region(fr, blocks, head, [S], head)
            backs = ex.pop('back', [])
            for b in backs:
                self.prune_dead(fr, head, b)
            return backs, ex
        return self.fix(pre, ('loop', fr.fid, head) + part, site, fr, runner)

    def fix(self, pre, key, site, fr, runner, what=None):
        tag = LoopTag.get((key, tuple(self.tags)))
        self.tags.append(tag)
        try:
            havoc = set()
            for it in range(25):
                S = pre.copy()
                for p in sorted(havoc, key=lambda p: len(p[1])):
                    S.kill(p)
                    S.wm()[p] = T('phi', p, tag)
                lo = LoopObj(tag, key, site, fr.body.path, pre)
                lo.what = what
                S.hist = H(pre.hist, lo)
                lo.head = S.copy()
                self.stats['loop_passes'] += 1
                backs, exits = runner(S)
                new = set()
                for b in backs:
                    for p in set(b.mem) | set(lo.head.mem):
                        if p[0][0] == 'local' and p[0][1] in self.promfids:
                            continue
                        haswild = any(q[0] in ('i', 'k') and q[1] == '*' for q in p[1])
                        if haswild:
                            same = b.mem.get(p) is lo.head.mem.get(p)
                        else:
                            same = exact_or_proj(b.mem, p) is exact_or_proj(lo.head.mem, p)
                        if not same:
                            new.add(self.generalise(p, tag))
                new = {p for p in new if p not in havoc and not any(has_prefix(p, h) for h in havoc)}
                if not new:
                    lo.backs = backs
                    lo.havoc = havoc
                    lo.exits = exits
                    self.stats['loops'] += 1
                    return exits
                havoc |= new
                havoc = {p for p in havoc if not any(q != p and has_prefix(p, q) for q in havoc)}
            raise Bug('loop did not stabilise: %s %s' % (site, [show_place(p) for p in havoc]))
        finally:
            self.tags.pop()

    def generalise(self, p, tag):
        root, projs = p
        out = []
        for q in projs:
            if q[0] in ('i', 'k') and isinstance(q[1], Term) and tag in q[1].loops:
                q = (q[0], '*')
            out.append(q)
        return (root, tuple(out))

    # ---------------------------------------------------------- blocks
    def exec_block(self, fr, b, st):
        blk = fr.body.blocks[b]
        self.stats['block_visits'] += 1
        for s in blk['s']:
            self.assign(fr, st, s)
        return self.terminator(fr, b, st, blk['t'])

    def resolve(self, fr, st, p):
        l, projs, _ = p
        place = (('local', fr.fid, l), ())
        for q in projs:
            k = q[0]
            if k == 'deref':
                v = st.read(place)
                place = self.deref_place(v, place)
            elif k == 'field':
                if q[3].startswith('closure '):
                    place = sub(place, ('f', str(q[1])))
                else:
                    place = sub(place, ('f', q[2]))
            elif k == 'downcast':
                place = sub(place, ('v', q[1]))
            elif k == 'index':
                place = elem(place, st.read((('local', fr.fid, q[1]), ())))
            elif k == 'cidx':
                place = elem(place, Int(q[1]) if not q[2] else T('fromend', Int(q[1])))
            else:
                place = sub(place, ('sl', tuple(q), UNIT))
        return place

    def deref_place(self, v, holder=None):
        if v.op == 'ref':
            return v.args[0]
        if v.op == 'guard':
            return v.args[0]
        if v.op == 'boxed':
            return v.args[0]
        return (('ptr', v), ())

    def operand(self, fr, st, o):
        if o[0] in ('copy', 'move'):
            return st.read(self.resolve(fr, st, o[1]))
        return self.const(fr, st, o[1])

    def const(self, fr, st, c):
        k = c[0]
        if k == 'lit':
            ty = c[2][0]
            if ty == 'bool':
                return Bool(c[1] == '1')
            if ty == 'int':
                return Int(c[1])
            return T('str', c[1])
        if k == 'variant':
            return Agg(c[1] if not c[1].startswith('core::option') else 'Option', c[2], (), ())
        if k == 'fn':
            f = c[1]
            if 'ctor' in f:
                return T('ctor', f['ctor'][0], f['ctor'][1])
            return T('fn', f['path'], f.get('rid') or f.get('id') or '', f.get('trait') or '', f['name'])
        if k == 'promoted':
            body = self.prog.body(c[1])
            return self.const_body(fr, st, body.promoted[c[2]], self.fid('promoted', c[1], c[2]), T('promoted', c[1], c[2]))
        if k == 'opaque':
            if c[2] == ['tuple', []]:
                return UNIT
            if len(c) > 4 and c[4]:
                cb = self.prog.const(c[4])
                if cb is not None:
                    return self.const_body(fr, st, cb, self.fid('const', c[4]), T('const', c[3]))
            if c[2][0] == 'adt' and len(c) > 3 and c[3]:
                return T('const', c[3])
            # zero sized struct constants / others
            return T('const', c[1])
        raise Bug('const %r' % (c,))

    def const_body(self, fr, st, pb, fid, other):
        """the value of a promoted or named constant, when its body is straight-line"""
        pf = Frame(fid, pb, fr, fr.site)
        key = (('local', fid, 0), ())
        self.promfids.add(fid)
        bb = 0          # evaluated afresh at each use: joins and loops may have blurred it
        while True:
            blk = pb.blocks[bb]
            for s in blk['s']:
                self.assign(pf, st, s)
            t = blk['t']
            if t['k'] == 'return':
                return st.read(key)
            if t['k'] in ('goto', 'assert', 'drop'):
                bb = t['t']
                continue
            st.wm()[key] = other
            return other

    def assign(self, fr, st, s):
        pl, rv, site = s
        place = self.resolve(fr, st, pl)
        k = rv[0]
        if k == 'dead':
            st.kill(place)
            return
        if k == 'setdiscr':
            self.store(fr, st, place, self.tagged('fresh', 'setdiscr', rv[1]), site)
            st.assume_variant(st.read(place), rv[1])
            return
        v = self.rvalue(fr, st, rv, site)
        self.store(fr, st, place, v, site)

    def store(self, fr, st, place, v, site):
        root, projs = place
        if not projs and root[0] == 'local':
            # whole local
            if place in st.mem or True:
                st.kill(place)
                st.wm()[place] = v
            return
        old = st.read(place)
        st.write(place, v, (fr.fid, site, tuple(self.tags)) if any(q[0] in ('i', 'k') for q in projs) else None)
        self.ev(st, 'write', fr, site, place=place, val=v, old=old)

    def rvalue(self, fr, st, rv, site):
        k = rv[0]
        if k == 'use':
            return self.operand(fr, st, rv[1])
        if k == 'ref':
            return Ref(self.resolve(fr, st, rv[2]))
        if k == 'cast':
            v = self.operand(fr, st, rv[2])
            ck = rv[1]
            if ck.startswith('PointerCoercion') or 'Unsize' in ck or ck.startswith('PtrToPtr') or ck.startswith('Transmute') or 'Subtype' in ck:
                return v
            if v.op == 'int' and rv[3][0] == 'int':
                return self.cast_int(v, rv[3][1])
            src = self.op_ty(rv[2])
            if src == rv[3]:
                return v
            return T('cast', v, rv[3][-1] if rv[3][0] in ('int', 'float') else rv[3][0])
        if k == 'bin':
            a, b = self.operand(fr, st, rv[2]), self.operand(fr, st, rv[3])
            op = rv[1]
            ty = rv[4]
            if op.endswith('WithOverflow'):
                op = op[:-12]
                r = Bin(op, a, b)
                if ty[1].startswith('i') if ty[0] == 'int' else False:
                    self.ev(st, 'arith', fr, site, op=op, a=a, b=b, ty=ty[1], ret=r)
                elif ty[0] == 'int':
                    self.ev(st, 'uarith', fr, site, op=op, a=a, b=b, ty=ty[1], ret=r)
                return Tup(r, FALSE)
            if op.endswith('Unchecked'):
                op = op[:-9]
            if ty[0] == 'int' and op in ('Add', 'Sub', 'Mul') and ty[1].startswith('i'):
                self.ev(st, 'arith', fr, site, op=op, a=a, b=b, ty=ty[1], ret=None)
            if ty[0] == 'float' and op in ('Lt', 'Le', 'Gt', 'Ge'):
                # float comparisons are partial: keep them opaque
                if op in ('Gt', 'Ge'):
                    op, a, b = {'Gt': 'Lt', 'Ge': 'Le'}[op], b, a
                return T('fcmp', op, a, b)
            if op == 'Cmp':
                return T('cmp', a, b)
            if ty[0] == 'float' and op == 'Div':
                self.ev(st, 'fdiv', fr, site, a=a, b=b)
            return Bin(op, a, b)
        if k == 'un':
            a = self.operand(fr, st, rv[2])
            if rv[1] == 'Not':
                if a.op == 'int':
                    return Int(~a.args[0])
                ty = self.op_ty(rv[2])
                if ty == ['bool']:
                    return Not(a)
                return T('inv', a)
            if rv[1] == 'Neg':
                return Int(-a.args[0]) if a.op == 'int' else T('neg', a)
            if rv[1] == 'PtrMetadata':
                if a.op == 'ref':
                    return st.read(field(a.args[0], '#len'))
                return T('meta', a)
            return T('un', rv[1], a)
        if k == 'discr':
            place = self.resolve(fr, st, rv[1])
            v = st.read(place)
            return T('discr', v, tuple((x[0], x[1]) for x in rv[3]))
        if k == 'agg':
            vals = [self.operand(fr, st, o) for o in rv[2]]
            kd = rv[1]
            if kd[0] == 'tuple':
                return Tup(*vals) if vals else UNIT
            if kd[0] == 'array':
                return T('agg', 'array', '', tuple(str(i) for i in range(len(vals))), tuple(vals))
            if kd[0] == 'adt':
                adt = kd[1]
                if adt.startswith('core::option::Option'):
                    adt = 'Option'
                elif adt.startswith('core::result::Result'):
                    adt = 'Result'
                return T('agg', adt, kd[2], tuple(kd[3]), tuple(vals))
            if kd[0] == 'closure':
                return T('closure', kd[1], tuple(vals))
            return self.tagged('fresh', 'agg', fr.fid, site)
        if k == 'repeat':
            return T('vecrep', self.operand(fr, st, rv[1]), T('sym', '#n'))
        return self.tagged('fresh', 'rv', fr.fid, site, str(rv)[:40])

    def cast_int(self, v, ty):
        x = v.args[0]
        bits = {'usize': 64, 'isize': 64}.get(ty) or int(ty[1:])
        x &= (1 << bits) - 1
        if ty[0] == 'i' and x >> (bits - 1):
            x -= 1 << bits
        return Int(x)

    @staticmethod
    def op_ty(o):
        if o[0] in ('copy', 'move'):
            return o[1][2]
        c = o[1]
        if c[0] in ('lit', 'opaque', 'promoted'):
            return c[2] if c[0] != 'promoted' else c[3]
        if c[0] == 'variant':
            return c[3]
        return ['fndef']

    # ---------------------------------------------------------- terminators
    def terminator(self, fr, b, st, t):
        k = t['k']
        if k == 'goto':
            return [(t['t'], st)]
        if k == 'return':
            return [('ret', st)]
        if k in ('unreachable', 'resume', 'other'):
            return []
        if k == 'assert':
            c = self.operand(fr, st, t['c'])
            self.ev(st, 'assert', fr, t['s'], msg=t['m'], cond=c, known=known(st.facts, c, t['e']))
            if not st.assume(c, t['e']):
                return []
            return [(t['t'], st)]
        if k == 'drop':
            place = self.resolve(fr, st, t['p'])
            v = exact_or_proj(st.mem, place)
            self.drop_value(fr, st, v, t['s'])
            return [(t['t'], st)]
        if k == 'switch':
            v = self.operand(fr, st, t['d'])
            out = []
            if t['ty'] == ['bool']:
                tgt = {c[0]: c[1] for c in t['c']}
                tt = tgt.get('1', t['o'])
                ff = tgt.get('0', t['o'])
                kn = st.facts.truth(v)
                if kn is True:
                    return [(tt, st)]
                if kn is False:
                    return [(ff, st)]
                s2 = st.copy()
                if s2.assume(v, False):
                    out.append((ff, s2))
                if st.assume(v, True):
                    out.append((tt, st))
                return out
            if v.op == 'discr':
                val, table = v.args
                names = dict(table)
                uni = [n for _, n in table]
                rest = st.copy()
                alive = True
                for c, tg in t['c']:
                    n = names.get(c)
                    s2 = st.copy()
                    if n is None:
                        continue
                    if s2.assume_variant(val, n, True, uni):
                        out.append((tg, s2))
                    if alive and not rest.assume_variant(val, n, False, uni):
                        alive = False
                if alive and t['o'] is not None:
                    if not (len(t['c']) >= len(uni)):
                        out.append((t['o'], rest))
                return out
            if v.op == 'int':
                tgt = {c[0]: c[1] for c in t['c']}
                return [(tgt.get(str(v.args[0]), t['o']), st)]
            rest = st.copy()
            alive = True
            for c, tg in t['c']:
                cv = int(c)
                if t['ty'][0] == 'int' and t['ty'][1].startswith('i') and cv >= 1 << 63:
                    cv -= 1 << 64
                eq = Bin('Eq', v, Int(cv))
                s2 = st.copy()
                if s2.assume(eq, True):
                    out.append((tg, s2))
                if alive and not rest.assume(eq, False):
                    alive = False
            if alive:
                out.append((t['o'], rest))
            return out
        if k == 'call':
            return self.do_call(fr, b, st, t)
        raise Bug(k)

    def drop_value(self, fr, st, v, site, depth=0):
        if v.op == 'guard':
            if v in st.locks:
                l = list(st.locks)
                l.remove(v)
                st.locks = tuple(l)
                self.ev(st, 'unlock', fr, site, guard=v, place=v.args[0])
        elif v.op == 'agg' and depth < 3:
            for x in v.args[3]:
                if x.op in ('guard', 'agg'):
                    self.drop_value(fr, st, x, site, depth + 1)

    # ---------------------------------------------------------- calls
    def do_call(self, fr, b, st, t):
        fop = t['f']
        args = [self.operand(fr, st, a) for a in t['a']]
        tys = [self.op_ty(a) for a in t['a']]
        site = t['s']
        if fop[0] == 'const' and fop[1][0] == 'fn':
            info = fop[1][1]
            res = self.call_fn(fr, st, info, args, tys, t['d'][2], site, ('c', fr.fid, b))
        else:
            f = self.operand(fr, st, fop)
            res = self.call_value(fr, st, f, args, site, ('c', fr.fid, b), t['d'][2])
        out = []
        if t['t'] is None:
            return []
        for s, v in res:
            place = self.resolve(fr, s, t['d'])
            self.store(fr, s, place, v, site)
            out.append((t['t'], s))
        return out

    def call_fn(self, fr, st, info, args, tys, rty, site, key):
        c = models.Call(self, fr, st, info, args, tys, rty, site, key)
        # 1. structural models of known library functions
        r = models.dispatch(c)
        if r is not None:
            return r
        rid = info.get('rid') or (info.get('id') if 'trait' not in info else None)
        if 'ctor' in info:
            adt, var = info['ctor']
            if adt.startswith('core::option'):
                adt = 'Option'
            if adt.startswith('core::result'):
                adt = 'Result'
            return [(st, T('agg', adt, var, tuple(str(i) for i in range(len(args))), tuple(args)))]
        body = self.prog.body(rid) if rid else None
        cutname = self.cut(body, info)
        if callable(cutname):
            r = cutname(c)
            if r is not None:
                return r
        elif cutname:
            return models.opaque(c, cutname)
        if body is not None and not body.derived:
            stack = fr.stack()
            if any(x.id == body.id for x in stack):
                return models.opaque(c, 'rec:' + body.name)
            return self.inline(fr, st, body, args, site, key)
        return models.opaque(c)

    def inline(self, fr, st, body, args, site, key):
        nf = Frame(self.fid(key, body.id), body, fr, site)
        m = st.wm()
        for i, a in enumerate(args):
            m[(('local', nf.fid, i + 1), ())] = a
        self.stats['inlined_calls'] += 1
        return self.exec_body(nf, st)

    def call_value(self, fr, st, f, args, site, key, rty=None):
        """call a closure / fn item / opaque callable with untupled args"""
        holder = None
        while f.op == 'ref':
            holder = f.args[0]
            f = st.read(holder)
        if f.op == 'with' and f.args[0].op == 'closure':
            f = f.args[0]
        if f.op == 'closure':
            body = self.prog.body(f.args[0])
            nf = Frame(self.fid(key, body.id), body, fr, site)
            m = st.wm()
            if body.locals[1][0][0] == 'ref':
                if holder is None:
                    holder = (('tmp', nf.fid), ())
                    m[holder] = f
                m[(('local', nf.fid, 1), ())] = Ref(holder)
            else:
                m[(('local', nf.fid, 1), ())] = f
            for i, a in enumerate(args):
                m[(('local', nf.fid, i + 2), ())] = a
            if any(x.id == body.id for x in fr.stack()):
                raise Bug('recursive closure')
            self.stats['inlined_calls'] += 1
            return self.exec_body(nf, st)
        if f.op == 'fn':
            info = {'path': f.args[0], 'name': f.args[3], 'args': []}
            if f.args[1]:
                info['rid'] = f.args[1]
                info['rpath'] = f.args[0]
            if f.args[2]:
                info['trait'] = f.args[2]
            return self.call_fn(fr, st, info, args, [['?']] * len(args), rty or ['?'], site, key + ('fv',))
        if f.op == 'ctor':
            adt = 'Option' if f.args[0].startswith('core::option') else 'Result' if f.args[0].startswith('core::result') else f.args[0]
            return [(st, T('agg', adt, f.args[1], tuple(str(i) for i in range(len(args))), tuple(args)))]
        ret = self.tagged('fresh', 'callback', fr.fid, key)
        for a in args:
            pass
        self.ev(st, 'call', fr, site, name='callback', fn_term=f, args=tuple(args), vals=tuple(models.content(st, a) for a in args), ret=ret, self_ty=None)
        return [(st, ret)]

    # synthetic loops (iterator consumers, closures called an unknown number of times)
    def synth(self, st, key, site, fr, body, what=None):
        """body(state) -> (continuing states, [(exit_label, state)]) ; returns {label: states} plus 'end'"""
        def runner(S):
            conts, exits = body(S)
            ex = defaultdict(list)
            for l, s in exits:
                ex[l].append(s)
            return conts, ex
        return self.fix(st, key, site, fr, runner, what)


# ------------------------------------------------------------------ histories
def events(hist, upto=None, deep=True):
    """all events reachable in a history (each once), loops and joins included"""
    seen, out = set(), []
    stack = [hist]
    while stack:
        h = stack.pop()
        while h is not None and id(h) not in seen and h is not upto:
            seen.add(id(h))
            it = h.item
            if isinstance(it, Ev):
                out.append(it)
            elif isinstance(it, Join):
                stack.extend(it.hists)
            elif isinstance(it, LoopObj):
                if deep:
                    stack.extend(b.hist for b in it.backs)
            elif isinstance(it, Spawn):
                if deep:
                    stack.extend(s.hist for s in it.states)
            h = h.prev
    return out


def loops_of(hist):
    seen, out = set(), []
    stack = [hist]
    while stack:
        h = stack.pop()
        while h is not None and id(h) not in seen:
            seen.add(id(h))
            it = h.item
            if isinstance(it, Join):
                stack.extend(it.hists)
            elif isinstance(it, LoopObj):
                out.append((it, h))
                stack.extend(b.hist for b in it.backs)
            elif isinstance(it, Spawn):
                stack.extend(s.hist for s in it.states)
            h = h.prev
    return out


def path_items(hist, stop=None):
    """items of one history, newest first, not descending into loops; joins are returned as items"""
    h = hist
    while h is not None and h is not stop:
        yield h.item
        h = h.prev


def must(hist, pred, stop=None, memo=None):
    """does every path of this history contain an event satisfying pred (events inside loops do not count)?"""
    h = hist
    while h is not None and h is not stop:
        it = h.item
        if isinstance(it, Ev):
            if pred(it):
                return True
        elif isinstance(it, Join):
            return all(must(x, pred, stop) for x in it.hists)
        h = h.prev
    return False


def may(hist, pred, stop=None):
    for e in events(hist, stop):
        if pred(e):
            return True
    return False
