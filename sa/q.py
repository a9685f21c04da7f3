"""Queries over event histories: path predicates, critical sections, readable terms."""
from .terms import *
from .engine import Ev, LoopObj, Join, Spawn, H, events, loops_of, read_mem


def fields(place):
    """names of the fields along a place, dereferences and locks dropped"""
    return tuple(q[1] for q in place[1] if q[0] == 'f')


def last_field(place):
    f = fields(place)
    return f[-1] if f else None


def proj(t, *names):
    """value of a field of a value"""
    from .engine import project
    for n in names:
        t = project(t, ('f', n))
    return t


def payload(t):
    from .engine import project
    return project(project(t, ('v', 'Some')), ('f', '0'))


def is_item(x):
    return lambda it: it is x


class FactBag:
    """facts holding along one path: the final conjunction plus those lost at joins.
    Terms are value numbers, so a fact once learnt stays true."""

    def __init__(self, fs):
        self.fs = fs

    def truth(self, t):
        for f in self.fs:
            v = f.truth(t)
            if v is not None:
                return v
        return None

    def le(self, a, b):
        return any(f.truth(Bin('Le', a, b)) is True for f in self.fs) or any(f.le(a, b) for f in self.fs)

    def lt(self, a, b):
        return any(f.truth(Bin('Lt', a, b)) is True for f in self.fs)

    def eq(self, a, b):
        return a is b or any(f.truth(Bin('Eq', a, b)) is True for f in self.fs)

    def variant(self, t):
        for f in self.fs:
            v = f.variant(t)
            if v is not None:
                return v
        return None

    def isvar(self, t, name):
        v = self.variant(t)
        if v is not None:
            return v == name
        return self.truth(IsVar(t, name))


class Path:
    """one linear path: items oldest first"""

    def __init__(self, items, fs, end, joins=(), keys=None):
        self.items = items
        self.keys = keys or {}  # join key -> the state this path comes from
        self.joins = joins      # [(position, state)]: the states this path has just before it meets others
        self.f = FactBag(fs)
        self.end = end          # the state (or event) the path ends in

    def evs(self, *kinds, deep=False):
        for it in self.items:
            if isinstance(it, Ev):
                if not kinds or it.kind in kinds:
                    yield it
            elif deep and isinstance(it, LoopObj):
                for b in it.backs:
                    for e in events(b.hist, upto=node_of(b.hist, it)):
                        if not kinds or e.kind in kinds:
                            yield e
            elif deep and isinstance(it, Spawn):
                for s in it.states:
                    for e in events(s.hist):
                        if not kinds or e.kind in kinds:
                            yield e

    def since(self, i):
        return Path(self.items[i:], self.f.fs, self.end, [(n - i, s) for n, s in self.joins if n >= i], self.keys)

    def index(self, x):
        for i, it in enumerate(self.items):
            if it is x:
                return i
        return -1

    def has(self, x):
        return self.index(x) >= 0


def node_of(hist, item):
    """history node carrying `item`"""
    h = hist
    stack = [h]
    seen = set()
    while stack:
        h = stack.pop()
        while h is not None and id(h) not in seen:
            seen.add(id(h))
            if h.item is item:
                return h
            if isinstance(h.item, Join):
                stack.extend(h.item.hists)
            h = h.prev
    return None


class TooMany(Exception):
    pass


def enum_paths(end, stop=None, cap=20000, hist=None, facts=None):
    """all paths from the item `stop` (exclusive; None = beginning) to the state/event `end`.
    Joins are unfolded; loops are kept as single items."""
    out = []
    hist = hist if hist is not None else end.hist
    facts = facts if facts is not None else end.facts

    def go(h, items, fs, js, ks):
        while h is not None:
            it = h.item
            if it is stop:
                break
            if isinstance(it, Join):
                for hh, s in zip(it.hists, it.states):
                    go(hh, list(items), fs + [s.facts], js + [(len(items), s)], {**ks, it.key: s})
                return
            items.append(it)
            h = h.prev
        else:
            if stop is not None:
                return            # does not come from `stop`
        out.append(Path(items[::-1], fs, end, [(len(items) - n, s) for n, s in js][::-1], ks))
        if len(out) > cap:
            raise TooMany()
    go(hist, [], [facts], [], {})
    return out


def on_all(end, stop, evp=None, factp=None, hist=None, facts=None):
    """on every path from `stop` to `end`: an event satisfies evp or the facts satisfy factp (loops are opaque)"""
    memo = {}
    hist = hist if hist is not None else end.hist
    facts = facts if facts is not None else end.facts

    def go(h):
        start = h
        if h is not None and id(h) in memo:
            return memo[id(h)]
        r = False
        while h is not None:
            it = h.item
            if it is stop:
                break
            if isinstance(it, Join):
                r = True
                for hh, s in zip(it.hists, it.states):
                    if factp and factp(s.facts):
                        continue
                    if not go(hh):
                        r = False
                        break
                break
            if evp and evp(it):
                r = True
                break
            h = h.prev
        if start is not None:
            memo[id(start)] = r
        return r
    if factp and factp(facts):
        return True
    return go(hist)


def all_loops(outs):
    seen = {}
    for s, v in outs:
        for lo, h in loops_of(s.hist):
            seen.setdefault(id(lo), lo)
    return list(seen.values())


def all_events(outs, *kinds):
    seen = {}
    for s, v in outs:
        for e in events(s.hist):
            if not kinds or e.kind in kinds:
                seen.setdefault(id(e), e)
    return list(seen.values())


def short_show(t, names=(), n=220):
    s = show(t) if isinstance(t, Term) else str(t)
    for a, b in names:
        s = s.replace(show(a), b)
    return s[:n]


def loc(ev_or_site):
    s = getattr(ev_or_site, 'site', ev_or_site)
    return str(s)


def mentions(t, sub_):
    """does term t contain sub_?"""
    return any(x is sub_ for x in subterms(t))


# ------------------------------------------------------------------ what a loop iterates over
KEEPING = ('copied', 'cloned', 'map', 'enumerate', 'rev', 'inspect', 'by_ref', 'peekable', 'fuse', 'src')
WHOLE = ('for_each', 'extend', 'collect', 'feed', 'fold', 'reduce', 'max_by', 'min_by', 'sum', 'max', 'min', 'max_by_key', 'min_by_key', 'retain', 'for_each_mut')


def loop_iter(lo):
    """the iterator a loop draws from, or None"""
    if lo.what and isinstance(lo.what[-1], Term) and lo.what[-1].op == 'it':
        return lo.what[-1]
    for b in lo.backs:
        for q in enum_paths(b, lo):
            for x in q.items:
                if isinstance(x, Ev):
                    if x.kind in ('next', 'rejected', 'feed'):
                        return x.it
    return None


def keeps_all(it, rejected=False):
    """no adaptor leaves elements out unseen"""
    return it.op == 'it' and all(a and (a[0] in KEEPING or rejected and a[0] in ('filter', 'filter_map')) for a in (it.args[2] or ()))


def steps(lo, vec):
    """index terms with which a loop goes through all of a vector: [(index term, last fact needed after the loop)]"""
    out = []
    it = loop_iter(lo)
    if it is not None and it.op == 'it':
        k, src = it.args[0], it.args[1]
        ok = keeps_all(it, rejected=bool(lo.what))
        if ok and k == 'vec' and src == vec:
            return [('it', it)]
        if ok and k == 'range' and src.args[3][0] is Int(0):
            return [('range', it)]
        return []
    if lo.head is None or not lo.backs:
        return []
    for p in lo.havoc:
        h = lo.head.read(p)
        if h.op != 'phi':
            continue
        nx = Bin('Add', h, Int(1))
        if lo.pre.read(p) is Int(0) and all(b.read(p) is nx for b in lo.backs):
            out.append(('count', h))
    return out


def covers(lo, q, vec, n=None):
    """on path q (which contains lo) the loop went through every element of the vector (of length n, if given)"""
    i = q.index(lo)
    if i < 0:
        return False
    for kind, x in steps(lo, vec):
        ln = n if n is not None else lo.pre.read((vec[0], vec[1] + (('f', '#len'),)))
        if kind == 'range' and not (x.args[1].args[3][1] is ln or q.f.eq(x.args[1].args[3][1], ln)):
            continue
        if kind in ('it', 'range'):
            if lo.what:
                if lo.what[0] in WHOLE:
                    return True
                continue
            if i + 1 < len(q.items) and isinstance(q.items[i + 1], Ev) and q.items[i + 1].kind == 'exhausted' and q.items[i + 1].it is x:
                return True
        elif q.f.le(ln, x):
            return True
    return False


def loop_index(lo, vec):
    """terms standing for the current position in the body of the loop"""
    out = set()
    for kind, x in steps(lo, vec):
        if kind == 'count':
            out.add(x)
        else:
            for b in lo.backs:
                for q in enum_paths(b, lo):
                    for e in q.items:
                        if isinstance(e, Ev) and e.kind in ('next', 'feed') and e.it is loop_iter(lo):
                            for t in subterms(e.elem):
                                if t.op == 'ix':
                                    out.add(t)
                            if e.elem.op == 'ref':
                                for pr in e.elem.args[0][1]:
                                    if pr[0] == 'i' and isinstance(pr[1], Term):
                                        out |= {t for t in subterms(pr[1]) if t.op == 'ix'}
    return out
