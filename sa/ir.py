"""Loads the MIR dump of the crate, and computes CFG structure per body."""
import json, os
from collections import defaultdict


class Body:
    def __init__(self, r, parent=None):
        self.r = r
        self.id = r.get('id') or parent
        self.path = r.get('path', self.id)
        self.name = r.get('name') or ('closure' if r.get('kind') == 'Closure' else '?')
        self.kind = r.get('kind')
        self.trait = r.get('trait')
        self.self_ty = r.get('self')
        self.derived = r.get('derived', False)
        self.argc = r['argc']
        self.locals = r['locals']
        self.blocks = r['blocks']
        self.upv = r.get('upv', [])
        self.span = r.get('span', '')
        self.vis = r.get('vis')
        self.parent = r.get('parent')
        self.promoted = [Body(p, '%s#p%d' % (self.id, i)) for i, p in enumerate(r.get('promoted', []))]
        self._cfg()

    @property
    def self_adt(self):
        t = self.self_ty
        return t[1] if t and t[0] == 'adt' else None

    def succs(self, b):
        t = self.blocks[b]['t']
        k = t['k']
        if k in ('goto', 'drop', 'assert'):
            return [t['t']]
        if k == 'call':
            return [t['t']] if t['t'] is not None else []
        if k == 'switch':
            return [x[1] for x in t['c']] + [t['o']]
        return []

    def _cfg(self):
        n = len(self.blocks)
        seen, post = set(), []
        stack = [(0, iter(self.succs(0)))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                post.append(b)
                stack.pop()
        rpo = post[::-1]
        self.rpo = {b: i for i, b in enumerate(rpo)}
        preds = defaultdict(list)
        for b in rpo:
            for s in self.succs(b):
                preds[s].append(b)
        self.preds = preds
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                if not ps:
                    continue
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while self.rpo[x] > self.rpo[y]:
                            x = idom[x]
                        while self.rpo[y] > self.rpo[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    changed = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in self.succs(b):
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
                elif self.rpo[s] <= self.rpo[b]:
                    raise Exception('irreducible CFG in %s' % self.id)
        self.loops = loops
        self._live()

    def _live(self):
        """block-entry liveness of locals; borrowed locals are always live"""
        use, deff = {}, {}
        self.borrowed = set()

        def opnd(o, u, d):
            if o[0] in ('copy', 'move'):
                place_use(o[1], u, d)

        def place_use(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for q in p[1]:
                if q[0] == 'index' and q[1] not in d:
                    u.add(q[1])

        def place_def(p, u, d):
            if p[1]:
                place_use(p, u, d)
            else:
                d.add(p[0])
        for b in self.rpo:
            u, d = set(), set()
            for s in self.blocks[b]['s']:
                rv = s[1]
                for x in self._ops(rv):
                    opnd(x, u, d)
                for p in self._places(rv):
                    place_use(p, u, d)
                if rv[0] == 'ref' and not (rv[2][1] and rv[2][1][0][0] == 'deref'):
                    self.borrowed.add(rv[2][0])
                place_def(s[0], u, d)
            t = self.blocks[b]['t']
            if t['k'] == 'call':
                opnd(t['f'], u, d)
                for a in t['a']:
                    opnd(a, u, d)
                place_def(t['d'], u, d)
            elif t['k'] == 'switch':
                opnd(t['d'], u, d)
            elif t['k'] == 'assert':
                opnd(t['c'], u, d)
            elif t['k'] == 'drop':
                place_use(t['p'], u, d)
            elif t['k'] == 'return':
                if 0 not in d:
                    u.add(0)
            use[b], deff[b] = u, d
        live = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in sorted(self.rpo, key=lambda x: -self.rpo[x]):
                out = set()
                for s in self.succs(b):
                    out |= live[s]
                n = use[b] | (out - deff[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = live

    @staticmethod
    def _ops(rv):
        k = rv[0]
        if k in ('use', 'repeat'):
            return [rv[1]]
        if k == 'cast':
            return [rv[2]]
        if k == 'bin':
            return [rv[2], rv[3]]
        if k == 'un':
            return [rv[2]]
        if k == 'agg':
            return rv[2]
        return []

    @staticmethod
    def _places(rv):
        if rv[0] == 'ref':
            return [rv[2]]
        if rv[0] == 'discr':
            return [rv[1]]
        return []


def renamed_fields(adts):
    """{struct: {field: name the rules use}} for fields that were renamed since the rules were written.  A consistent renaming of
    the fields of a struct changes no behaviour, so the choice made here cannot hide a violation: the rules judge what is done with the fields."""
    known = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'names.json')))
    out = {}
    gone = [k for k in known if k not in adts]
    for a, r in adts.items():
        if r['enum'] or not r['variants']:
            continue
        have = [(f[0], json.dumps(f[1])) for f in r['variants'][0][1]]
        want = known.get(a)
        if want is None:        # a renamed struct: the lost one of the same module that resembles it most
            mod = a.rsplit('::', 1)[0]
            cand = [k for k in gone if k.rsplit('::', 1)[0] == mod and len(known[k]) == len(have)]
            cand.sort(key=lambda k: -sum(1 for x, y in zip(known[k], have) if x[0] == y[0] or x[1] == y[1]))
            if not cand:
                continue
            want = known[cand[0]]
        names = {n for n, t in have}
        lost = [(n, t) for n, t in want if n not in names]
        new = [(n, t) for n, t in have if n not in {x for x, y in want}]
        m = {}
        for n, t in list(new):
            same = [x for x in lost if x[1] == t]
            if same and n != same[0][0] and not n.isdigit():
                m[n] = same[0][0]
                lost.remove(same[0])
                new.remove((n, t))
        if len(new) == len(lost):
            for (n, t), (o, u) in zip(new, lost):
                if not n.isdigit():
                    m[n] = o
        if m:
            out[a] = m
    return out


def rename(x, ren):
    if isinstance(x, dict):
        for v in x.values():
            rename(v, ren)
    elif isinstance(x, list):
        if len(x) == 4 and x[0] == 'field' and x[3] in ren:
            x[2] = ren[x[3]].get(x[2], x[2])
            return
        if len(x) == 5 and x[0] == 'adt' and x[1] in ren and isinstance(x[3], list):
            x[3] = [ren[x[1]].get(n, n) if isinstance(n, str) else n for n in x[3]]
            return
        for v in x:
            rename(v, ren)


class Prog:
    def __init__(self, files):
        self.bodies = {}
        self.consts = {}
        self.adts = {}
        self.impls = []
        for f in files:
            for l in open(f):
                r = json.loads(l)
                if 'const' in r:
                    self.consts[r['id']] = r
                elif 'blocks' in r:
                    self.bodies[r['id']] = r
                elif 'adt' in r:
                    self.adts[r['adt']] = r
                else:
                    self.impls.append(r)
        self._b = {}
        ren = renamed_fields(self.adts)
        if ren:
            for r in list(self.bodies.values()) + list(self.consts.values()) + list(self.adts.values()):
                rename(r, ren)
            for a, m in ren.items():
                for v in self.adts[a]['variants']:
                    for f in v[1]:
                        f[0] = m.get(f[0], f[0])

    def body(self, id):
        if id not in self._b:
            r = self.bodies.get(id) or self.consts.get(id)
            self._b[id] = Body(r) if r is not None else None
        return self._b[id]

    def const(self, id):
        return self.body(id) if id in self.consts else None

    def raw(self):
        return self.bodies.values()

    def find(self, name=None, trait=None, self_adt=None, pred=None):
        """bodies by method name / implemented trait (last segment) / self ADT (last segment)"""
        out = []
        for r in self.bodies.values():
            if name is not None and r.get('name') != name:
                continue
            if trait is not None and (r.get('trait') or '').split('::')[-1] != trait:
                continue
            if self_adt is not None:
                s = r.get('self')
                if not s or s[0] != 'adt' or s[1].split('::')[-1] != self_adt:
                    continue
            if pred and not pred(r):
                continue
            out.append(r['id'])
        return out

    def implementors(self, trait):
        return sorted({i['self'][1] for i in self.impls if i['trait'] and i['trait'].split('::')[-1] == trait and i['self'][0] == 'adt'})
