"""C29 (order of bit sets) and C42 (iteration over bit sets): word by word, bit by bit."""
import re
from .r_matrix import linear
from .terms import *
from .engine import Ev, LoopObj
from .q import *

W = 64


# ------------------------------------------------------------------ terms on one path
def resolve(q, t, depth=12):
    """a term as seen on one path: joined values replaced by the one this path brings"""
    if depth == 0 or not isinstance(t, Term):
        return t
    if t.op == 'join':
        s = q.keys.get(t.args[0])
        if s is not None:
            w = s.read(t.args[1])
            if w is not t:
                return resolve(q, w, depth - 1)
        return t
    if not any(x.op == 'join' for x in subterms(t)):
        return t
    if t.op == 'bin':
        return Bin(t.args[0], resolve(q, t.args[1], depth - 1), resolve(q, t.args[2], depth - 1))
    if t.op == 'not':
        return Not(resolve(q, t.args[0], depth - 1))
    return T(t.op, *[resolve(q, a, depth - 1) if isinstance(a, Term) else a for a in t.args])


def relations(q):
    """(a, b, mask) for all facts on a path, both as learnt and as resolved"""
    out = []
    for f in q.f.fs:
        for (a, b), m in f.rel.items():
            out.append((a, b, m))
            ra, rb = resolve(q, a), resolve(q, b)
            if ra is not a or rb is not b:
                out.append((ra, rb, m))
    return out


def booleans(q):
    out = []
    for f in q.f.fs:
        for t, v in f.bl.items():
            out.append((t, v))
            r = resolve(q, t)
            if r is not t:
                out.append((r, v))
    return out


def strip(t):
    while t.op == 'cast':
        t = t.args[0]
    return t


def call(t, name):
    return t.op == 'call' and t.args[0] == name


# ------------------------------------------------------------------ bits
def bitof(t):
    """t isolates one bit of a word: (word, position)"""
    t = strip(t)
    if t.op == 'bin' and t.args[0] == 'BitAnd':
        for w, m in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            if m is Int(1) and w.op == 'bin' and w.args[0] == 'Shr':
                return w.args[1], ('pos', strip(w.args[2]))
            if m.op == 'bin' and m.args[0] == 'Shl' and m.args[1] is Int(1):
                return w, ('pos', strip(m.args[2]))
            if m.op == 'phi':
                return w, ('mask', m)
            d = lowest(m)
            if d is not None:
                return w, ('low', d)
    if t.op == 'bit' and t.args[1] == 1 and t.args[0].op == 'bin' and t.args[0].args[0] == 'Shr':
        return t.args[0].args[1], ('pos', strip(t.args[0].args[2]))
    if t.op == 'not' or t.op == 'bin' and t.args[0] in ('Eq', 'Lt', 'Le'):
        r = flag(t)
        return r[0] if r and r[1] else None
    return None


def lowest(m):
    """m is the lowest set bit of a word"""
    if m.op == 'bin' and m.args[0] == 'BitAnd':
        for d, n in ((m.args[1], m.args[2]), (m.args[2], m.args[1])):
            if call(n, 'wrapping_neg') and n.args[1] is d:
                return d
            z = nots(n)
            if z is not None and z.op == 'bin' and z.args[0] == 'Sub' and z.args[1] is d and z.args[2] is Int(1):
                return d
    return None


def flag(t):
    """a boolean that says whether a bit is set: ((word, position), sense)"""
    if t.op == 'not':
        r = flag(t.args[0])
        return (r[0], not r[1]) if r else None
    if t.op == 'bit':
        b = bitof(t)
        return (b, True) if b else None
    if t.op == 'bin' and t.args[0] == 'Eq':
        for x, y in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            b = bitof(x)
            if b and y is Int(0):
                return b, False
            if b and (y is b[1][1] and b[1][0] == 'mask' or y is Int(1) and x.op == 'bin' and Int(1) in x.args):
                return b, True
    if t.op == 'bin' and t.args[0] == 'Lt' and t.args[1] is Int(0):
        b = bitof(t.args[2])
        return (b, True) if b else None
    return None


def bit_facts(q):
    """[(bit, is it set)] known on a path"""
    out = []
    for a, b, m in relations(q):
        for x, y, k in ((a, b, m), (b, a, m & EQ | (LT if m & GT else 0) | (GT if m & LT else 0))):
            bt = bitof(x)
            if bt is None:
                continue
            one = bt[1][1] if bt[1][0] == 'mask' else None
            if y is Int(0) and (k == EQ or not k & EQ):
                out.append((bt, k != EQ))
            elif y is one and one is not None and k == EQ:
                out.append((bt, True))
    for t, v in booleans(q):
        r = flag(t)
        if r:
            out.append((r[0], r[1] == v))
    return out


class Words:
    """the two buffers a comparison reads"""

    def __init__(self, p, f, outs):
        b = p.bodies[f]
        names = [b['locals'][i][1] or 'arg%d' % i for i in (1, 2)]
        self.buf = {}
        for e in all_events(outs, 'call'):
            if e.name.split(':')[-1] == 'buffer' and e.vals:
                for k, n in zip('xy', names):
                    if re.search(r'\b%s\b' % re.escape(n), show(e.vals[0])):
                        self.buf[k] = e.ret

    def index(self, t, k):
        """t reads a word of the buffer: its index"""
        if t.op == 'init' and t.args[0][0] == ('ptr', self.buf.get(k)) and len(t.args[0][1]) == 1 and t.args[0][1][0][0] == 'i':
            return t.args[0][1][0][1]
        return None

    def length(self, k):
        return T('init', (('ptr', self.buf[k]), (('f', '#len'),)))

    def over(self, it, k):
        return it.op == 'it' and it.args[0] == 'vec' and it.args[1] == (('ptr', self.buf[k]), ())


def iterator_events(ws, q, k, items):
    return [x for x in items if isinstance(x, Ev) and x.kind in ('next', 'exhausted') and ws.over(x.it, k)]


def word_roles(ws, q, items, lo, before):
    """what one iteration looks at: a function from terms to 'x'/'y' (or both for a padding zero), or a complaint"""
    zero, idx = set(), {}
    for k in 'xy':
        evs = iterator_events(ws, q, k, items)
        if evs:
            if len(evs) != 1:
                return None, 'the words of one set are read %d times in one iteration' % len(evs)
            if iterator_events(ws, q, k, before):
                return None, 'words of one set are skipped before the loop'
            if not all(a and a[0] in ('cloned', 'copied') for a in (evs[0].it.args[2] or ())):
                return None, 'the words of one set are not read one after the other from the first'
            idx[k] = ('it', None)
            if evs[0].kind == 'exhausted':
                zero.add(k)
            else:
                e = evs[0].elem
                if e.op == 'ref':
                    e = q.end.read(e.args[0]) if hasattr(q.end, 'read') else T('init', e.args[0])
                idx[k] = ('it', ws.index(e, k))
        else:
            # read by index
            ts = set()
            for a, b, m in relations(q):
                for t in subterms(a) + subterms(b) if isinstance(subterms(a), list) else list(subterms(a)) + list(subterms(b)):
                    if isinstance(t, Term) and ws.index(t, k) is not None:
                        ts.add(ws.index(t, k))
            here = {i for i in ts if i in positions(lo)}
            pos = positions(lo)
            if len(here) > 1 or ts - here:
                return None, 'the words of one set are not read one after the other'
            for i in pos:
                if q.f.le(ws.length(k), i):
                    zero.add(k)
            if here:
                idx[k] = ('ix', next(iter(here)))
            elif k in zero:
                idx[k] = ('ix', None)
            else:
                idx[k] = (None, None)
    kinds = {v[0] for v in idx.values()}
    if kinds == {'ix'} and len({v[1] for v in idx.values() if v[1] is not None}) > 1:
        return None, 'different words of the two sets are compared'
    if None in kinds:
        return (lambda t: ''), ''

    def role(t):
        t = strip(t)
        if call(t, 'reverse_bits'):
            return role(t.args[1])
        r = ''
        for k in 'xy':
            i = ws.index(t, k)
            if i is not None and i is idx[k][1]:
                r += k
            if t is Int(0) and k in zero:
                r += k
        return r
    return role, ''


def positions(lo):
    """terms that number the iterations of a loop from zero"""
    out = set()
    it = loop_iter(lo)
    if it is not None and it.op == 'it' and it.args[0] == 'range' and not it.args[2] and it.args[1].args[3][0] is Int(0):
        for b in lo.backs:
            for q in enum_paths(b, lo):
                for e in q.items:
                    if isinstance(e, Ev) and e.kind == 'next' and e.it is it:
                        out |= {t for t in subterms(e.elem) if t.op == 'ix'}
    if lo.head is not None:
        for p in lo.havoc:
            h = lo.head.read(p)
            if h.op == 'phi' and lo.pre.read(p) is Int(0) and lo.backs and all(b.read(p) is Bin('Add', h, Int(1)) for b in lo.backs):
                out.add(h)
    return out


def masks(lo):
    """terms that are the successive single bits 1, 2, 4... in the iterations of a loop"""
    out = set()
    if lo.head is not None:
        for p in lo.havoc:
            h = lo.head.read(p)
            if h.op != 'phi' or lo.pre.read(p) is not Int(1) or not lo.backs:
                continue
            if all(doubled(b.read(p), h) for b in lo.backs):
                out.add(h)
    return out


def doubled(v, h):
    if v.op == 'bin' and (v.args[0] == 'Shl' and v.args[1] is h and v.args[2] is Int(1) or v.args[0] == 'Mul' and h in v.args[1:] and Int(2) in v.args[1:] or
                          v.args[0] == 'Add' and v.args[1] is h and v.args[2] is h):
        return True
    return v.op == 'call' and v.args[0] in ('rotate_left', 'wrapping_shl') and v.args[1] is h and v.args[2] is Int(1)


def same_bit(a, b):
    return a is not None and b is not None and a[1] == b[1]


def equal_bits(q, pos):
    """[(word, word)] whose bits at the position are known to be equal on the path"""
    out = []
    for a, b, m in relations(q):
        if m == EQ:
            p, r = bitof(a), bitof(b)
            if p and r and p[1] == r[1] == pos:
                out.append((p[0], r[0]))
    for t, v in booleans(q):
        if v and t.op == 'bin' and t.args[0] == 'Eq' or not v and t.op == 'bin' and t.args[0] == 'BitXor':
            p, r = bitof(t.args[1]), bitof(t.args[2])
            if p and r and p[1] == r[1] == pos:
                out.append((p[0], r[0]))
    fs = [(b, v) for b, v in bit_facts(q) if b[1] == pos]
    for b, v in fs:
        for c, u in fs:
            if b[0] is not c[0] and u == v:
                out.append((b[0], c[0]))
    for t in [f for f in known_zero(q)]:
        p = bitof(t)
        if p and p[1] == pos and p[0].op == 'bin' and p[0].args[0] == 'BitXor':
            out.append((p[0].args[1], p[0].args[2]))
    for f in q.f.fs:
        for t, (k, s) in f.var.items():
            if t.op == 'cmp' and (k == 'is' and s == 'Equal'):
                p, r = bitof(t.args[0]), bitof(t.args[1])
                if p and r and p[1] == r[1] == pos:
                    out.append((p[0], r[0]))
    return out


def known_zero(q):
    for a, b, m in relations(q):
        if m == EQ and a is Int(0):
            yield b
        if m == EQ and b is Int(0):
            yield a


def scans(lo):
    """the loop goes up the bits, and goes on only while two words agree: [(position, word, word)]"""
    out = []
    cand = [('mask', m) for m in masks(lo)] + [('pos', i) for i in positions(lo)]
    for pos in cand:
        common = None
        for b in lo.backs:
            for q in enum_paths(b, lo):
                s = {frozenset(x) for x in equal_bits(q, pos) if len(set(x)) == 2}
                common = s if common is None else common & s
        for x in common or ():
            out.append((pos,) + tuple(x))
    return out


def complete(lo, q):
    """on path q the scan went through all the bits of a word"""
    it = loop_iter(lo)
    i = q.index(lo)
    if it is not None and it.op == 'it' and it.args[0] == 'range' and not it.args[2]:
        a, b = it.args[1].args[3][:2]
        nx = q.items[i + 1] if i + 1 < len(q.items) else None
        return isinstance(nx, Ev) and nx.kind == 'exhausted' and nx.it is it and a is Int(0) and b.op == 'int' and b.args[0] >= W
    if any(m in set(known_zero(q)) for m in masks(lo)):
        return True
    return any(q.f.le(Int(W), t) for t in positions(lo))


# ------------------------------------------------------------------ C29
def lex(ctx):
    p = ctx.prog()
    adts = sorted({p.bodies[f]['self'][1] if isinstance(p.bodies[f]['self'], list) else p.bodies[f]['self'] for f in p.find(name='cmp', trait='Ord') if not p.bodies[f].get('derived')
                   and 'itset' in str(p.bodies[f]['locals'][1]).lower()})
    n = 0
    for a in adts:
        n += 1
        one_order(ctx, p, a)
    ctx.ob('C29.order', 'some', n > 0, 'no ordered bit set was found')


def methods(p, adt):
    out = {}
    for f, r in p.bodies.items():
        s = r.get('self')
        s = s[1] if isinstance(s, list) and len(s) > 1 else s
        if r.get('kind') != 'Closure' and s == adt and r.get('trait'):
            out[(r['trait'].split('::')[-1], r['name'])] = f
    return out


def one_order(ctx, p, adt):
    ms = methods(p, adt)
    nm = adt.split('::')[-1]
    cmp_, part, eq = ms.get(('Ord', 'cmp')), ms.get(('PartialOrd', 'partial_cmp')), ms.get(('PartialEq', 'eq'))
    der = lambda f: bool(p.bodies[f].get('derived'))
    for k, f in (('cmp', cmp_), ('partial_cmp', part), ('eq', eq)):
        ctx.ob('C29.order', '%s %s' % (nm, k), f is not None, 'no %s' % k)
    if not (cmp_ and part and eq):
        return
    # which one does the work
    main, wrapped = cmp_, False
    calls = {k: callees(ctx, f) for k, f in (('cmp', cmp_), ('partial_cmp', part))}
    if 'order:partial_cmp' in calls['cmp'] and 'order:cmp' not in calls['partial_cmp']:
        main, wrapped = part, True
    lexical(ctx, p, main, wrapped, nm)
    for k, f in (('cmp', cmp_), ('partial_cmp', part)):
        if f is not main:
            delegates(ctx, p, f, k, nm)
    equality(ctx, p, eq, nm)
    for (tr, k), f in sorted(ms.items()):
        if k in ('lt', 'le', 'gt', 'ge', 'ne') and not der(f):
            operators(ctx, p, f, k, nm)
        if tr == 'Ord' and k in ('max', 'min', 'clamp'):
            ctx.ob('C29.agree', '%s %s' % (nm, k), False, '%s is redefined' % k, p.bodies[f].get('span', ''))


def callees(ctx, f):
    e, outs = ctx.run(f, cut='lex')
    return {x.name for x in all_events(outs, 'call')}


def own_args(p, f, vals):
    """the call compares the two arguments: +1 in this order, -1 in the other, 0 otherwise"""
    b = p.bodies[f]
    a, c = [b['locals'][i][1] or 'arg%d' % i for i in (1, 2)]
    s = [re.sub(r'[&*()]', '', show(v)) for v in vals[:2]]
    return 1 if s == [a, c] else -1 if s == [c, a] else 0


def orders(p, f, q):
    """calls to the comparison of the two arguments: {returned term: direction}"""
    out = {}
    for e in q.items:
        if isinstance(e, Ev) and e.kind == 'call' and e.name in ('order:cmp', 'order:partial_cmp'):
            d = own_args(p, f, e.vals)
            if d:
                out[e.ret] = (d, e.name == 'order:partial_cmp')
    return out


def is_order(t, cs, opt):
    """t is the answer of the comparison of self and other (opt: wrapped in Some)"""
    d = 1
    if t.op == 'crev':
        t, d = t.args[0], -1
    if opt:
        if t.op == 'agg' and t.args[1] == 'Some':
            return is_order(t.args[3][0], cs, False)
        return cs.get(t) == (d, True)
    if cs.get(t) == (d, False):
        return True
    for r, (e, o) in cs.items():
        if o and e == d and show(t) == show(r) + '@Some.0':
            return True
    return False


def delegates(ctx, p, f, k, nm):
    site = p.bodies[f].get('span', '')
    e, outs = ctx.run(f, cut='lex')
    ok = bool(outs)
    for st, ret in outs:
        for q in enum_paths(st):
            ok = ok and is_order(resolve(q, ret), orders(p, f, q), k == 'partial_cmp')
    ctx.ob('C29.agree', '%s %s' % (nm, k), ok, '%s does not answer what the other comparison answers' % k, site)


def equality(ctx, p, f, nm):
    site = p.bodies[f].get('span', '')
    e, outs = ctx.run(f, cut='lex')
    ok = bool(outs)
    why = ''
    for st, ret in outs:
        for q in enum_paths(st):
            r = verdict(p, f, q, resolve(q, ret), {'Equal'})
            if not r:
                ok, why = False, 'it answers %s' % short_show(ret)
    ctx.ob('C29.agree', nm + ' eq', ok, 'two sets are not equal exactly when they compare as equal: ' + why, site)


def verdict(p, f, q, ret, accept):
    """the boolean answer is right: true exactly when the comparison gives one of the accepted answers"""
    cs = orders(p, f, q)
    ALL = {'Less', 'Equal', 'Greater'}
    poss = set(ALL)
    for r, (d, o) in cs.items():
        for t in (r,) if not o else ():
            for fb in q.f.fs:
                k, s = fb.var.get(t, (None, None))
                got = {s} if k == 'is' else ALL - set(s) if k == 'not' else ALL
                poss &= {flip(x) for x in got} if d < 0 else got
            for b, v in booleans(q):
                if b.op == 'isvar' and b.args[0] is t:
                    x = flip(b.args[1]) if d < 0 else b.args[1]
                    poss &= {x} if v else ALL - {x}
    same = identical(p, f, q)
    if same is True:
        poss &= {'Equal'}
    if not poss:
        return True
    if ret.op == 'bool':
        return poss <= accept if ret.args[0] else not poss & accept
    neg = False
    while ret.op == 'not':
        ret, neg = ret.args[0], not neg
    if ret.op == 'bin' and ret.args[0] in ('BitOr', 'BitAnd') and not neg:
        a, b = ret.args[1:]
        if ret.args[0] == 'BitOr' and 'Equal' in accept:
            for x, y in ((a, b), (b, a)):
                if buffers_equal(p, f, x):
                    return verdict(p, f, q, y, accept)
    if buffers_equal(p, f, ret) and 'Equal' not in poss:
        return poss <= accept if neg else not poss & accept
    got = answers(p, f, cs, ret)
    if got is None:
        return False
    if neg:
        got = ALL - got
    return got & poss == accept & poss


def answers(p, f, cs, t):
    """for which answers of the comparison is the boolean true"""
    if t.op == 'isvar' and t.args[0] in cs and not cs[t.args[0]][1]:
        return {flip(t.args[1]) if cs[t.args[0]][0] < 0 else t.args[1]}
    if t.op == 'isvar' and t.args[0].op == 'fld' or t.op == 'isvar':
        for r, (d, o) in cs.items():
            if o and show(t.args[0]) == show(r) + '@Some.0':
                return {flip(t.args[1]) if d < 0 else t.args[1]}
    if t.op == 'bin' and t.args[0] == 'Eq':
        for x, y in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            if y.op == 'agg' and y.args[1] in ('Less', 'Equal', 'Greater') and x in cs and not cs[x][1]:
                return {flip(y.args[1]) if cs[x][0] < 0 else y.args[1]}
            if y.op == 'agg' and y.args[1] == 'Some' and y.args[3][0].op == 'agg' and x in cs and cs[x][1]:
                return {flip(y.args[3][0].args[1]) if cs[x][0] < 0 else y.args[3][0].args[1]}
    return None


def flip(x):
    return {'Less': 'Greater', 'Greater': 'Less'}.get(x, x)


def buffers_equal(p, f, t):
    """the boolean says that the two sets (or their words) are identical"""
    b = p.bodies[f]
    a, c = [b['locals'][i][1] or 'arg%d' % i for i in (1, 2)]
    if t.op == 'bin' and t.args[0] == 'Eq':
        s = [re.sub(r'[&*()]', '', show(x)) for x in t.args[1:]]
        return {x.split('.')[0] for x in s} == {a, c} and len({x.split('.', 1)[-1] for x in s}) == 1
    return False


def identical(p, f, q):
    for a, b, m in relations(q):
        if m == EQ and buffers_equal(p, f, T('bin', 'Eq', a, b)):
            return True
    for t, v in booleans(q):
        if v and buffers_equal(p, f, t):
            return True
    # the words themselves, asked from the sets
    rets = {}
    for e in q.items:
        if isinstance(e, Ev) and e.kind == 'call' and e.name.split(':')[-1] == 'buffer':
            rets[e.ret] = re.sub(r'[&*()]', '', show(e.vals[0])).split('.')[0]
    for a, b, m in relations(q):
        if m == EQ:
            x = [r for r in rets if a.op == 'init' and a.args[0] == (('ptr', r), ()) or a is r]
            y = [r for r in rets if b.op == 'init' and b.args[0] == (('ptr', r), ()) or b is r]
            if x and y and rets[x[0]] != rets[y[0]]:
                return True
    return None


def operators(ctx, p, f, k, nm):
    accept = {'lt': {'Less'}, 'le': {'Less', 'Equal'}, 'gt': {'Greater'}, 'ge': {'Greater', 'Equal'}, 'ne': {'Less', 'Greater'}}[k]
    e, outs = ctx.run(f, cut='lex')
    ok = bool(outs)
    for st, ret in outs:
        for q in enum_paths(st):
            ok = ok and op_ok(p, f, q, resolve(q, ret), accept, k)
    ctx.ob('C29.agree', '%s %s' % (nm, k), ok, '%s does not agree with the comparison' % k, p.bodies[f].get('span', ''))


def op_ok(p, f, q, ret, accept, k):
    if k == 'ne' and ret.op == 'not':
        for e in q.items:
            if isinstance(e, Ev) and e.kind == 'call' and e.name == 'order:eq' and e.ret is ret.args[0] and own_args(p, f, e.vals):
                return True
    return verdict(p, f, q, ret, accept)


def lexical(ctx, p, f, wrapped, nm):
    """the words are compared in order, and within the first two different words the first different bit decides"""
    site = p.bodies[f].get('span', '')
    e, outs = ctx.run(f)
    ws = Words(p, f, outs)
    ctx.ob('C29.words', nm + ' buffers', len(ws.buf) == 2, 'the words of the two sets are not both read', site)
    if len(ws.buf) != 2:
        return
    loops = all_loops(outs)
    loops = [lo for lo in loops if touches(ws, lo)]
    outer = [lo for lo in loops if not any(x in loops for x in before_items(lo) if isinstance(x, LoopObj))]
    ctx.ob('C29.words', nm + ' loop', len(outer) == 1, '%d loops go through the words' % len(outer), site)
    if len(outer) != 1:
        return
    lo = outer[0]
    nb = 0
    for b in lo.backs:
        for q in enum_paths(b, lo):
            nb += 1
            before = before_items(lo)
            role, why = word_roles(ws, q, q.items, lo, before)
            ok = role is not None and words_equal(ws, q, role)
            ctx.ob('C29.continue', nm, ok, why or 'the comparison goes on to the next words while the current ones may differ', lo.site)
    ctx.ob('C29.continue', nm + ' some', nb > 0, 'the words are not compared one after the other', lo.site)
    decided = 0
    for st, ret in outs:
        for q in enum_paths(st):
            v = resolve_top(q, ret)
            if wrapped or v.op == 'agg' and v.args[1] == 'Some':
                v = v.args[3][0] if v.op == 'agg' and v.args[1] == 'Some' else v
            i = q.index(lo)
            if i < 0:
                # decided without looking at the words
                ctx.ob('C29.decide', nm + ' early', v.op == 'agg' and v.args[1] == 'Equal' and identical(p, f, q) is True, 'the answer %s is given without looking at the words' % short_show(v), site)
                continue
            items = q.items[i + 1:]
            if finished(ws, lo, q, items, v):
                ctx.ob('C29.end', nm, v.op == 'agg' and v.args[1] == 'Equal', 'the answer is %s when no word differs' % short_show(v), site)
                continue
            role, why = word_roles(ws, q, items, lo, q.items[:i])
            if role is None:
                ctx.ob('C29.decide', nm, False, why, lo.site)
                continue
            ok, why = decides(ws, q, v, role)
            decided += ok
            ctx.ob('C29.decide', nm, ok, why, lo.site)
    ctx.ob('C29.decide', nm + ' some', decided > 0, 'no difference decides', site)


def resolve_top(q, t):
    """only the outermost joins: what is compared inside stays as the scan saw it"""
    if t.op == 'join':
        s = q.keys.get(t.args[0])
        if s is not None and s.read(t.args[1]) is not t:
            return resolve_top(q, s.read(t.args[1]))
    return t


def before_items(lo):
    out = []
    for q in enum_paths(lo.pre):
        out += q.items
    return out


def touches(ws, lo):
    for b in lo.backs:
        for q in enum_paths(b, lo):
            for k in 'xy':
                if iterator_events(ws, q, k, q.items):
                    return True
            for a, c, m in relations(q):
                for t in list(subterms(a)) + list(subterms(c)):
                    if isinstance(t, Term) and (ws.index(t, 'x') is not None or ws.index(t, 'y') is not None):
                        return True
    return False


def finished(ws, lo, q, items, v):
    """the loop over the words ended because there are no more words in either set"""
    it = loop_iter(lo)
    x = items[0] if items else None
    if it is not None and it.op == 'it' and it.args[0] == 'range' and isinstance(x, Ev) and x.kind == 'exhausted' and x.it is it:
        a, b = it.args[1].args[3][:2]
        return a is Int(0) and not it.args[2] and all(ws.length(k) is b or b.op == 'max' and ws.length(k) in b.args or q.f.le(ws.length(k), b) for k in 'xy')
    pos = positions(lo)
    if pos and not any(isinstance(x, Ev) and x.kind == 'next' for x in items) and any(all(q.f.le(ws.length(k), t) or covered(ws, q, t, k) for k in 'xy') for t in pos):
        return True
    ex = {k for k in 'xy' for x in iterator_events(ws, q, k, items) if x.kind == 'exhausted'}
    return ex == {'x', 'y'} and v.op == 'agg' and v.args[1] == 'Equal'


def covered(ws, q, t, k):
    for a, b, m in relations(q):
        if a.op == 'max' and ws.length(k) in a.args and b is t and not m & GT or b.op == 'max' and ws.length(k) in b.args and a is t and not m & LT:
            return True
    return False


def pair(role, a, b):
    """the two terms are the current words of the two sets: 1 in order, -1 exchanged"""
    ra, rb = role(a), role(b)
    if 'x' in ra and 'y' in rb:
        return 1
    if 'y' in ra and 'x' in rb:
        return -1
    return 0


def reverse_same(a, b):
    return call(strip(a), 'reverse_bits') == call(strip(b), 'reverse_bits')


def words_equal(ws, q, role):
    for a, b, m in relations(q):
        if m == EQ and pair(role, a, b) and reverse_same(a, b) and not a is b:
            return True
    if role(Int(0)) == 'xy':
        return True
    for t in known_zero(q):
        if t.op == 'bin' and t.args[0] == 'BitXor' and pair(role, t.args[1], t.args[2]):
            return True
        if t.op == 'init' and role(Int(0)) and role(t) and role(t) != role(Int(0)):
            return True
    for f in q.f.fs:
        for t, (k, s) in f.var.items():
            t = resolve(q, t)
            if t.op == 'cmp' and k == 'is' and s == 'Equal' and pair(role, t.args[0], t.args[1]) and reverse_same(*t.args[:2]):
                return True
    for x in q.items:
        if isinstance(x, LoopObj) and complete(x, q):
            for pos, a, b in scans(x):
                if pair(role, resolve(q, a), resolve(q, b)):
                    return True
    return False


def decides(ws, q, v, role):
    """the answer is that of the first bit that differs"""
    sign = 1
    while v.op == 'crev':
        v, sign = v.args[0], -sign
    R = lambda t: resolve(q, t)
    if v.op == 'cmp':
        a, b = v.args[:2]
        if call(strip(a), 'reverse_bits') and call(strip(b), 'reverse_bits'):
            d = pair(role, R(a), R(b))
            if d == sign and (different(q, role) or not_equal(q, v)):
                return True, ''
            return False, 'the words are compared the other way round, or may be equal'
        p, r = bitof(a), bitof(b)
        if p and b is Int(0) and role(b):
            r = b, p[1]
        elif r and a is Int(0) and role(a):
            p = a, r[1]
        if p and r:
            d = pair(role, R(p[0]), R(r[0]))
            if not d:
                return False, 'the bits compared do not belong to the two sets'
            if d != sign:
                return False, 'the set with the first bit is the smaller one'
            if p[1] != r[1]:
                return False, 'bits at different positions are compared'
            if not first(q, p[1], p[0], r[0], role):
                return False, 'the bit compared is not shown to be the first that differs'
            if p[1][0] in ('mask', 'pos') and not is_low(q, p[1], role):
                if not any(not m & EQ and {x for x in (a, b)} == {c, d2} for c, d2, m in relations(q)) and not not_equal(q, v) and not bits_differ(q, p, r):
                    return False, 'the comparison ends with two bits that may be equal'
            elif not different(q, role):
                return False, 'the words may be equal'
            return True, ''
    if v.op == 'agg' and v.args[1] in ('Less', 'Greater'):
        want = 'x' if (v.args[1] == 'Greater') == (sign > 0) else 'y'
        if role(Int(0)) == ('y' if want == 'x' else 'x') and different(q, role):
            return True, ''         # every bit of the other set is unset
        for bt, isset in bit_facts(q):
            w = role(R(bt[0]))
            if not w or len(w) > 1 and isset:
                continue
            # the set in which the bit is set is the greater
            if ('x' in w and isset or 'y' in w and not isset) != (want == 'x'):
                continue
            if 'xy' == w:
                continue
            other = [c for c, u in bit_facts(q) if c[1] == bt[1] and u != isset and pair(role, R(c[0]), R(bt[0]))]
            if is_low(q, bt[1], role):
                if different(q, role):
                    return True, ''
                continue
            differ = other or [1 for a, b, m in relations(q) if not m & EQ and bitof(a) and bitof(b) and bitof(a)[1] == bitof(b)[1] == bt[1] and pair(role, R(bitof(a)[0]), R(bitof(b)[0]))]
            if differ and first_any(q, bt[1], role):
                return True, ''
        for a, b, m in relations(q):
            p, r = bitof(a), bitof(b)
            if m not in (LT, GT) or not p or not r or p[1] != r[1]:
                continue
            d = pair(role, R(p[0]), R(r[0]))
            if d and ((d > 0) == (m == GT)) == (want == 'x') and (is_low(q, p[1], role) and different(q, role) or first_any(q, p[1], role)):
                return True, ''         # the bit is set in the set in which it is the larger
        return False, 'the answer is %s where the first bit that differs is not shown to be set in that set' % v.args[1]
    return False, 'the answer %s is not recognised' % short_show(v)


def bits_differ(q, p, r):
    fs = bit_facts(q)
    return any(b == p and any(c == r and u != v for c, u in fs) for b, v in fs)


def not_equal(q, v):
    for f in q.f.fs:
        k, s = f.var.get(v, (None, None))
        if k == 'is' and s != 'Equal' or k == 'not' and 'Equal' in s:
            return True
    return any(t.op == 'isvar' and t.args[0] is v and (t.args[1] == 'Equal') != b for t, b in booleans(q))


def different(q, role):
    for a, b, m in relations(q):
        if not m & EQ and pair(role, a, b) and reverse_same(a, b):
            return True
        if not m & EQ:
            for x, y in ((a, b), (b, a)):
                if y is Int(0) and x.op == 'bin' and x.args[0] == 'BitXor' and pair(role, x.args[1], x.args[2]):
                    return True
    return False


def is_low(q, pos, role):
    """the position of the lowest bit that differs, computed from the words"""
    if pos[0] == 'low':
        d = resolve(q, pos[1])
        return d.op == 'bin' and d.args[0] == 'BitXor' and bool(pair(role, d.args[1], d.args[2]))
    if pos[0] == 'pos':
        t = strip(resolve(q, pos[1]))
        return call(t, 'trailing_zeros') and t.args[1].op == 'bin' and t.args[1].args[0] == 'BitXor' and bool(pair(role, t.args[1].args[1], t.args[1].args[2]))
    return False


def first(q, pos, wa, wb, role):
    if is_low(q, pos, role):
        return True
    for x in q.items:
        if isinstance(x, LoopObj):
            for ps, a, b in scans(x):
                if ps == pos and {a, b} == {wa, wb}:
                    return True
    return False


def first_any(q, pos, role):
    if is_low(q, pos, role):
        return True
    for x in q.items:
        if isinstance(x, LoopObj):
            for ps, a, b in scans(x):
                if ps == pos and pair(role, resolve(q, a), resolve(q, b)):
                    return True
    return False


# ------------------------------------------------------------------ C42
class Fields:
    """which field plays which part in an iterator over the bits of a set"""

    def __init__(self, it, word, opt, base, offset):
        self.it, self.word, self.opt, self.base, self.offset = it, word, opt, base, offset


def bit_iterators(p):
    for a, d in sorted(p.adts.items()):
        if d['enum'] or a.split('::')[0] != 'engineering':
            continue
        fs = d['variants'][0][1]
        its = [f[0] for f in fs if f[1][0] == 'adt' and 'Iter' in str(f[1]) and 'u64' in str(f[1])]
        words = [(f[0], f[1][0] == 'adt') for f in fs if f[1] == ['int', 'u64'] or f[1][0] == 'adt' and f[1][1].endswith('Option') and f[1][2] == [['int', 'u64']]]
        us = [f[0] for f in fs if f[1] == ['int', 'usize']]
        if len(its) == 1 and len(words) == 1 and 1 <= len(us) <= 2:
            yield a, [Fields(its[0], words[0][0], words[0][1], b, o) for b in us for o in [u for u in us if u != b] or [None]]


def bits_iter(ctx):
    p = ctx.prog()
    n = 0
    for a, cands in bit_iterators(p):
        nexts = [f for f in p.find(name='next', self_adt=a.split('::')[-1])]
        for f in nexts:
            n += 1
            best = None
            for F in cands:
                res = iterator_obs(ctx, p, a, f, F)
                bad = sum(1 for r in res if not r[2])
                if best is None or bad < best[0]:
                    best = (bad, res)
            for r in best[1]:
                ctx.ob(*r)
    ctx.ob('C42.next', 'some', n > 0, 'no iterator over the words of a bit set was found')


def iterator_obs(ctx, p, adt, f, F):
    obs = []
    nm = adt.split('::')[-1]
    site = p.bodies[f].get('span', '')

    def ob(rule, inst, ok, why='', s=site):
        obs.append((rule, '%s %s' % (nm, inst), bool(ok), why, s))
    e, outs = ctx.run(f)
    me = ('ptr', T('sym', p.bodies[f]['locals'][1][1] or 'arg1'))
    P = lambda n: (me, (('f', n),))
    loops = all_loops(outs)
    main = [lo for lo in loops if not any(isinstance(x, LoopObj) for x in before_items(lo))]
    ok = len(main) <= 1
    ob('C42.next', 'loops', ok, 'the words are gone through by %d loops' % len(main))
    if not ok:
        return obs
    lo = main[0] if main else None
    # a scan over the bits of the current word, without a loop around it
    if lo is not None and not any(calls_next(q) for b in lo.backs for q in enum_paths(b, lo)) and not any(P(n) in [tuple(x) for x in lo.havoc] for n in (F.word,)):
        lo = None
    head = lo.head if lo is not None else e.entry if hasattr(e, 'entry') else None

    def at(n):
        if n is None:
            return Int(0)
        if lo is not None:
            return lo.head.read(P(n))
        return T('init', P(n))
    wopt, b0, o0 = at(F.word), at(F.base), at(F.offset)
    w0 = payload(wopt) if F.opt else wopt
    ends = []
    if lo is not None:
        for s in lo.backs:
            ends += [(s, q, None) for q in enum_paths(s, lo)]
    for st, ret in outs:
        for q in enum_paths(st):
            i = q.index(lo) if lo is not None else -1
            ends.append((st, q if i < 0 else q.since(i + 1), ret))
    yielded = 0
    for st, q, ret in ends:
        scan = Scan(q, w0, o0)
        rd = lambda n: Int(0) if n is None else resolve(q, st.read(P(n)))
        w1, b1, o1 = rd(F.word), rd(F.base), rd(F.offset)
        nx = calls_next(q)
        if ret is not None:
            ret = resolve(q, ret)
        if ret is not None and ret.op == 'agg' and ret.args[1] == 'Some':
            yielded += 1
            v = ret.args[3][0]
            ks = [k for k in scan.found() if same_sum(Bin('Add', b0, k), v)]
            ob('C42.value', 'element', ks, 'the element yielded, %s, is not shown to be the next bit of the word' % short_show(v))
            ok = not nx and b1 is b0
            if F.offset is not None:
                ok = ok and w1 is wopt and any(o1 is Bin('Add', k, Int(1)) for k in ks)
            else:
                ok = ok and any(cleared(unwrap(w1, F), w0, k) for k in ks)
            ob('C42.value', 'state', ok, 'after an element the iterator does not stand just behind it')
        elif ret is not None:
            none = ret is NONE or ret.op == 'agg' and ret.args[1] == 'None'
            ok = none and (F.opt and q.f.variant(wopt) == 'None' or scan.empty() and len(nx) == 1 and q.f.variant(nx[0].ret) == 'None')
            ob('C42.end', 'end', ok, 'the iteration ends although words may be left')
        elif nx or w1 is not wopt or b1 is not b0:
            got = len(nx) == 1 and (w1 is nx[0].ret if F.opt else w1 is payload(nx[0].ret)) and re.search(r'\*?self\.%s' % re.escape(F.it), show(nx[0].vals[0])) is not None
            if len(nx) == 1 and not F.opt and q.f.variant(nx[0].ret) != 'Some':
                got = False
            if len(nx) == 1 and F.opt and not got and q.f.variant(nx[0].ret) == 'Some':
                got = w1.op == 'agg' and w1.args[3] and w1.args[3][0] is payload(nx[0].ret)
            ob('C42.advance', 'word', got, 'the next word is not the next one of the set')
            ob('C42.advance', 'base', b1 is Bin('Add', b0, Int(W)), 'the number of the first bit of the next word is %s' % short_show(b1))
            ob('C42.advance', 'offset', o1 is Int(0), 'the next word is not read from its first bit')
            ob('C42.advance', 'done', scan.empty(), 'the word is left while it may still hold bits that have not been seen')
        else:
            ok = scan.empty() and (scan.past(o1) or any(scan.past(k) and o1 is Bin('Add', k, Int(1)) for k in scan.unset())) or any(o1 is k and (scan.past(k) or k is Bin('Add', o0, Int(1))) for k in scan.unset())
            ob('C42.advance', 'within', ok, 'bits of the word may be passed over unseen')
        for x in q.items:
            if isinstance(x, Ev) and x.kind == 'assert' and 'Overflow(Shl' in str(x.d.get('msg', '')):
                ob('C42.shift', 'shift', x.known or shift_ok(q, x.cond, scan), 'a word may be shifted by more than its size', str(x.site))
    ob('C42.value', 'some', yielded > 0, 'no element is ever yielded')
    # where it starts
    starts = 0
    for g, r in sorted(p.bodies.items()):
        if r.get('kind') == 'Closure' or not makes(r, adt):
            continue
        e2, outs2 = ctx.run(g)
        for st, ret in outs2:
            for q in enum_paths(st):
                ret1 = resolve(q, ret)
                if ret1.op != 'agg' or ret1.args[0] != adt:
                    continue
                starts += 1
                vals = dict(zip(ret1.args[2], ret1.args[3]))
                it = vals.get(F.it)
                evs = [x for x in q.items if isinstance(x, Ev) and x.kind in ('next', 'exhausted')]
                ok = it is not None and it.op == 'it' and it.args[0] == 'vec' and all(a and a[0] in ('cloned', 'copied') for a in (it.args[2] or ()))
                ok = ok and any(isinstance(x, Ev) and x.kind == 'call' and x.name.split(':')[-1] == 'buffer' and it.args[1] == (('ptr', x.ret), ()) and 'fresh' not in show(x.vals[0]) for x in q.items)
                ob('C42.start', 'words', ok, 'the words are not those of the set, from the first', r.get('span', ''))
                ok = len(evs) == 1 and evs[0].it is it
                w = vals.get(F.word)
                if ok and evs[0].kind == 'next':
                    el = evs[0].elem
                    if el.op == 'ref':
                        el = st.read(el.args[0])
                    x = w.args[3][0] if F.opt and w.op == 'agg' and w.args[3] else w
                    ok = x is el
                elif ok:
                    ok = (w.op == 'agg' and w.args[1] == 'None') if F.opt else w is Int(0)
                ob('C42.start', 'first word', ok, 'the iteration does not start with the first word', r.get('span', ''))
                ob('C42.start', 'numbers', vals.get(F.base) is Int(0) and (F.offset is None or vals.get(F.offset) is Int(0)), 'the iteration does not start with bit 0', r.get('span', ''))
    ob('C42.start', 'some', starts > 0, 'the iterator is never made')
    return obs


def makes(r, adt):
    return r['argc'] == 1 and r['locals'][0][0][0] == 'adt' and r['locals'][0][0][1] == adt and r.get('vis')


def unwrap(w, F):
    return w.args[3][0] if F.opt and w.op == 'agg' and w.args[3] else payload(w) if F.opt else w


def calls_next(q):
    return [x for x in q.items if isinstance(x, Ev) and x.kind == 'call' and x.name.split(':')[-1] == 'next']


def cleared(w1, w0, k):
    """the word with bit k, its lowest, cleared"""
    if w1.op != 'bin':
        return False
    o, a, b = w1.args
    for x, y in ((a, b), (b, a)):
        if x is not w0:
            continue
        if o == 'BitAnd' and (y.op == 'bin' and y.args[0] == 'Sub' and y.args[1] is w0 and y.args[2] is Int(1) or call(y, 'wrapping_sub') and y.args[1:] == (w0, Int(1))):
            return call(strip(k), 'trailing_zeros')
        if o == 'BitAnd' and nots(y) is not None and one_at(nots(y), k):
            return True
        if o in ('BitXor',) and (one_at(y, k) or lowest(y) is w0 and call(strip(k), 'trailing_zeros')):
            return True
    return False


def one_at(t, k):
    return t.op == 'bin' and t.args[0] == 'Shl' and t.args[1] is Int(1) and strip(t.args[2]) is strip(k)


def nots(t):
    return t.args[-1] if t.op in ('not', 'inv') or call(t, 'not') else None


def tail(t, w, o):
    """the bits of w from position o on, as a word: 'moved' down, or 'kept' in place"""
    if t is w and o is Int(0):
        return 'kept'
    if t.op == 'bin' and t.args[0] == 'Shr' and t.args[1] is w and strip(t.args[2]) is strip(o):
        return 'moved'
    if t.op == 'bin' and t.args[0] == 'BitAnd':
        for x, y in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            if x is w and y.op == 'bin' and y.args[0] == 'Shl' and strip(y.args[2]) is strip(o) and full(y.args[1]):
                return 'kept'
            z = nots(y)
            if x is w and z is not None and z.op == 'bin' and z.args[0] == 'Sub' and one_at(z.args[1], o) and z.args[2] is Int(1):
                return 'kept'
    if t.op == 'bin' and t.args[0] == 'Shl' and strip(t.args[2]) is strip(o) and t.args[1].op == 'bin' and t.args[1].args[0] == 'Shr' and t.args[1].args[1] is w and strip(t.args[1].args[2]) is strip(o):
        return 'kept'
    return None


def full(t):
    return t.op == 'int' and (t.args[0] == -1 or t.args[0] == (1 << W) - 1) or nots(t) is Int(0)


def shift_ok(q, cond, scan):
    """the shift is by the position of a bit that was found"""
    if cond.op == 'bin' and cond.args[0] == 'Lt' and cond.args[2] is Int(W):
        k = strip(cond.args[1])
        return any(k is strip(x) for x in scan.found()) and (call(k, 'trailing_zeros') or scan.o is not k)
    return False


def same_sum(a, b):
    return a is b or linear(a) == linear(b)


class Scan:
    """what one path knows of the bits of the word w from position o on"""

    def __init__(self, q, w, o):
        self.q, self.w, self.o = q, w, o
        self.zero = set(known_zero(q))
        self.nonzero = {x for a, b, m in relations(q) if not m & EQ for x, y in ((a, b), (b, a)) if y is Int(0)}
        self.nonzero |= {y for a, b, m in relations(q) for x, y, k in ((a, b, m), (b, a, (m & EQ) | (LT if m & GT else 0) | (GT if m & LT else 0))) if x is Int(0) and k == LT}
        self.loops = [x for x in q.items if isinstance(x, LoopObj)]

    def ups(self):
        """[(loop, position in it, masks that stand for the bit at this position)] for the scans of the word from o"""
        for lo in self.loops:
            if lo.head is None:
                continue
            for p in lo.havoc:
                h = lo.head.read(p)
                if h.op != 'phi' or strip(lo.pre.read(p)) is not strip(self.o) or not lo.backs:
                    continue
                if not all(b.read(p) is Bin('Add', h, Int(1)) for b in lo.backs):
                    continue
                ms = []
                for m in lo.havoc:
                    g = lo.head.read(m)
                    if g.op == 'phi' and g is not h and one_at(lo.pre.read(m), self.o) and all(doubled(b.read(m), g) for b in lo.backs):
                        ms.append(g)
                if all(self.unset_here(qq, h, ms) for b in lo.backs for qq in enum_paths(b, lo)):
                    yield lo, h, ms

    def unset_here(self, qq, h, ms):
        """in this iteration the bit at the position is known to be unset, and to be one of the word"""
        if not qq.f.truth(Bin('Lt', h, Int(W))) and not any(strip(t.args[1]) is h and t.args[2] is Int(W) and v for t, v in booleans(qq) if t.op == 'bin' and t.args[0] == 'Lt'):
            return False
        return any(not v and self.is_bit(b, h, ms) for b, v in bit_facts(qq)) or any(self.is_bit(bitof(t), h, ms) for t in known_zero(qq))

    def is_bit(self, b, k, ms):
        return b is not None and b[0] is self.w and (b[1] == ('pos', strip(k)) or b[1][0] == 'mask' and b[1][1] in ms)

    def unset(self):
        """positions up to which (excluded) all bits from o on are unset"""
        out = [self.o]
        for lo, h, ms in self.ups():
            out.append(h)
        for t in {x for z in self.terms() for x in subterms(z) if isinstance(x, Term)}:
            if call(t, 'trailing_zeros'):
                k = tail(t.args[1], self.w, self.o)
                if k == 'kept':
                    out += [t, T('cast', t, 'usize')]
                elif k == 'moved':
                    for c in self.casts(t):
                        out.append(Bin('Add', self.o, c))
        out += self.nexts()
        return out

    def nexts(self):
        """one step behind a bit known to be unset"""
        for b, v in bit_facts(self.q):
            if not v and self.is_bit(b, self.o, ()):
                return [Bin('Add', self.o, Int(1))]
        return []

    def casts(self, t):
        return [x for z in self.terms() for x in subterms(z) if isinstance(x, Term) and strip(x) is t and (x is t or x.op == 'cast')] or [t]

    def terms(self):
        out = set()
        st = self.q.end
        if hasattr(st, 'mem'):
            for k, v in st.mem.items():
                if isinstance(v, Term):
                    out.add(resolve(self.q, v))
        for a, b, m in relations(self.q):
            out |= {a, b}
        for x in self.q.items:
            if isinstance(x, Ev):
                for v in x.d.values():
                    if isinstance(v, Term):
                        out.add(resolve(self.q, v))
        return out

    def found(self):
        """positions known to be that of the first set bit from o on"""
        out = []
        for lo, h, ms in self.ups():
            if any(v and self.is_bit(b, h, ms) for b, v in bit_facts(self.q)):
                out.append(h)
        some = any(tail(t, self.w, self.o) for t in self.nonzero)
        for t in {x for z in self.terms() for x in subterms(z) if isinstance(x, Term) and x.op == 'call'}:
            if call(t, 'trailing_zeros'):
                k = tail(t.args[1], self.w, self.o)
                if k and (some or self.below(t)):
                    for c in self.casts(t):
                        out.append(c if k == 'kept' else Bin('Add', self.o, c))
        if any(v and self.is_bit(b, self.o, ()) for b, v in bit_facts(self.q)):
            out.append(self.o)
        return out

    def below(self, t):
        return any(self.q.f.truth(Bin('Lt', c, Int(W))) is True for c in self.casts(t))

    def past(self, k):
        return self.q.f.le(Int(W), k)

    def empty(self):
        """no bit of the word from o on is set"""
        if self.w in self.zero or any(tail(t, self.w, self.o) for t in self.zero) or self.past(self.o):
            return True
        if any(self.past(k) for k in self.unset()):
            return True
        for t in {x for z in self.terms() for x in subterms(z) if isinstance(x, Term) and x.op == 'call'}:
            if call(t, 'trailing_zeros') and tail(t.args[1], self.w, self.o) and any(self.past(c) for c in self.casts(t)):
                return True
        return False
