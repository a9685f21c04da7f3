"""Hash-consed value terms, abstract places and the predicate (fact) domain."""
import itertools

LT, EQ, GT = 1, 2, 4
ALL = 7


class Term:
    __slots__ = ('op', 'args', 'id', 'loops', '_h')
    _tab = {}
    _n = itertools.count()

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id

    def __hash__(self):
        return self.id


def T(op, *args):
    k = (op,) + args
    t = Term._tab.get(k)
    if t is None:
        t = Term()
        t.op, t.args, t.id = op, args, next(Term._n)
        ls = frozenset()
        for a in _walk(args):
            if isinstance(a, Term):
                if a.loops:
                    ls |= a.loops
            elif isinstance(a, LoopTag):
                ls |= frozenset((a,))
        t.loops = ls
        Term._tab[k] = t
    return t


class LoopTag:
    __slots__ = ('key', 'id')
    _tab = {}

    def __hash__(self):
        return self.id

    def __repr__(self):
        return 'L%d' % self.id

    @staticmethod
    def get(key):
        t = LoopTag._tab.get(key)
        if t is None:
            t = LoopTag()
            t.key = key
            t.id = len(LoopTag._tab)
            LoopTag._tab[key] = t
        return t


def _walk(args):
    for a in args:
        if isinstance(a, tuple):
            yield from _walk(a)
        else:
            yield a


# ---------------------------------------------------------------- constructors
def Int(v):
    return T('int', int(v))


TRUE = T('bool', True)
FALSE = T('bool', False)
UNIT = T('agg', 'tuple', '', (), ())


def Bool(b):
    return TRUE if b else FALSE


def Agg(adt, variant, names, vals):
    return T('agg', adt, variant, tuple(names), tuple(vals))


def Tup(*vals):
    return T('agg', 'tuple', '', tuple(str(i) for i in range(len(vals))), tuple(vals))


def Some(x):
    return T('agg', 'Option', 'Some', ('0',), (x,))


NONE = T('agg', 'Option', 'None', (), ())


def short(path):
    """last segment of an ADT path"""
    return path.split('::')[-1]


def Ref(place):
    return T('ref', place)


def is_agg(t, adt=None, variant=None):
    return t.op == 'agg' and (adt is None or t.args[0] == adt) and (variant is None or t.args[1] == variant)


def flat(op, ts):
    out = []
    for t in ts:
        if t.op == op:
            out.extend(t.args)
        else:
            out.append(t)
    uniq = sorted(set(out), key=lambda t: t.id)
    return uniq


IMIN = -(1 << 63)
IMAX = (1 << 63) - 1


def Max(*ts):
    f = flat('max', ts)
    ints = [t.args[0] for t in f if t.op == 'int']
    f = [t for t in f if t.op != 'int']
    if ints:
        m = max(ints)
        if not f:
            return Int(m)
        if m != IMIN:
            f.append(Int(m))
    if len(f) == 1:
        return f[0]
    return T('max', *sorted(f, key=lambda t: t.id))


def Min(*ts):
    f = flat('min', ts)
    ints = [t.args[0] for t in f if t.op == 'int']
    f = [t for t in f if t.op != 'int']
    if ints:
        m = min(ints)
        if not f:
            return Int(m)
        if m != IMAX:
            f.append(Int(m))
    if len(f) == 1:
        return f[0]
    return T('min', *sorted(f, key=lambda t: t.id))


def Not(t):
    if t.op == 'bool':
        return Bool(not t.args[0])
    if t.op == 'not':
        return t.args[0]
    if t.op == 'bin':
        o, a, b = t.args
        if o == 'Lt':
            return T('bin', 'Le', b, a)
        if o == 'Le':
            return T('bin', 'Lt', b, a)
    return T('not', t)


def _bits(base, st, cl):
    """value of (base & ~cl) | st, canonical"""
    if base.op == 'bits':
        b0, s0, c0 = base.args
        return _bits(b0, (s0 & ~cl) | st, (c0 & ~st) | (cl & ~st))
    cl &= ~st
    if base.op == 'int':
        return Int((base.args[0] & ~cl) | st)
    if not st and not cl:
        return base
    return T('bits', base, st, cl)


def _bitand(x, c):
    """x & c for a constant c"""
    if x.op == 'int':
        return Int(x.args[0] & c)
    if c < 0:
        return _bits(x, 0, ~c)
    if x.op == 'bits':
        b, s, cl = x.args
        rest = c & ~(s | cl)
        base = _bitand(b, rest) if rest else Int(0)
        return _bits(base, s & c, 0) if s & c else base
    if x.op == 'bin' and x.args[0] == 'BitAnd':
        for p, q in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
            if p.op == 'int':
                return _bitand(q, p.args[0] & c)
    if c == 0:
        return Int(0)
    return T('bin', 'BitAnd', *sorted((x, Int(c)), key=lambda t: t.id))


def _biteq(t, v):
    """(x & c) == v as a conjunction of single-bit booleans, or None"""
    extra = 0
    if t.op == 'bits' and t.args[2] == 0:
        extra = t.args[1]
        t = t.args[0]
    if not (t.op == 'bin' and t.args[0] == 'BitAnd'):
        return None
    a, b = t.args[1:]
    if a.op == 'int':
        a, b = b, a
    if b.op != 'int' or a.op == 'int':
        return None
    c = b.args[0]
    if c < 0 or bin(c).count('1') > 8:
        return None
    if v & ~(c | extra) or extra & ~v:
        return FALSE
    r = TRUE
    k = 1
    while k <= c:
        if c & k:
            bt = T('bit', a, k)
            r = Bin('BitAnd', r, bt if v & k else Not(bt))
        k <<= 1
    return r


def Bin(op, a, b):
    if op in ('BitOr', 'BitAnd') and (a.op == 'int') != (b.op == 'int'):
        x, c = (a, b.args[0]) if b.op == 'int' else (b, a.args[0])
        return _bits(x, c, 0) if op == 'BitOr' else _bitand(x, c)
    if op == 'Eq' and (a.op == 'int') != (b.op == 'int'):
        x, c = (a, b.args[0]) if b.op == 'int' else (b, a.args[0])
        r = _biteq(x, c)
        if r is not None:
            return r
    if op == 'Lt' and a.op == 'int' and a.args[0] == 0:
        r = _biteq(b, 0)
        if r is not None:
            return Not(r)
    if op in ('Gt', 'Ge'):
        op, a, b = ('Lt' if op == 'Gt' else 'Le'), b, a
    if op == 'Ne':
        return Not(Bin('Eq', a, b))
    if a.op == 'int' and b.op == 'int':
        x, y = a.args[0], b.args[0]
        r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y,
             'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y,
             'Shl': lambda: x << (y & 63),
             'Div': lambda: x // y if y else None, 'Rem': lambda: x % y if y else None,
             'Lt': lambda: x < y, 'Le': lambda: x <= y, 'Eq': lambda: x == y}.get(op)
        r = r() if r else None
        if r is not None:
            return Bool(r) if isinstance(r, bool) else Int(r)
    if a.op == 'bool' and b.op == 'bool':
        x, y = a.args[0], b.args[0]
        r = {'BitAnd': x and y, 'BitOr': x or y, 'BitXor': x != y, 'Eq': x == y}.get(op)
        if r is not None:
            return Bool(r)
    if op in ('BitAnd', 'BitOr'):
        for p, q in ((a, b), (b, a)):
            if p.op == 'bool':
                if op == 'BitAnd':
                    return q if p.args[0] else FALSE
                return TRUE if p.args[0] else q
    if op == 'Eq':
        if a is b:
            return TRUE
        for p, q in ((a, b), (b, a)):
            if p.op == 'bool':
                return q if p.args[0] else Not(q)
        for p, q in ((a, b), (b, a)):
            if p.op == 'agg' and not p.args[3] and p.args[0] not in ('tuple',):
                if q.op == 'agg':
                    return Bool(q.args[1] == p.args[1])
                return T('isvar', q, p.args[1])
        if a.id > b.id:
            a, b = b, a
    elif op == 'Lt' and a is b:
        return FALSE
    elif op == 'Le' and a is b:
        return TRUE
    elif op == 'Add':
        for p, q in ((a, b), (b, a)):
            if p.op == 'int' and p.args[0] == 0:
                return q
        if a.id > b.id:
            a, b = b, a
    elif op == 'Sub':
        if b.op == 'int' and b.args[0] == 0:
            return a
        if a is b:
            return Int(0)
        # (x + c) - c
        if a.op == 'bin' and a.args[0] == 'Add' and b in a.args[1:]:
            x, y = a.args[1:]
            return y if x is b else x
    elif op in ('Mul', 'BitAnd', 'BitOr', 'BitXor'):
        if a.id > b.id:
            a, b = b, a
    return T('bin', op, a, b)


def IsVar(t, v):
    if t.op == 'agg':
        return Bool(t.args[1] == v)
    return T('isvar', t, v)


# ---------------------------------------------------------------- places
# place = (root, projs); root = ('local', fid, n) | ('ptr', Term) | ('tmp', key)
# proj  = ('f', name) | ('v', variant) | ('i', Term|'*') | ('k', Term) | ('d',) | ('m',) | ('sl', tag, Term)

def sub(place, *projs):
    return (place[0], place[1] + tuple(projs))


def RefTo(v):
    """reference to an anonymous value"""
    return Ref((('val', v), ()))


def elem(place, ix):
    """place of element ix of a vector / slice place (sub-slices are resolved to their parent)"""
    root, projs = place
    if projs and projs[-1][0] == 'sl':
        _, kind, off = projs[-1]
        if ix == '*':
            return elem((root, projs[:-1]), '*')
        return elem((root, projs[:-1]), Bin('Add', off, ix) if off is not None else ix)
    return (root, projs + (('i', ix),))


def field(place, *names):
    return (place[0], place[1] + tuple(('f', n) for n in names))


def has_prefix(p, pre):
    return p[0] == pre[0] and len(p[1]) >= len(pre[1]) and p[1][:len(pre[1])] == pre[1]


def show_place(p):
    root, projs = p
    if root[0] == 'local':
        s = '%s#%s' % (root[2], root[1])
    elif root[0] == 'ptr':
        s = '*%s' % show(root[1])
    elif root[0] == 'val':
        s = '<%s>' % show(root[1])
    else:
        s = 'tmp%s' % (root[1],)
    for q in projs:
        if q[0] == 'f':
            s += '.' + q[1]
        elif q[0] == 'v':
            s += '@' + q[1]
        elif q[0] in 'ik':
            s += '[%s%s]' % ('key ' if q[0] == 'k' else '', q[1] if q[1] == '*' else show(q[1]))
        elif q[0] == 'd':
            s += '^'
        elif q[0] == 'm':
            s += '!'
        else:
            s += str(q)
    return s


def show(t, depth=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            if len(t) == 2 and isinstance(t[0], tuple) and len(t[0]) in (2, 3) and t[0][0] in ('local', 'ptr', 'tmp', 'val') and isinstance(t[1], tuple):
                return show_place(t)
            return '(%s)' % ', '.join(show(x, depth + 1) for x in t)
        return str(t)
    if depth > 12:
        return '…'
    o, a = t.op, t.args
    s = lambda x: show(x, depth + 1)
    if o == 'int':
        if a[0] == IMAX:
            return 'isize::MAX'
        if a[0] == IMIN:
            return 'isize::MIN'
        return str(a[0])
    if o in ('bool', 'str'):
        return str(a[0])
    if o == 'agg':
        if a[0] == 'tuple':
            return '(%s)' % ', '.join(s(x) for x in a[3])
        n = short(a[0])
        n = a[1] if a[1] == n or n in ('Option', 'Result') else '%s::%s' % (n, a[1])
        if not a[3]:
            return n
        return '%s{%s}' % (n, ', '.join('%s: %s' % (k, s(v)) for k, v in zip(a[2], a[3])))
    if o == 'ref':
        return '&' + show_place(a[0])
    if o == 'init':
        return show_place(a[0])
    if o == 'sym':
        return str(a[0])
    if o == 'fld':
        return '%s.%s' % (s(a[0]), a[1])
    if o == 'down':
        return '%s@%s' % (s(a[0]), a[1])
    if o == 'bin':
        sym = {'Add': '+', 'Sub': '-', 'Mul': '*', 'Lt': '<', 'Le': '<=', 'Eq': '=='}.get(a[0], a[0])
        return '(%s %s %s)' % (s(a[1]), sym, s(a[2]))
    if o == 'not':
        return '!' + s(a[0])
    if o == 'isvar':
        return '%s is %s' % (s(a[0]), a[1])
    if o in ('phi', 'join', 'fresh'):
        return '%s<%s>' % (o, ','.join(show(x) if isinstance(x, (Term,)) or (isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) and x[0] and x[0][0] in ('local', 'ptr', 'tmp')) else (str(x) if isinstance(x, str) else '') for x in a).strip(','))
    return '%s(%s)' % (o, ', '.join(s(x) if isinstance(x, Term) else show(x) for x in a))


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(x.args)


# ---------------------------------------------------------------- facts
def length(t):
    """the number of elements of something: never negative"""
    return t.op == 'flen' or t.op == 'call' and t.args[0] == 'len'


class Facts:
    """Conjunction of: order relations between terms, enum variants, opaque booleans."""
    __slots__ = ('rel', 'var', 'bl')

    def __init__(self, rel=None, var=None, bl=None):
        self.rel = rel if rel is not None else {}
        self.var = var if var is not None else {}
        self.bl = bl if bl is not None else {}

    def copy(self):
        return Facts(dict(self.rel), dict(self.var), dict(self.bl))

    # -- order
    def rel_of(self, a, b):
        if a is b:
            return EQ
        if a.op == 'int' and b.op == 'int':
            return LT if a.args[0] < b.args[0] else GT if a.args[0] > b.args[0] else EQ
        if b.op == 'int' and b.args[0] <= 0 and length(a):
            return self._rel(a, b) & (EQ | GT if b.args[0] == 0 else GT)
        if a.op == 'int' and a.args[0] <= 0 and length(b):
            return self._rel(a, b) & (EQ | LT if a.args[0] == 0 else LT)
        return self._rel(a, b)

    def _rel(self, a, b):
        if a.id < b.id:
            return self.rel.get((a, b), ALL)
        m = self.rel.get((b, a), ALL)
        return (m & EQ) | (GT if m & LT else 0) | (LT if m & GT else 0)

    def constrain(self, a, b, mask):
        m = self.rel_of(a, b) & mask
        for x, y, k in ((a, b, GT), (b, a, LT)):      # a maximum is never below one of its arguments
            if x.op in ('max', 'min') and any(z is y for z in x.args):
                m &= EQ | (k if x.op == 'max' else GT + LT - k)
        if m == 0:
            return False
        if a is b or (a.op == 'int' and b.op == 'int'):
            return True
        for x, y, up in ((a, b, m), (b, a, (m & EQ) | (GT if m & LT else 0) | (LT if m & GT else 0))):
            # x <= min(..) bounds x by each argument, x >= max(..) too
            if y.op == 'max' and not up & LT or y.op == 'min' and not up & GT:
                if not all(z is x or self.constrain(x, z, up) for z in y.args if z is not x or not up & EQ):
                    return False
        # integer bounds shared through a common constant: x<=c1 / x>=c2 conflicts
        if a.id < b.id:
            self.rel[(a, b)] = m
        else:
            self.rel[(b, a)] = (m & EQ) | (GT if m & LT else 0) | (LT if m & GT else 0)
        if b.op == 'int' or a.op == 'int':
            x = a if b.op == 'int' else b
            if not self._int_ok(x):
                return False
        return True

    def _int_ok(self, x):
        lo, hi, ne, eq = None, None, set(), None
        for (p, q), m in self.rel.items():
            if p is x and q.op == 'int':
                c = q.args[0]
            elif q is x and p.op == 'int':
                c = p.args[0]
                m = (m & EQ) | (GT if m & LT else 0) | (LT if m & GT else 0)
            else:
                continue
            if m == EQ:
                if eq is not None and eq != c:
                    return False
                eq = c
            if not m & GT:
                h = c if m & EQ else c - 1
                hi = h if hi is None else min(hi, h)
            if not m & LT:
                l = c if m & EQ else c + 1
                lo = l if lo is None else max(lo, l)
            if not m & EQ:
                ne.add(c)
        if eq is not None:
            if (lo is not None and eq < lo) or (hi is not None and eq > hi) or eq in ne:
                return False
        if lo is not None and hi is not None and lo > hi:
            return False
        return True

    # -- entailment (syntactic closure, no solver)
    def _neigh(self, a):
        for (p, q), m in self.rel.items():
            if p is a:
                yield q, m
            elif q is a:
                yield p, (m & EQ) | (GT if m & LT else 0) | (LT if m & GT else 0)

    def le(self, a, b, strict=False, _d=0, _seen=None):
        """do the facts entail a <= b (a < b when strict)?"""
        if a is b:
            return not strict
        if a.op == 'int' and b.op == 'int':
            return a.args[0] < b.args[0] if strict else a.args[0] <= b.args[0]
        if not strict:
            if a.op == 'int' and a.args[0] == IMIN or b.op == 'int' and b.args[0] == IMAX:
                return True
        m = self.rel_of(a, b)
        if not (m & GT) and (not strict or not (m & EQ)):
            return True
        if a.op == 'min' and any(self.le(x, b, strict, _d + 1, _seen) for x in a.args):
            return True
        if b.op == 'max' and any(self.le(a, x, strict, _d + 1, _seen) for x in b.args):
            return True
        if a.op == 'max' and all(self.le(x, b, strict, _d + 1, _seen) for x in a.args):
            return True
        if b.op == 'min' and all(self.le(a, x, strict, _d + 1, _seen) for x in b.args):
            return True
        if _d > 4:
            return False
        seen = _seen or frozenset()
        for c, mm in self._neigh(a):
            if c in seen or mm & GT:
                continue
            st = not (mm & EQ)
            if self.le(c, b, strict and not st, _d + 1, seen | {a}):
                return True
        return False

    def lt(self, a, b):
        return self.le(a, b, True)

    # -- variants
    def variant(self, t):
        if t.op == 'agg':
            return t.args[1]
        v = self.var.get(t)
        if v and v[0] == 'is':
            return v[1]
        if t.op == 'with':
            heads = {p[:1] for p, _ in t.args[1]}
            if () not in heads:             # writing inside a variant does not change it
                for h in heads:
                    if h[0][0] == 'v':
                        return h[0][1]
                return self.variant(t.args[0])
        if t.op == 'cmp':
            m = self.rel_of(*t.args)
            return {LT: 'Less', EQ: 'Equal', GT: 'Greater'}.get(m)
        if t.op == 'crev':
            v = self.variant(t.args[0])
            return {'Less': 'Greater', 'Greater': 'Less', 'Equal': 'Equal', None: None}[v]
        return None

    def assume_variant(self, t, name, pos=True, universe=None):
        if t.op == 'agg':
            return (t.args[1] == name) == pos
        if t.op == 'with' and self.variant(t) is not None:
            return (self.variant(t) == name) == pos
        if t.op == 'cmp':
            bit = {'Less': LT, 'Equal': EQ, 'Greater': GT}.get(name)
            if bit:
                return self.constrain(t.args[0], t.args[1], bit if pos else ALL & ~bit)
        if t.op == 'crev':
            nm = {'Less': 'Greater', 'Greater': 'Less'}.get(name, name)
            return self.assume_variant(t.args[0], nm, pos, universe)
        if t.op == 'cthen' and pos and name == 'Equal':
            return all(self.assume_variant(x, 'Equal') for x in t.args)
        if t.op == 'optmap':
            # same variant as its source
            return self.assume_variant(t.args[0], name, pos, universe)
        if t.op == 'join' or t.op == 'phi':
            pass
        cur = self.var.get(t)
        if cur and cur[0] == 'is':
            return (cur[1] == name) == pos
        ex = cur[1] if cur else frozenset()
        if pos:
            if name in ex:
                return False
            self.var[t] = ('is', name)
            return True
        ex = ex | {name}
        if universe is None and name in ('Some', 'None'):
            universe = ('Some', 'None')
        if universe is None and name in ('Ok', 'Err'):
            universe = ('Ok', 'Err')
        if universe:
            rest = [u for u in universe if u not in ex]
            if not rest:
                return False
            if len(rest) == 1:
                self.var[t] = ('is', rest[0])
                return True
        self.var[t] = ('not', ex)
        return True

    # -- booleans
    def truth(self, t):
        """True/False if decided, else None"""
        if t.op == 'bool':
            return t.args[0]
        if t.op == 'not':
            v = self.truth(t.args[0])
            return None if v is None else not v
        if t.op == 'bin':
            o, a, b = t.args
            if o in ('Lt', 'Le', 'Eq'):
                m = self.rel_of(a, b)
                yes = {'Lt': LT, 'Le': LT | EQ, 'Eq': EQ}[o]
                if m & ~yes == 0:
                    return True
                if m & yes == 0:
                    return False
                if o == 'Le' and self.le(a, b):
                    return True
                if o == 'Lt' and self.le(b, a):
                    return False
                if o == 'Le' and self.lt(b, a):
                    return False
                if o == 'Lt' and self.lt(a, b):
                    return True
            if o == 'BitAnd':
                x, y = self.truth(a), self.truth(b)
                if x is False or y is False:
                    return False
                if x and y:
                    return True
            if o == 'BitOr':
                x, y = self.truth(a), self.truth(b)
                if x or y:
                    return True
                if x is False and y is False:
                    return False
        if t.op == 'isvar':
            v = self.variant(t.args[0])
            if v is not None:
                return v == t.args[1]
            c = self.var.get(t.args[0])
            if c and c[0] == 'not' and t.args[1] in c[1]:
                return False
            if t.args[0].op == 'cmp':
                m = self.rel_of(*t.args[0].args)
                bit = {'Less': LT, 'Equal': EQ, 'Greater': GT}.get(t.args[1])
                if bit and not m & bit:
                    return False
        return self.bl.get(t)

    def assume(self, t, val, universe=None):
        cur = self.truth(t)
        if cur is not None:
            return cur == val
        if t.op == 'not':
            return self.assume(t.args[0], not val)
        if t.op == 'bin':
            o, a, b = t.args
            if o in ('Lt', 'Le', 'Eq'):
                yes = {'Lt': LT, 'Le': LT | EQ, 'Eq': EQ}[o]
                return self.constrain(a, b, yes if val else ALL & ~yes)
            if (o == 'BitAnd' and val) or (o == 'BitOr' and not val):
                return self.assume(a, val) and self.assume(b, val)
            if o == 'BitAnd' and not val:
                x, y = self.truth(a), self.truth(b)
                if x:
                    return self.assume(b, False)
                if y:
                    return self.assume(a, False)
            if o == 'BitOr' and val:
                if self.truth(a) is False:
                    return self.assume(b, True)
                if self.truth(b) is False:
                    return self.assume(a, True)
        if t.op == 'isvar':
            return self.assume_variant(t.args[0], t.args[1], val, universe)
        self.bl[t] = val
        return True

    def meet_join(self, other):
        """facts valid in both (for joins)"""
        rel = {}
        for k, m in self.rel.items():
            n = other.rel.get(k)
            if n is None:
                # maybe entailed on the other side
                continue
            m |= n
            if m != ALL:
                rel[k] = m
        var = {}
        for k, v in self.var.items():
            o = other.var.get(k)
            if o == v:
                var[k] = v
        bl = {k: v for k, v in self.bl.items() if other.bl.get(k) == v}
        return Facts(rel, var, bl)

    def key(self):
        return (frozenset(self.rel.items()), frozenset(self.var.items()), frozenset(self.bl.items()))

    def dump(self):
        out = []
        sym = {1: '<', 2: '==', 4: '>', 3: '<=', 6: '>=', 5: '!='}
        for (a, b), m in self.rel.items():
            if m != ALL:
                out.append('%s %s %s' % (show(a), sym[m], show(b)))
        for t, v in self.var.items():
            out.append('%s %s %s' % (show(t), v[0], v[1] if v[0] == 'is' else sorted(v[1])))
        for t, v in self.bl.items():
            out.append('%s = %s' % (show(t), v))
        return out
