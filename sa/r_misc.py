"""Rules about the value arithmetic, the node flags, the names of options, the bit sets and the matrix."""
import re
from .terms import *
from . import q as Q

LIB = 'engineering'
SIGNED = ('isize', 'i64')   # the type of values and bounds, and the integers of the same width
SIZE = dict(i8=8, i16=16, i32=32, i64=64, isize=64, i128=128, u8=8, u16=16, u32=32, u64=64, usize=64, u128=128)
BAD_FN = re.compile(r'^(wrapping_|overflowing_|unchecked_|strict_|carrying_|borrowing_|abs$|pow$|checked_.*_unwrap|neg$|sub$|add$|mul$|add_assign$|sub_assign$|mul_assign$|neg_assign$|isqrt$|ilog|div_|rem_|next_)')


def int_of(ty):
    while ty and ty[0] == 'ref':
        ty = ty[1]
    return ty[1] if ty and ty[0] == 'int' else None


def op_ty(o):
    """type of a MIR operand"""
    if o[0] in ('copy', 'move'):
        return o[1][2] if len(o[1]) > 2 else None
    if o[0] == 'const':
        c = o[1]
        return c[2] if c[0] in ('opaque', 'int', 'scalar') and len(c) > 2 else None
    return None


def arith_sites(r):
    """(what, site) of every operation of a body on signed values that may overflow, wrap, abort or truncate"""
    bad, n = [], 0
    checked = {}
    for bl in r['blocks']:
        for dst, rv, *site in bl['s']:
            site = site[0] if site else ''
            k = rv[0]
            if k == 'bin':
                op = rv[1].replace('WithOverflow', '').replace('Unchecked', '')
                ty = int_of(rv[4]) if len(rv) > 4 else None
                if ty in SIGNED and op in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'Shl', 'Shr'):
                    bad.append(('%s on %s' % (op, ty), site))
            elif k == 'un' and rv[1] == 'Neg':
                ty = int_of(dst[2])
                if ty in SIGNED and rv[2][0] != 'const':
                    bad.append(('negation of %s' % ty, site))
            elif k == 'cast' and rv[1] == 'IntToInt':
                a, b = int_of(op_ty(rv[2])), int_of(rv[3])
                if a is None or b is None or rv[2][0] == 'const':
                    continue
                if a in SIGNED and (b not in SIZE or SIZE[b] < SIZE[a] or b[0] == 'u'):
                    bad.append(('cast from %s to %s' % (a, b), site))
                elif b in SIGNED and (SIZE.get(a, 999) > SIZE[b] or (a[0] == 'u' and SIZE.get(a, 999) >= SIZE[b])):
                    bad.append(('cast from %s to %s' % (a, b), site))
        t = bl['t']
        if t['k'] != 'call':
            continue
        f = t['f']
        if f[0] != 'const' or f[1][0] != 'fn':
            continue
        f = f[1][1]
        path, rpath, name = f.get('path', ''), f.get('rpath') or '', f.get('name', '')
        tys = [int_of(op_ty(a)) for a in t['a']]
        if name.startswith('saturating_') and tys and tys[0] in SIGNED:
            n += 1
        prim = 'core::num::<impl i' in path or 'core::ops::arith' in path or 'core::ops::arith' in rpath or '::num::<impl i' in rpath
        if prim and tys and tys[0] in SIGNED:
            if BAD_FN.match(name):
                bad.append(('%s on %s' % (name, tys[0]), t['s']))
            elif name.startswith('checked_'):
                checked[t['d'][0]] = (name, tys[0])
        if name in ('sum', 'product') and 'iter' in path and int_of(t['d'][2] if len(t['d']) > 2 else None) in SIGNED:
            bad.append(('%s of signed values' % name, t['s']))
        if name in ('unwrap', 'expect', 'unwrap_unchecked') and t['a'] and t['a'][0][0] in ('copy', 'move') and t['a'][0][1][0] in checked:
            bad.append(('%s of %s' % ((name,) + checked[t['a'][0][1][0]][:1]), t['s']))
        if name in ('unwrap_or', 'unwrap_or_default') and t['a'] and t['a'][0][0] in ('copy', 'move') and t['a'][0][1][0] in checked and (len(t['a']) == 1 or t['a'][1][0] == 'const'):
            bad.append(('%s replaced by one constant on overflow in either direction' % checked[t['a'][0][1][0]][0], t['s']))
    return bad, n


def arithmetic(ctx):
    """C13"""
    ctx.rule('C13.arith', 'No library function adds, subtracts, multiplies, negates, shifts or narrows a signed value with an operation that may overflow, wrap, abort or truncate.')
    ctx.rule('C13.some', 'The library does combine values (with saturating operations).')
    ctx.rule('C13.gap', 'A function from two bounds to a ratio subtracts the smaller magnitude from the larger and never divides by zero.')
    p = ctx.prog()
    total = 0
    for r in p.raw():
        if r.get('derived'):
            continue
        bad, n = arith_sites(r)
        total += n
        ctx.functions.add(r['id'])
        has = any(int_of(l[0]) in SIGNED for l in r['locals'])
        if has or bad:
            ctx.ob('C13.arith', re.sub(r'[\d:]+$', '', r['path']), not bad, '; '.join('%s at %s' % b for b in bad[:4]), r.get('span', ''))
    ctx.ob('C13.some', 'saturating operations', total >= 6, 'only %d' % total)
    for r in p.raw():
        ls = r['locals']
        if r.get('derived') or ls[0][0][0] != 'float' or not any(int_of(ls[i][0]) == 'isize' for i in range(1, r['argc'] + 1)):
            continue
        e, outs = ctx.run(r['id'])
        name = r.get('name') or 'closure'
        for st, v in outs:
            for P in Q.enum_paths(st):
                check_gap(ctx, name, P)


def extremes(t):
    """(kind, members) when t is the larger / smaller of some values"""
    return (t.op, set(t.args)) if t.op in ('max', 'min') else (None, None)


def check_gap(ctx, name, P):
    for e in P.evs('uarith', 'arith', 'fdiv'):
        f = P.f
        if e.kind == 'fdiv':
            den = e.b
            while den.op == 'cast':
                den = den.args[0]
            ok = f.truth(Bin('Eq', den, Int(0))) is False or f.lt(Int(0), den) or nonzero_magnitude(den, f) or larger_magnitude(den, P)
            ctx.ob('C13.gap', name + ' divisor', ok, 'the divisor %s may be zero' % show(den), Q.loc(e))
        else:
            ka, ma = extremes(e.a)
            kb, mb = extremes(e.b)
            ok = e.op == 'Sub' and e.kind == 'uarith' and (f.le(e.b, e.a) or (ka == 'max' and (e.b in ma or (kb == 'min' and ma & mb))) or (kb == 'min' and e.a in mb))
            ctx.ob('C13.gap', name + ' difference', ok, '%s of %s and %s may overflow' % (e.op, show(e.a), show(e.b)), Q.loc(e))


def nonzero_magnitude(den, f):
    """the larger of the magnitudes of two different values"""
    k, m = extremes(den)
    if k != 'max' or len(m) != 2:
        return False
    a, b = [x.args[-1] if x.op in ('abs', 'unsigned_abs', 'call', 'uf') else None for x in m]
    return a is not None and b is not None and (f.truth(Bin('Eq', a, b)) is False or f.truth(Bin('Eq', b, a)) is False)


def larger_magnitude(den, P):
    """den is the magnitude of one bound, and at least that of a different one (which was subtracted from it)"""
    for e in P.evs('uarith'):
        if e.op == 'Sub' and den in (e.a, e.b) and len(den.args) and len(e.b.args):
            o = e.b if e.a is den else e.a
            if o.op == den.op and P.f.le(o, den) and P.f.truth(Bin('Eq', o.args[-1], den.args[-1])) is False:
                return True
    return False


# ---------------------------------------------------------------- C24: node flags
class Unknown(Exception):
    pass


def bit_eval(t, env):
    """value of a word or boolean term under an assignment: env['w'] the initial word, env[name] the arguments"""
    o = t.op
    s = show(t)
    if s in ('self.0', '*self.0'):
        return env['w']
    if s in env:
        return env[s]
    if o == 'int':
        return t.args[0]
    if o == 'bool':
        return t.args[0]
    if o == 'bit':
        return bool(bit_eval(t.args[0], env) & t.args[1])
    if o == 'bits':
        b, st, cl = t.args
        return (bit_eval(b, env) & ~cl) | st
    if o == 'not':
        return not bit_eval(t.args[0], env)
    if o == 'inv':
        return ~bit_eval(t.args[0], env)
    if o == 'cast':
        return int(bit_eval(t.args[0], env))
    if o == 'call' and t.args[0] == 'not' and len(t.args) == 2:
        return ~bit_eval(t.args[1], env)
    if o == 'call' and t.args[0] in ('count_ones',) and len(t.args) == 2:
        return bin(bit_eval(t.args[1], env)).count('1')
    if o in ('adt', 'ctor') or o == 'agg':
        raise Unknown()
    if o == 'call' and t.args[0] in ('wrapping_sub', 'wrapping_add', 'wrapping_neg', 'wrapping_mul'):
        x = [bit_eval(a, env) for a in t.args[1:]]
        return {'wrapping_sub': lambda: x[0] - x[1], 'wrapping_add': lambda: x[0] + x[1], 'wrapping_neg': lambda: -x[0], 'wrapping_mul': lambda: x[0] * x[1]}[t.args[0]]()
    if o == 'bin':
        a, b = bit_eval(t.args[1], env), bit_eval(t.args[2], env)
        f = {'BitAnd': lambda: a & b, 'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b, 'Eq': lambda: a == b, 'Lt': lambda: a < b, 'Le': lambda: a <= b,
             'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b, 'Shl': lambda: a << b, 'Shr': lambda: a >> b}.get(t.args[0])
        if f:
            return f()
    raise Unknown()


def lit_ok(P, env):
    """may the path P be taken under the assignment?"""
    for f in P.f.fs:
        for t, v in f.bl.items():
            try:
                if bool(bit_eval(t, env)) != v:
                    return False
            except Unknown:
                pass
        for (a, b), m in f.rel.items():
            try:
                x, y = bit_eval(a, env), bit_eval(b, env)
            except Unknown:
                continue
            if not m & (1 if x < y else 2 if x == y else 4):
                return False
    return True


def flag_methods(ctx):
    p = ctx.prog()
    ids = {}
    for r in p.raw():
        s = r.get('self')
        if s and s[0] == 'adt' and s[1].split('::')[-1] == 'NodeFlags' and not r.get('derived') and r['kind'] != 'Closure':
            ids[r['name']] = r
    return ids


class Summary:
    """all paths of a method of the flags: facts, returned term, final word"""

    def __init__(self, ctx, r):
        self.e, outs = ctx.run(r['id'])
        self.paths = []
        for st, v in outs:
            for P in Q.enum_paths(st):
                ws = [x for x in P.evs('write') if show_place(x.place) in ('*self.0', '*self')]
                self.paths.append((P, v, ws[-1].val if ws else None))

    def results(self, env, word):
        """possible results under an assignment (None: unknown)"""
        out = set()
        for P, v, w in self.paths:
            if not lit_ok(P, env):
                continue
            try:
                if word:
                    x = env['w'] if w is None else bit_eval(word_of(w), env)
                else:
                    x = bit_eval(word_of(v), env)
                out.add(x if isinstance(x, bool) else x & 0xff)
            except Unknown:
                out.add(None)
        return out


def word_of(t):
    return t.args[3][0] if t.op == 'agg' and len(t.args[3]) == 1 else t


def node_flags(ctx):
    """C24"""
    ctx.rule('C24.query', 'Every query of the node flags is true exactly when its own bit is on (exact: and the relaxed bit off), whatever the other bits; no two flags share a bit.')
    ctx.rule('C24.set', 'Every setter makes its own bit equal to its argument and leaves every other bit as it was.')
    ctx.rule('C24.new', 'New flags carry exactly the exact bit or exactly the relaxed bit.')
    ms = flag_methods(ctx)
    own = {}
    tab = {}
    for n, r in sorted(ms.items()):
        if not n.startswith('is_') or r['locals'][0][0] != ['bool'] or r['argc'] != 1:
            continue
        s = Summary(ctx, r)
        ctx.functions.add(r['id'])
        tab[n[3:]] = t = [s.results({'w': w}, False) for w in range(256)]
        ks = [k for k in range(8) if t[1 << k] == {True}]
        known = all(x in ({True}, {False}) for x in t)
        ctx.ob('C24.query', n + ' one bit', known and t[0] == {False} and len(ks) == 1,
               'the query is true for the words %s' % [1 << k for k in ks] if known else 'the query could not be summarised', r['span'])
        if len(ks) == 1:
            own[n[3:]] = ks[0]
    for x, k in own.items():
        same = [y for y in own if y != x and own[y] == k]
        ctx.ob('C24.query', 'bit of ' + x, not same, 'shares its bit with %s' % ', '.join(same))
        r = own.get('relaxed')
        bad = [w for w in range(256) if tab[x][w] != {bool(w >> k & 1 and not (x == 'exact' and r is not None and w >> r & 1))}]
        ctx.ob('C24.query', 'value of ' + x, not bad, 'wrong answer for the word %s' % (bad[:1] or ''), ms['is_' + x]['span'])
    for n, r in sorted(ms.items()):
        if not n.startswith('set_') or r['argc'] != 2 or r['locals'][2][0] != ['bool']:
            continue
        x = n[4:]
        ctx.ob('C24.set', n + ' has a query', x in own, 'no single bit answers is_%s' % x, r['span'])
        if x not in own:
            continue
        ctx.functions.add(r['id'])
        s = Summary(ctx, r)
        arg = r['locals'][2][1] or '_2'
        bad = None
        for w in range(256):
            for v in (False, True):
                want = (w | 1 << own[x]) if v else (w & ~(1 << own[x]))
                got = s.results({'w': w, arg: v}, True)
                if got != {want}:
                    bad = 'word %d set to %s gives %s' % (w, v, sorted(got, key=str))
        ctx.ob('C24.set', n, bad is None, bad or '', r['span'])
    ex, rx = own.get('exact'), own.get('relaxed')
    if ex is not None and rx is not None:
        for n, env, want in (('new_exact', {}, 1 << ex), ('new_relaxed', {}, 1 << rx), ('default', {}, 1 << ex), ('new', True, 1 << rx), ('new', False, 1 << ex)):
            r = ms.get(n)
            if r is None:
                continue
            s = Summary(ctx, r)
            e = dict(w=0)
            if env != {}:
                e[r['locals'][1][1] or '_1'] = env
            got = s.results(e, False)
            ctx.ob('C24.new', '%s%s' % (n, '' if env == {} else ' %s' % env), got == {want}, 'new flags are %s instead of %d' % (sorted(got, key=str), want), r['span'])
    ctx.floor('C24.query', 12)
    ctx.floor('C24.set', 6)
    ctx.floor('C24.new', 3)


# ------------------------------------------------------------------ defaults the user relies on
def fixed_width(ctx):
    """the width heuristic of the library gives the width it was made with"""
    p = ctx.prog()
    n = 0
    for fid in p.find(name='max_width', trait='WidthHeuristic'):
        s = p.bodies[fid].get('self')
        a = p.adts.get(s[1]) if s and s[0] == 'adt' else None
        if not a or len(a['variants']) != 1 or len(a['variants'][0][1]) != 1 or not s[1].startswith(LIB):
            continue
        n += 1
        fld = a['variants'][0][1][0][0]
        eng, outs = ctx.run(fid)
        short = s[1].split('::')[-1]
        ctx.ob('C11.fixed', short + ' some', bool(outs), 'the width heuristic never returns', p.bodies[fid].get('span', ''))
        for st, v in outs:
            for q in Q.enum_paths(st):
                ok = own_field(v, fld)
                ctx.ob('C11.fixed', short, ok, 'the width is %s, not the one it was made with' % show(v)[:80], p.bodies[fid].get('span', ''))
    ctx.ob('C11.fixed', 'some', n > 0, 'no fixed width heuristic was found')


def own_field(v, fld):
    return show(v) in ('*self.%s' % fld, 'self.%s' % fld)


def default_bound(ctx):
    """a problem that gives no rough bound has the neutral one"""
    p = ctx.prog()
    n = 0
    for fid, r in p.bodies.items():
        if r.get('name') != 'estimate' or r['argc'] != 2 or r.get('self'):
            continue
        n += 1
        eng, outs = ctx.run(fid)
        ctx.ob('C33.default', 'rough bound some', bool(outs), 'the default rough bound never returns', r.get('span', ''))
        for st, v in outs:
            ctx.ob('C33.default', 'rough bound', neutral(v), 'the default rough bound is %s, not the largest value' % show(v)[:80], r.get('span', ''))


def neutral(v):
    return v.op == 'int' and v.args[0] == IMAX
