"""C25: the names of the options."""
import re
from .terms import *
from .engine import Ev, LoopObj
from .q import *


def plain_template(t):
    """a format string that is one bare placeholder"""
    return 'b"\\\\xc0\\\\x00"' in show(t) or 'b"\\xc0\\x00"' in show(t)


def literal(t):
    s = show(t)
    m = re.match(r'^[&*]*"((?:[^"\\]|\\.)*)"$', s)
    if m:
        return m.group(1)
    if t.op == 'fmt':
        if t.args[0] in ('from_str', 'from_str_nonconst', 'new_display') and len(t.args) == 2:
            return literal(t.args[1])
        if t.args[0] == 'new' and len(t.args) == 3 and plain_template(t.args[1]) and t.args[2].op == 'agg' and len(t.args[2].args[3]) == 1:
            return literal(t.args[2].args[3][0])
    return None


def input_text(t):
    """the text given to the parser, as it is"""
    return t.op in ('init', 'ref', 'sym') and not any(x.op in ('call', 'fresh', 'phi', 'join') for x in subterms(t)) and literal(t) is None


def table_entry(t):
    """t = table[i].k for a constant table: the table and k"""
    if t.op == 'fld' and t.args[0].op == 'idx' and t.args[0].args[0].op == 'agg':
        return t.args[0].args[0], t.args[0].args[2], t.args[1]
    if t.op == 'idx' and t.args[0].op == 'agg':
        return t.args[0], t.args[2], None


def entries(t, ix):
    """the values a term takes over the rows of the table it indexes with ix"""
    e = table_entry(t)
    if e is None or e[1] is not ix:
        return None
    rows = [r.args[0] if r.op in ('ref', '&') else r for r in e[0].args[3]]
    if e[2] is None:
        return rows
    out = []
    for r in rows:
        if r.op != 'agg':
            return None
        names = [str(x) for x in (r.args[2] or range(len(r.args[3])))]
        if str(e[2]) not in names:
            return None
        out.append(r.args[3][names.index(str(e[2]))])
    return out


def eqs(f):
    for (a, b), m in f.rel.items():
        if m == EQ:
            yield pointer(a), pointer(b)


def pointer(t):
    """the reference itself, for what it points to"""
    if t.op == 'init' and not t.args[0][1] and t.args[0][0][0] == 'ptr' and isinstance(t.args[0][0][1], Term):
        return t.args[0][0][1]
    return t


def possible(f):
    """no text is two different names at once"""
    d = {}
    for a, b in eqs(f):
        for x, y in ((a, b), (b, a)):
            if literal(y) is not None and literal(x) is None and d.setdefault(x, literal(y)) != literal(y):
                return False
    return True


def values(adt, v, f):
    """the variant a term is: itself, or what the path knows of it"""
    w = variant(adt, v)
    if w is None and f.var.get(v, (0, 0))[0] == 'is':
        w = f.var[v][1]
    return w


def variant(adt, t):
    if t.op == 'agg' and t.args[0].split('::')[-1] == adt.split('::')[-1] and not t.args[3]:
        return t.args[1]


def parsed(ctx, adt, fid):
    """[(text, variant)] in order, [problems]"""
    eng, outs = ctx.run(fid)
    m, bad, n = [], [], 0
    for st, ret in outs:
        n += 1
        if ret.op == 'agg' and ret.args[1] == 'Err':
            continue
        if not (ret.op == 'agg' and ret.args[1] == 'Ok'):
            bad.append('the result %s is not recognised' % short_show(ret))
            continue
        v = ret.args[3][0]
        if not possible(st.facts):
            continue
        hit = False
        for a, b in eqs(st.facts):
            for x, y in ((a, b), (b, a)):
                if not input_text(x):
                    continue
                s = literal(y)
                if s is not None:
                    w = values(adt, v, st.facts)
                    if w is not None:
                        hit = True
                        m.append((s, w))
                        break
                    continue
                e = table_entry(y)
                if e:
                    ss = entries(y, e[1])
                    vs = entries(v, e[1]) if table_entry(v) else [v] * len(ss)
                    if vs and len(vs) == len(ss):
                        ps = [(literal(p), variant(adt, w)) for p, w in zip(ss, vs)]
                        if all(p and w for p, w in ps):
                            hit = True
                            m += ps
                            break
        if not hit:
            bad.append("%s is accepted for a text that is not one fixed name" % short_show(v))
    return m, bad, n


def printed(ctx, adt, variants, fid):
    eng, outs = ctx.run(fid)
    m, bad, n = {}, [], 0
    for st, ret in outs:
        for q in enum_paths(st):
            n += 1
            vs = [v for v in variants if not excluded(q, v)]
            ws = []
            for x in q.items:
                if isinstance(x, LoopObj):
                    ws.append(None)
                elif isinstance(x, Ev) and x.kind == 'write_fmt':
                    ws.append(literal(x.val))
                elif isinstance(x, Ev) and x.kind == 'call' and x.name == 'Display::fmt':
                    ws.append(literal(x.vals[0]))
            if None in ws or not ws:
                bad.append('what is printed for %s is not one fixed name' % ', '.join(vs))
                continue
            for v in vs:
                m.setdefault(v, set()).add(''.join(ws))
    return m, bad, n


def excluded(q, v):
    for f in q.f.fs:
        for t, (k, s) in f.var.items():
            if t.op == 'init' and not any(x[0] == 'f' for x in t.args[0][1]):
                if k == 'is' and s != v or k == 'not' and v in s:
                    return True
    return False


# ------------------------------------------------------------------ defaults of the command line
def const_of(r, loc, depth=4):
    if loc[0] == 'const':
        c = loc[1]
        return c[1].strip('"') if c[0] == 'lit' and c[1].startswith('"') else None
    if depth == 0:
        return None
    k = loc[1][0]
    for bl in r['blocks']:
        for s in bl['s']:
            if s[0][0] == k and not s[0][1]:
                rv = s[1]
                if rv[0] == 'use':
                    return const_of(r, rv[1], depth - 1)
                if rv[0] == 'ref':
                    return const_of(r, ['copy', rv[2]], depth - 1)
    return None


def parser_type(p, cl):
    """the type a validator closure parses"""
    b = p.bodies.get(cl)
    if b is None:
        return None
    for bl in b['blocks']:
        t = bl['t']
        if t['k'] == 'call' and t['f'][0] == 'const' and t['f'][1][0] == 'fn':
            i = t['f'][1][1]
            if i.get('path', '').endswith('FromStr::from_str') and i['args']:
                return i['args'][0]
            if i.get('name') == 'parse' and i['args']:
                return i['args'][0]
    return None


def defaults(p):
    """(argument, type, default text, site) of every command-line option with a default"""
    for f, r in p.bodies.items():
        chain = {}
        for bl in r['blocks']:
            t = bl['t']
            if t['k'] != 'call' or t['f'][0] != 'const' or t['f'][1][0] != 'fn':
                continue
            i = t['f'][1][1]
            if not i.get('path', '').startswith('clap::args::arg::Arg'):
                continue
            d = t['d'][0]
            if i['name'] == 'with_name':
                chain[d] = dict(name=const_of(r, t['a'][0]))
            elif t['a'] and t['a'][0][0] in ('move', 'copy'):
                c = dict(chain.get(t['a'][0][1][0], {}))
                if i['name'] in ('validator',) and i['args'] and i['args'][0][0] == 'closure':
                    c['ty'] = parser_type(p, i['args'][0][1])
                if i['name'] in ('default_value', 'default_value_os'):
                    c['default'] = const_of(r, t['a'][1])
                    c['site'] = t['s']
                    yield c
                chain[d] = c


NUM = re.compile(r'^[+-]?[0-9]+$')


def names(ctx):
    p = ctx.prog()
    parse = {}
    n = 0
    for adt in p.implementors('FromStr'):
        a = p.adts.get(adt)
        if not a or not a['enum'] or any(v[1] for v in a['variants']):
            continue
        short = adt.split('::')[-1]
        variants = [v[0] for v in a['variants']]
        pf = p.find(name='from_str', trait='FromStr', self_adt=short)
        df = p.find(name='fmt', trait='Display', self_adt=short)
        ctx.ob('C25.impl', short, len(pf) == 1, 'no parser to analyse')
        if len(pf) != 1:
            continue
        n += 1
        site = p.bodies[pf[0]].get('span', '')
        m, bad, k = parsed(ctx, adt, pf[0])
        ctx.ob('C25.parse', short + ' fixed names', not bad, bad and bad[0], site)
        ctx.ob('C25.parse', short + ' some', k > 0 and bool(m), 'no path of the parser accepts a fixed name', site)
        first = {}
        for s, v in m:
            first.setdefault(s, v)
        parse[adt] = first
        if len(df) != 1:
            continue
        site = p.bodies[df[0]].get('span', '')
        pr, bad, k = printed(ctx, adt, variants, df[0])
        ctx.ob('C25.print', short + ' fixed names', not bad, bad and bad[0], site)
        ctx.ob('C25.print', short + ' some', k > 0, 'nothing is printed', site)
        known = set()
        for v in variants:
            w = sorted(pr.get(v, ()))
            ctx.ob('C25.print', '%s %s' % (short, v), len(w) == 1 or bool(bad), '%s is printed as %s' % (v, w), site)
            for x in w:
                ctx.ob('C25.back', '%s %s' % (short, v), first.get(x) == v, '%s is printed as "%s", which is parsed as %s' % (v, x, first.get(x)), site)
                known.add(x)
        for s, v in sorted(first.items()):
            ctx.ob('C25.only', '%s "%s"' % (short, s), s in known or bool(bad), '"%s" is accepted although no value is printed so' % s, site)
    ctx.ob('C25.some', 'option types', n >= 3, 'only %d option types were found' % n)
    nd = 0
    for c in defaults(p):
        nd += 1
        ty, v = c.get('ty'), c.get('default')
        what = 'default of %s' % c.get('name')
        if ty and ty[0] == 'adt' and ty[1] in parse:
            ctx.ob('C25.default', what, v in parse[ty[1]], 'the default "%s" is not an accepted name' % v, c.get('site', ''))
        elif ty and ty[0] == 'int':
            ctx.ob('C25.default', what, v is not None and NUM.match(v), 'the default "%s" is not a number' % v, c.get('site', ''))
    ctx.ob('C25.default', 'some', nd > 0, 'no default of the command line was found')
