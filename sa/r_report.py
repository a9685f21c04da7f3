"""C26: the experiment runner, its report, and the example programs that call it."""
import ast
import re
from .terms import *
from .engine import Ev, LoopObj
from .q import *
from .r_names import literal as plain_literal
from .r_states import EXAMPLES

KINDS = [('NAME', 'name'), ('SOLVER', 'solver'), ('STATUS', 'status'), ('DURATION', 'duration'), ('RAM', 'memory'), ('BEST', 'best'),
         ('LB', 'lb'), ('UB', 'ub'), ('GAP', 'gap'), ('NODES B&B', 'explored'), ('NODES DD', 'explored_dd')]
READ = {'lb': 'best_lower_bound', 'ub': 'best_upper_bound', 'explored': 'get_explored', 'explored_dd': 'get_explored_dd'}


def last(name):
    return name.split(':')[-1]


def template(b):
    """the pieces of a format string: literal text or argument index"""
    out, i, nxt = [], 0, 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            return out
        if n < 0x80:
            out.append(b[i:i + n].decode())
            i += n
        elif n == 0x80:
            k = b[i] | b[i + 1] << 8
            out.append(b[i + 2:i + 2 + k].decode())
            i += 2 + k
        else:
            for bit, w in ((1, 4), (2, 2), (4, 2)):
                if n & bit:
                    i += w
            if n & 8:
                nxt = b[i] | b[i + 1] << 8
                i += 2
            out.append(nxt)
            nxt += 1
    return None


def pieces(t, calls, depth=6):
    """a formatted value as a sequence of texts and terms, or None"""
    if depth == 0:
        return None
    s = show(t)
    m = re.match(r'^[&*]*(?:const\()?("(?:[^"\\]|\\.)*")\)?$', s)
    if m:
        return [ast.literal_eval(m.group(1))]
    if t.op == 'fmt':
        if t.args[0] in ('from_str', 'from_str_nonconst'):
            return pieces(t.args[1], calls, depth - 1)
        if t.args[0] in ('new_display', 'new_debug', 'new_lower_exp'):
            r = pieces(t.args[1], calls, depth - 1)
            return r if r is not None else [t.args[1]]
        if t.args[0] == 'new' and len(t.args) == 3:
            m = re.search(r'(b"(?:[^"\\]|\\.)*")', show(t.args[1]))
            args = t.args[2]
            if not m or args.op != 'agg':
                return None
            tm = template(ast.literal_eval(m.group(1)))
            if tm is None:
                return None
            out = []
            for x in tm:
                if isinstance(x, str):
                    out.append(x)
                elif x < len(args.args[3]):
                    r = pieces(args.args[3][x], calls, depth - 1)
                    if r is None:
                        return None
                    out += r
            return out
        return None
    e = calls.get(t)
    if e is not None and (last(e.name) == 'format' or e.name.endswith('fmt::format')) and e.vals:
        return pieces(e.vals[0], calls, depth - 1)
    return [t]


def columns(ps):
    """the columns of a line: lists of texts and terms between the bars"""
    cols = [[]]
    for x in ps:
        if isinstance(x, str):
            parts = x.split('|')
            for k, y in enumerate(parts):
                if k:
                    cols.append([])
                if y.strip():
                    cols[-1].append(y.strip())
        else:
            cols[-1].append(x)
    return cols


def header_kinds(ctx, p):
    ids = p.find(name='resolution_header')
    if not ids:
        ids = [f for f, r in p.bodies.items() if r.get('kind') != 'Closure' and r['argc'] == 0 and r.get('vis') and 'header' in r.get('name', '')]
    ctx.ob('C26.header', 'function', len(ids) == 1, 'the function that prints the header was not found')
    out = None
    for f in ids:
        site = p.bodies[f].get('span', '')
        eng, outs = ctx.run(f, cut='runner')
        for st, ret in outs:
            for q in enum_paths(st):
                cols = line(q)
                ks = [kind_of(''.join(map(str, c))) for c in cols] if cols else None
                ok = ks and None not in ks and len(set(ks)) == len(KINDS)
                ctx.ob('C26.header', 'columns', ok, 'the header is %s' % (cols and [''.join(map(str, c)) for c in cols]), site)
                if ok:
                    out = ks
    return out


def kind_of(s):
    s = re.sub(r'[_\s]+', ' ', s.strip().upper())
    for w, k in KINDS:
        if s.startswith(w):
            return k


def line(q, after=None):
    calls = {}
    ps = []
    on = after is None
    for x in q.items:
        if isinstance(x, Ev):
            if x is after:
                on = True
            if x.kind == 'call':
                calls[x.ret] = x
            if x.kind == 'print' and on:
                r = pieces(x.val, calls)
                if r is None:
                    return None
                ps += r
    return columns(ps) if ps else None


# ------------------------------------------------------------------ the runner
def params(p, fid):
    """parameter name by role"""
    b = p.bodies[fid]
    out = {}
    for i in range(1, b['argc'] + 1):
        ty, name = b['locals'][i][0], b['locals'][i][1]
        r = role(ty)
        if r:
            out.setdefault(r, []).append((i, name or 'arg%d' % i))
    return out


def role(ty):
    if ty[0] == 'adt':
        n = ty[1].split('::')[-1]
        if n == 'Option':
            return 'threads'
        return {'Duration': 'timeout', 'SolverType': 'solver', 'CutsetType': 'cutset'}.get(n)
    if ty[0] == 'ref' and ty[1] == ['str']:
        return 'name'
    if ty[0] == 'ref' and ty[1][0] == 'param':
        return 'user'


def runner_fn(p):
    for f, r in sorted(p.bodies.items()):
        if r.get('kind') == 'Closure' or not r.get('vis'):
            continue
        ro = params(p, f)
        if all(len(ro.get(k, ())) == 1 for k in ('solver', 'cutset', 'timeout', 'threads', 'name')):
            yield f


def fields(p, t, out, depth=6):
    """all fields of a built value: (type, field type, term)"""
    if t.op == 'agg' and depth:
        a = p.adts.get(t.args[0])
        tys = {}
        if a:
            for v in a['variants']:
                for f in v[1]:
                    tys[f[0]] = f[1]
        for n, x in zip(t.args[2], t.args[3]):
            out.append((t.args[0], n, tys.get(n), x))
            fields(p, x, out, depth - 1)
    elif t.op in ('mutex', 'arc', 'boxed') and depth:
        for x in t.args:
            if isinstance(x, Term):
                fields(p, x, out, depth - 1)
    return out


def runner(ctx):
    p = ctx.prog()
    hk = header_kinds(ctx, p)
    n = 0
    for f in runner_fn(p):
        b = p.bodies[f]
        site = b.get('span', '')
        ro = {k: v for k, v in params(p, f).items()}
        arg = {k: T('sym', v[0][1]) for k, v in ro.items()}
        eng, outs = ctx.run(f, cut='runner')
        seen = {}
        for st, ret in outs:
            for q in enum_paths(st):
                n += 1
                one_run(ctx, p, eng, q, st, ret, arg, [T('sym', x[1]) for x in ro.get('user', ())], hk, site, seen)
        ctx.ob('C26.select', 'both solvers', len(seen) >= 2, 'only %s can be run' % sorted(seen), site)
    ctx.ob('C26.run', 'some', n >= 2, 'the runner was not found')
    mains(ctx, p)


def mentions(t, x):
    return any(y is x for y in subterms(t) if isinstance(y, Term))


def one_run(ctx, p, eng, q, st, ret, arg, user, hk, site, seen):
    which = None
    for f in q.f.fs:
        k, s = f.var.get(arg['solver'], (None, None))
        if k == 'is':
            which = s
        elif k == 'not' and which is None:
            a = p.adts.get('engineering::xputils::SolverType')
            left = [v[0] for v in a['variants'] if v[0] not in s] if a else []
            which = left[0] if len(left) == 1 else None
    name = which or 'any'
    calls, order = {}, {}
    runs = []
    for i, x in enumerate(q.items):
        if isinstance(x, Ev) and x.kind == 'call':
            order[id(x)] = i
            calls.setdefault(x.ret, []).append((i, x))
            if last(x.name) in ('maximize', 'maximize_with_interrupt'):
                runs.append((i, x))
    ctx.ob('C26.run', name, len(runs) == 1 and last(runs[0][1].name) == 'maximize_with_interrupt', 'the solver is run %d times' % len(runs), site)
    if len(runs) != 1 or len(runs[0][1].vals) < 2:
        return
    at, run = runs[0]
    solver, cl = run.vals[0], run.vals[1]
    seen.setdefault(which, 0)
    # the solver that was selected
    sv = solver
    while sv.op == 'boxed':
        sv = st.read(sv.args[0])
    adt = sv.args[0].split('::')[-1] if sv.op == 'agg' else None
    ctx.ob('C26.select', name, adt is not None and which is not None and ('Barrier' in adt) == (which == 'Barrier'),
           'solver type %s runs %s' % (which, adt or short_show(sv)), run.site)
    if sv.op == 'agg':
        fs = fields(p, sv, [])
        cut = [x for _, n, ty, x in fs if ty and ty[0] == 'adt' and ty[1].endswith('::CutsetType')]
        ctx.ob('C26.config', name + ' cutset', cut and all(x is arg['cutset'] for x in cut), 'the cutset type of the solver is %s' % [show(x) for x in cut], run.site)
        top = [x for o, n, ty, x in fs if o == sv.args[0] and ty == ['int', 'usize']]
        ctx.ob('C26.config', name + ' threads', top and all(threads_ok(x, arg['threads'], q) for x in top), 'the number of threads is %s' % [show(x)[:150] for x in top], run.site)
        for u in user:
            got = any(root_is(x, u) for _, n, ty, x in fs)
            ctx.ob('C26.config', '%s %s' % (name, show(u)), got, 'the solver is not given %s' % show(u), run.site)
    # the timeout
    ok, why, start = timeout(ctx, eng, cl, arg['timeout'], calls, at)
    ctx.ob('C26.timeout', name, ok, why, run.site)
    # the report
    cols = line(q, run)
    ctx.ob('C26.report', name + ' printed', cols is not None, 'what is printed after the run is not recognised', site)
    if cols is None or hk is None:
        return
    ctx.ob('C26.report', name + ' columns', len(cols) == len(hk), '%d columns are printed under a header of %d' % (len(cols), len(hk)), site)
    if len(cols) != len(hk):
        return
    solv = SolverView(q, at, run, calls)
    for k, c in zip(hk, cols):
        ok, why = column(k, c, arg, solv, q)
        ctx.ob('C26.report', '%s %s' % (name, k), ok, why, site)


def root_is(t, u):
    if t is u:
        return True
    return t.op == 'ref' and t.args[0] == (('ptr', u), ())


def threads_ok(t, th, q):
    if t.op == 'max':
        xs = [x for x in t.args if not (x.op == 'int' and int(x.args[0]) <= 1)]
        return len(xs) == 1 and threads_ok(xs[0], th, q)
    s = show(t)
    some = None
    for f in q.f.fs:
        k, v = f.var.get(th, (None, None))
        if k == 'is':
            some = v
    if some == 'Some':
        return s == '%s@Some.0' % show(th)
    if some == 'None':
        return t.op == 'call' and t.args[0] == 'num_cpus'
    return False


class SolverView:
    def __init__(self, q, at, run, calls):
        self.q, self.at, self.run, self.calls = q, at, run, calls

    def reads(self, t, method):
        """t is what a query of the solver answered after the run"""
        for i, e in self.calls.get(t, ()):
            if last(e.name) == method and i > self.at and e.vals and self.same(e.vals[0]):
                return True
        return False

    def same(self, v):
        return v is self.run.vals[0] or v.op == 'fresh' and 'maximize_with_interrupt' in show(v) or show(v) == show(self.run.vals[0])


def column(k, c, arg, sv, q):
    what = ' '.join(short_show(x) if isinstance(x, Term) else repr(x) for x in c) or 'nothing'
    if k == 'best':
        for i, e in ((i, e) for es in sv.calls.values() for i, e in es):
            if last(e.name) == 'best_value' and i > sv.at and sv.same(e.vals[0]):
                v = q.f.variant(e.ret)
                if v == 'Some' and len(c) == 1 and isinstance(c[0], Term) and show(c[0]) == show(e.ret) + '@Some.0':
                    return True, ''
                if v == 'None' and c == ['not found']:
                    return True, ''
        return False, 'the best value is printed as %s' % what
    if len(c) != 1 or not isinstance(c[0], Term):
        return False, 'the %s is printed as %s' % (k, what)
    t = c[0]
    ok = False
    if k == 'name':
        ok = t is arg['name'] or show(t).lstrip('*&') == show(arg['name'])
    elif k == 'solver':
        ok = t is arg['solver'] or show(t).lstrip('*&') == show(arg['solver'])
    elif k == 'status':
        ok = t is sv.run.ret
    elif k == 'duration':
        ok = duration(t, sv)
    elif k == 'memory':
        ok = any(last(e.name).startswith('peak_usage') and i > sv.at for i, e in sv.calls.get(t, ()))
    elif k == 'gap':
        ok = any(last(e.name) == 'gap' and len(e.vals) == 2 and (sv.reads(e.vals[0], READ['lb']) and sv.reads(e.vals[1], READ['ub']) or
                                                                   sv.reads(e.vals[1], READ['lb']) and sv.reads(e.vals[0], READ['ub'])) for i, e in sv.calls.get(t, ()))
    else:
        ok = sv.reads(t, READ[k])
    return ok, 'the %s is printed as %s' % (k, what)


def duration(t, sv):
    """seconds of the time from before the run to after it"""
    for i, e in sv.calls.get(t, ()):
        if last(e.name) in ('as_secs_f32', 'as_secs_f64') and e.vals:
            for j, el in sv.calls.get(e.vals[0], ()):
                if last(el.name) == 'elapsed' and j > sv.at:
                    return any(last(nw.name) == 'now' and h < sv.at for h, nw in sv.calls.get(el.vals[0], ()))
    return False


def timeout(ctx, eng, cl, to, calls, at):
    if cl.op != 'closure':
        return False, 'the interruption condition %s is not recognised' % short_show(cl), None
    e2, outs = ctx.run(cl.args[0])
    caps = cl.args[1]
    b = e2.prog.body(cl.args[0])
    env = ('ptr', T('sym', b.locals[1][1] or 'arg1'))

    def cap(t):
        if t.op == 'init':
            (r, projs) = t.args[0]
            if r[0] == 'ptr' and projs and projs[0][0] == 'f' and str(projs[0][1]).isdigit() and int(projs[0][1]) < len(caps) and r == env:
                v = caps[int(projs[0][1])]
                return v
            if r[0] == 'ptr' and isinstance(r[1], Term) and not projs:
                return cap(r[1])
        return t

    def is_to(t):
        c = cap(t)
        return c is to or c.op == 'ref' and show(c).lstrip('&*') == show(to)

    def is_start(t):
        c = cap(t)
        if any(last(e.name) == 'now' and i < at for i, e in calls.get(c, ())):
            return c
        return None
    ok = bool(outs)
    start = None
    for st, ret in outs:
        cs = {}
        for q in enum_paths(st):
            for x in q.items:
                if isinstance(x, Ev) and x.kind == 'call':
                    cs.setdefault(x.ret, x)
        good = False
        for t, sense in atoms(ret, st):
            a, bb, strict = t
            # a < b (or a <= b)
            e = cs.get(bb)
            if sense and is_to(a) and e is not None and last(e.name) == 'elapsed' and is_start(e.vals[0]) is not None:
                good = True
        if not good:
            return False, 'the run is interrupted when %s' % short_show(ret), None
    return ok, 'the interruption condition never answers', start


def atoms(ret, st):
    """comparisons a < b, a <= b the answer is, with the answer they give"""
    if ret.op == 'not':
        for (a, b, s), v in atoms(ret.args[0], st):
            yield (a, b, s), not v
            yield (b, a, not s), v
    elif ret.op == 'bin' and ret.args[0] in ('Lt', 'Le'):
        yield (ret.args[1], ret.args[2], ret.args[0] == 'Lt'), True


# ------------------------------------------------------------------ the example programs
def mains(ctx, lib):
    rf = list(runner_fn(lib))
    if not rf:
        return
    ro = params(lib, rf[0])
    fname = lib.bodies[rf[0]]['name']
    for prog in EXAMPLES:
        p = ctx.prog(prog)
        ids = p.find(name='main')
        ctx.ob('C26.main', prog, len(ids) == 1, 'no main function')
        n = 0
        for f in ids:
            site = p.bodies[f].get('span', '')
            eng, outs = ctx.run(f, prog=prog, cut='runner')
            for st, ret in outs:
                for q in enum_paths(st):
                    args = [x for x in q.items if isinstance(x, Ev) and x.kind == 'call' and last(x.name) == 'from_args']
                    runs = [x for x in q.items if isinstance(x, Ev) and x.kind == 'call' and last(x.name) == fname]
                    heads = [x for x in q.items if isinstance(x, Ev) and x.kind == 'call' and last(x.name) == 'resolution_header']
                    if not args:
                        ctx.ob('C26.main', prog + ' options', False, 'the options are not read', site)
                        continue
                    A = args[0].ret
                    v = q.f.variant(A)
                    ctx.ob('C26.main', '%s %s' % (prog, v), (len(runs), len(heads)) == ((1, 0) if v == 'Solve' else (0, 1)),
                           'option %s: the runner is called %d times, the header printed %d times' % (v, len(runs), len(heads)), site)
                    for e in runs:
                        n += 1
                        for r, what in (('solver', 'solver'), ('cutset', 'cutset'), ('threads', 'threads')):
                            got = e.vals[ro[r][0][0] - 1]
                            ctx.ob('C26.forward', '%s %s' % (prog, r), show(got) == '%s@Solve.%s' % (show(A), what), 'the runner is given %s for %s' % (short_show(got), what), e.site)
                        got = e.vals[ro['timeout'][0][0] - 1]
                        ok = any(isinstance(x, Ev) and x.kind == 'call' and x.ret is got and last(x.name) == 'from_secs' and same_number(x.vals[0], '%s@Solve.timeout' % show(A)) for x in q.items)
                        ctx.ob('C26.forward', '%s timeout' % prog, ok, 'the runner is given %s as timeout' % short_show(got), e.site)
        ctx.ob('C26.forward', prog + ' some', n > 0, 'the runner is never called')


def same_number(t, s):
    while t.op == 'cast':
        t = t.args[0]
    return show(t) == s


def status_names(ctx):
    """the status column: its names tell a proof from an interruption"""
    from .r_names import printed
    p = ctx.prog()
    n = 0
    for fid in p.find(name='fmt', trait='Display'):
        s = p.bodies[fid].get('self')
        a = p.adts.get(s[1]) if s and s[0] == 'adt' else None
        vs = [v[0] for v in a['variants']] if a and a['enum'] else []
        if 'Proved' not in vs:
            continue
        n += 1
        short, site = s[1].split('::')[-1], p.bodies[fid].get('span', '')
        m, bad, k = printed(ctx, s[1], vs, fid)
        ctx.ob('C26.status', short + ' fixed names', not bad, bad and bad[0], site)
        names = {v: m.get(v, set()) for v in vs}
        for v in vs:
            others = set().union(*[names[w] for w in vs if w != v])
            ctx.ob('C26.status', '%s %s' % (short, v), bool(bad) or len(names[v]) == 1 and not names[v] & others,
                   '%s is printed as %s' % (v, sorted(names[v])), site)
            for x in names[v]:
                proof = any(w in x.lower() for w in ('prov', 'optim', 'closed', 'solved', 'complete'))
                ctx.ob('C26.status', '%s %s tells a proof' % (short, v), proof == (v == 'Proved'), '%s is printed as "%s"' % (v, x), site)
    ctx.ob('C26.status', 'some', n > 0, 'no printer of the resolution status was found')
