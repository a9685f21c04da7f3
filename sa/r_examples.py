"""C34, C35: merging and stepping through the states of the example problems."""
from .terms import *
from .engine import Ev, LoopObj, project, with_read
from .q import *
from .r_solver import delta, loc
from .r_states import state_types

SETS = 'bitset_fixed::BitSet'


# ------------------------------------------------------------------ vocabulary
def uncast(t):
    while isinstance(t, Term) and t.op == 'cast':
        t = t.args[0]
    return t


def get(t, *names):
    for n in names:
        t = project(t, n if isinstance(n, tuple) else ('f', n))
    return t


def payload(x):
    if x.op == 'with':
        return with_read(x, (('v', 'Some'), ('f', '0')))
    return project(project(x, ('v', 'Some')), ('f', '0'))


def trail(t):
    """(root, projections) of a term read from somewhere"""
    out = []
    while isinstance(t, Term):
        if t.op == 'init':
            return ('init',) + t.args[0][:1], tuple(t.args[0][1]) + tuple(out)
        if t.op == 'fld':
            out.insert(0, ('f', t.args[1]))
        elif t.op == 'down':
            out.insert(0, ('v', t.args[1]))
        elif t.op == 'idx':
            out.insert(0, (t.args[1], t.args[2]))
        elif t.op == 'deref':
            out.insert(0, ('d',))
        elif t.op == 'cloned':
            pass
        elif t.op == 'ref' and not isinstance(t.args[0], Term):
            return t.args[0][0], tuple(t.args[0][1]) + tuple(out)
        else:
            break
        t = t.args[0]
    return ('term', t), tuple(out)


def fields(t):
    """names of the fields read, innermost last"""
    return tuple(q[1] for q in trail(t)[1] if q[0] == 'f')


class Example:
    def __init__(self, ctx, name):
        self.ctx, self.name, self.p = ctx, name, ctx.prog(name)
        self.state = state_types(self.p)[0]
        self.fields = {f[0]: f[1] for f in self.p.adts[self.state]['variants'][0][1]}
        self.must = [f for f, ty in self.fields.items() if ty[0] == 'adt' and ty[1] == SETS]
        self.maybe = [f for f, ty in self.fields.items() if ty[0] == 'adt' and ty[1].endswith('option::Option') and SETS in str(ty)]
        self.pooled = [f for f, ty in self.fields.items() if ty[0] == 'adt' and ty[1] in self.p.adts and self.enum_with_set(ty[1])]

    def enum_with_set(self, adt):
        a = self.p.adts[adt]
        return a['enum'] and any(SETS in str(f[1]) for v in a['variants'] for f in v[1])

    def outs(self, method, trait='Problem'):
        for fid in sorted(self.p.find(name=method, trait=trait)):
            e, outs = self.ctx.run(fid, prog=self.name)
            return fid, e, outs
        return None, None, []

    def params(self, fid):
        b = self.p.body(fid)
        return b


def examples(ctx):
    for n in ('psp', 'srflp', 'tsptw'):
        yield Example(ctx, n)


# ------------------------------------------------------------------ C35
def stage_of(ex):
    """(stage field, +1 or -1, end term, offset of the variable) read off next_variable; None if not understood"""
    fid, e, outs = ex.outs('next_variable')
    found = set()
    for st, v in outs:
        for t in subterms(v):
            if t.op == 'agg' and t.args[0] and t.args[0].split('::')[-1] == 'Variable':
                x = uncast(t.args[3][0])
                off = 0
                if x.op == 'bin' and x.args[0] in ('Sub', 'Add') and x.args[2].op == 'int':
                    off = x.args[2].args[0] * (1 if x.args[0] == 'Add' else -1)
                    x = uncast(x.args[1])
                elif x.op == 'bin' and x.args[0] == 'Add' and x.args[1].op == 'int':
                    off = x.args[1].args[0]
                    x = uncast(x.args[2])
                fs = [f for f in fields(x) if f in ex.fields]
                if fs:
                    found.add((fs[-1], off))
                else:
                    found.add(None)
    if len(found) != 1 or None in found:
        return None
    (fld, off), = found
    _, _, nv = ex.outs('nb_variables')
    n = nv[0][1] if nv else None
    if n is None:
        return None
    return (fld, 1, n, off) if off == 0 else (fld, -1, Int(0), off) if off == -1 else None


def same_num(f, a, b):
    a, b = uncast(a), uncast(b)
    return a is b or f.eq(a, b)


def stage_rule(ctx):
    ctx.rule('C35.variable', 'the next variable is that of the stage of a state of the layer, and there is none exactly when the layer is empty or that stage is the last one')
    ctx.rule('C35.start', 'the initial state is at the first stage')
    ctx.rule('C35.stage', 'every transition leads exactly one stage further')
    for ex in examples(ctx):
        s = stage_of(ex)
        ctx.ob('C35.variable', ex.name + ' stage', s is not None, 'the variable is not the stage of a state of the layer')
        if s is None:
            continue
        fld, step, end, off = s
        first = Int(0) if step == 1 else ex.outs('nb_variables')[2][0][1]
        fid, e, outs = ex.outs('next_variable')
        kinds = set()
        for st, v in outs:
            f = FactBag([st.facts])
            none = f.isvar(v, 'None') is True or is_agg(v, None, 'None')
            some = is_agg(v, None, 'Some')
            stages = stage_terms(ex, f, fld)
            if none:
                empty = not stages
                last = any(ends(f, x, end, step) for x in stages)
                kinds.add('none' if last else 'empty')
                ctx.ob('C35.variable', ex.name + ' none', last or empty and layer_empty(f), 'no variable is given although the stage is not known to be the last one')
            elif some:
                kinds.add('some')
                x = [t for t in subterms(v) if fields(t)[-1:] == (fld,)]
                ctx.ob('C35.variable', ex.name + ' some', bool(x) and any(not_ended(f, y, end, step) for y in x), 'a variable is given although the stage may be the last one')
            else:
                ctx.ob('C35.variable', ex.name + ' known', False, 'the variable is %s' % short_show(v))
        ctx.ob('C35.variable', ex.name + ' kinds', {'none', 'some'} <= kinds, 'there is always, or never, a variable')
        # start
        fid, e, outs = ex.outs('initial_state')
        for st, v in outs:
            for x, f in initial_values(ctx, ex, v, fld, st):
                ctx.ob('C35.start', ex.name, same_num(f, x, first), 'the initial state is at stage %s' % short_show(x))
        fid, e, outs = ex.outs('transition')
        for st, v in outs:
            x = get(v, fld)
            old = old_field(ex, x, fld)
            ctx.ob('C35.stage', ex.name, old is not None and delta(uncast(old), uncast_sum(x)) == step, 'the stage becomes %s' % short_show(x))


def uncast_sum(x):
    x = uncast(x)
    if x.op == 'bin':
        return Bin(x.args[0], uncast(x.args[1]), uncast(x.args[2]))
    return x


def old_field(ex, x, fld):
    for t in subterms(x):
        r, p = trail(t)
        if p and p[-1] == ('f', fld) and (r[0] == 'init' or r[1].op in ('sym', 'param', 'deref', 'fld', 'join', 'phi', 'fresh')):
            return t
    return None


def stage_terms(ex, f, fld):
    out = set()
    for g in f.fs:
        for (a, b), m in g.rel.items():
            for x in (a, b):
                for t in subterms(x):
                    if fields(t)[-1:] == (fld,):
                        out.add(t)
        for t in list(g.bl):
            for y in subterms(t):
                if fields(y)[-1:] == (fld,):
                    out.add(y)
    return out


def variants(x, end):
    """the comparisons made may be on widened values"""
    return [(a, b) for a in (x, T('cast', x, 'usize')) for b in {end, uncast(end), T('cast', uncast(end), 'usize')}]


def ends(f, x, end, step):
    return any(f.eq(a, b) or f.truth(Bin('Eq', a, b)) is True or (f.le(b, a) or f.lt(b, plus1(a)) if step == 1 else f.le(a, b) or f.lt(a, plus1(b))) for a, b in variants(x, end))


def not_ended(f, x, end, step):
    return any(f.truth(Bin('Eq', a, b)) is False or (f.lt(a, b) or f.le(plus1(a), b) if step == 1 else f.lt(b, a) or f.le(plus1(b), a)) for a, b in variants(x, end))


def plus1(x):
    return Int(x.args[0] + 1) if x.op == 'int' else Bin('Add', x, Int(1))


def layer_empty(f):
    return any(x == ('is', 'None') for g in f.fs for x in g.var.values())


def initial_values(ctx, ex, v, fld, st):
    """values the stage may have in the initial state, looked up in the constructors when it is stored in the problem"""
    x = get(v, fld)
    r, p = trail(x)
    if r[0] == 'init' and p and r[1] == ('ptr', r[1][1]):
        base = r[1][1]
        adt = self_adt(ex, base)
        if adt and p[0] != ('f', fld):
            n = 0
            for fid in sorted(ex.p.find(name='new', self_adt=adt)):
                e, outs = ctx.run(fid, prog=ex.name)
                for s2, w in outs:
                    n += 1
                    yield get(w, *p), FactBag([s2.facts])
            if n:
                return
    yield x, FactBag([st.facts])


def self_adt(ex, base):
    fid, e, outs = ex.outs('initial_state')
    ty = ex.p.bodies[fid]['locals'][1][0]
    while ty[0] == 'ref':
        ty = ty[1]
    return ty[1].split('::')[-1] if ty[0] == 'adt' else None


# -------- sets, element by element
def member(t, env):
    """is an arbitrary element e in the set?  env: callable on leaves -> bool (KeyError when unknown); 'hit' decides set operations on single elements"""
    if t.op == 'bs':
        o = t.args[0]
        if o == 'new':
            return False
        if o == 'set':
            h = env.hit(t.args[2])
            if h:
                return {TRUE: True, FALSE: False}[t.args[3]]
            return member(t.args[1], env)
        a, b = member(t.args[1], env), member(t.args[2], env)
        return {'and': a and b, 'or': a or b, 'xor': a != b}[o]
    if t.op == 'call' and t.args[0] == 'not':
        return not member(t.args[1], env)
    return env.leaf(t)


class Env:
    def __init__(self, leaf, hit):
        self.leaf, self.hit = leaf, hit


def transition_sets(ctx):
    ctx.rule('C35.sets', 'a transition removes exactly the decided element from the sets of what must and of what may still be done')
    ctx.rule('C35.position', 'where a state records a position, a transition moves it to the decided element')
    n = 0
    for ex in examples(ctx):
        fid, e, outs = ex.outs('transition')
        for st, v in outs:
            f = FactBag([st.facts])
            for fl in ex.pooled:
                x = get(v, fl)
                ctx.ob('C35.position', ex.name, is_agg(x, None, None) and len(x.args[3]) == 1 and decision_value(x.args[3][0]), 'the position becomes %s' % short_show(x))
            for fl in ex.must + ex.maybe:
                n += 1
                x = get(v, fl)
                if fl in ex.maybe:
                    old = [t for t in subterms(v) if t.op in ('init', 'fld') and fields(t)[-1:] == (fl,)]
                    if is_agg(x, None, 'None') or f.isvar(x, 'None') is True or any(x is o and f.isvar(o, 'None') is True for o in old):
                        kn = known_variant(st, fl)
                        ctx.ob('C35.sets', '%s %s none' % (ex.name, fl), kn != 'Some', 'what may be done is forgotten')
                        continue
                    x = payload(x)
                ok = True
                try:
                    for was in (False, True):
                        for dec in (False, True):
                            env = Env(lambda t: was if own_set(t, fl) else unknown(t), lambda i: dec if decision_value(i) else unknown(i))
                            ok = ok and member(x, env) == (was and not dec)
                except KeyError as err:
                    ok = False
                ctx.ob('C35.sets', '%s %s' % (ex.name, fl), ok, 'the set becomes %s' % short_show(x))
    ctx.ob('C35.sets', 'some', n > 0, 'no example has such sets')


def known_variant(st, fl):
    for t, k in st.facts.var.items():
        if fields(t)[-1:] == (fl,) and k[0] == 'is':
            return k[1]
    return None


def unknown(t):
    raise KeyError(show(t))


def own_set(t, fl):
    r, p = trail(t)
    names = [q for q in p if q[0] in ('f', 'v')]
    return names[-1:] == [('f', fl)] or names[-3:] == [('f', fl), ('v', 'Some'), ('f', '0')]


def decision_value(i):
    r, p = trail(uncast(i))
    return bool(p) and p[-1] == ('f', 'value')


def item_step(ctx):
    ctx.rule('C35.item', 'where a state records the next deadline of each item, a transition moves the decided item, and no other, to its previous demand and remembers it as the last one; idling changes nothing but the stage')
    n = 0
    for ex in examples(ctx):
        if ex.must:
            continue
        s = stage_of(ex)
        fld = s[0] if s else None
        vecs, ints = tables(ex), [g for g, ty in ex.fields.items() if ty[0] == 'int' and g != fld]
        fid, e, outs = ex.outs('transition')
        idle, made = None, []
        for st, v in outs:
            n += 1
            f = FactBag([st.facts])
            ws = [x for P in enum_paths(st) for x in P.evs('write') if [q for q in x.place[1] if q[0] == 'i'] and any(('f', g) in x.place[1] for g in vecs)]
            changed = [g for g in vecs + ints if not unchanged(get(v, g), g)]
            if not changed and not ws:
                ids = {y for g in f.fs for p in g.rel for x in p if decision_value(x) for y in p if y is not x and f.truth(Bin('Eq', x, y)) is True}
                idle = ids if idle is None else idle & ids
                continue
            made.append(f)
            ctx.ob('C35.item', ex.name + ' one', len(ws) == 1, '%d items are changed' % len(ws))
            for w in ws:
                i = [q[1] for q in w.place[1] if q[0] == 'i'][0]
                own = [t for t in subterms(w.val) if t.op in ('init', 'idx') and trail(t)[1][-1:] == (('i', i),) and set(fields(t)) & set(vecs)]
                ctx.ob('C35.item', ex.name + ' index', decision_value(i), 'the item changed is not the decided one', loc(w))
                ctx.ob('C35.item', ex.name + ' previous', bool(own) and any('demand' in y for t in subterms(w.val) for y in fields(t)) and reads_row(w.val, i), 'the deadline of the item does not become an earlier demand of that item but %s' % short_show(w.val), loc(w))
            for g in ints:
                ctx.ob('C35.item', ex.name + ' last', decision_value(get(v, g)), 'the last item becomes %s' % short_show(get(v, g)))
        ctx.ob('C35.item', ex.name + ' idle', idle is None or len(idle) > 0, 'nothing changes although the decision is not known to be to idle')
        for f in made:
            ctx.ob('C35.item', ex.name + ' produce', bool(idle) and any(f.truth(Bin('Eq', x, y)) is False for y in idle for g in f.fs for p in g.rel for x in p if decision_value(x)), 'an item is moved although the decision may be to idle')
    ctx.ob('C35.item', 'some', n > 0, 'no example has items')


def tables(ex):
    return [g for g, ty in ex.fields.items() if ty[0] == 'adt' and ty[1].endswith('Vec')]


def reads_row(t, i):
    """the matrix is read in the row of the item"""
    return any(x.op == 'bin' and x.args[0] == 'Mul' and any(uncast(y) is uncast(i) for y in x.args[1:]) for x in subterms(t)) or \
        any(x.op == 'agg' and x.args[0] in ('tuple', None) and x.args[3] and uncast(x.args[3][0]) is uncast(i) for x in subterms(t) if x.op == 'agg')


def unchanged(t, g):
    r, p = trail(t)
    return p[-1:] == (('f', g),) or t.op == 'cloned' and unchanged(t.args[0], g)


def domain(ctx):
    ctx.rule('C35.domain', 'every decision offered is for the variable asked for, and its value is an element of what must or may still be done (or, on a way that offers a single fixed value, known to be at the last stage); where a state records deadlines, it is an item whose deadline is not before the stage, or idling')
    ctx.rule('C35.all', 'once elements of what must be done are offered, all of them are')
    ctx.rule('C35.idle', 'idling is offered exactly when less remains to be done than there are stages left')
    n = 0
    for ex in examples(ctx):
        fid, e, outs = ex.outs('for_each_in_domain')
        idle, active, over = [], [], set()
        for owner, P in callback_paths(outs):
            offers = [x for x in P.items if isinstance(x, Ev) and x.kind == 'call' and x.name == 'callback']
            if owner is not None and any(own_set(src, g) for src in [set_of(loop_iter(owner))] if src is not None for g in ex.must) and (not offers or not keeps_all(loop_iter(owner))) and any_offer(owner):
                ctx.ob('C35.all', ex.name, False, 'an element of what must be done is left out', None)
            for x in offers:
                n += 1
                d = x.vals[0]
                var, val_ = get(d, 'var'), uncast(get(d, 'value'))
                ctx.ob('C35.domain', ex.name + ' variable', uncast(get(var, '0')) is get(T('sym', 'var'), '0') or show(var) == 'var', 'a decision is offered for another variable: %s' % short_show(var), loc(x))
                ok = False
                if not ex.must:
                    ok = owner is None and not list(subterms_ix(val_)) or due(ex, P.f, val_, var)
                    if owner is None and not list(subterms_ix(val_)):
                        idle.append(P)
                elif owner is not None:
                    it = loop_iter(owner)
                    src = set_of(it)
                    ok = src is not None and any(own_set(src, g) for g in ex.must + ex.maybe) and val_.op == 'elem'
                if not ok and val_.op == 'int':
                    s = stage_of(ex)
                    ok = s is not None and any(last_stage(P.f, t, s) for t in stage_terms(ex, P.f, s[0]))
                ctx.ob('C35.domain', ex.name + ' value', ok, 'the value offered, %s, is not an element of what must or may be done' % short_show(val_), loc(x))
        if not ex.must:
            never = [P for st, v in outs for P in enum_paths(st) if not any(isinstance(x, Ev) and x.kind == 'call' and x.name == 'callback' for x in P.items)]
            cand = set(t for P in idle for g in P.f.fs for p in g.rel for t in p)
            v = get(T('sym', 'var'), '0')
            v = [t for t in cand for u in subterms(t) if show(u) == 'var.0' for t in [u]][:1] or [v]
            v = v[0]
            ctx.ob('C35.idle', ex.name, bool(idle) and any(all(P.f.lt(x, plus1(v)) or P.f.le(x, v) for P in idle) and all(P.f.le(plus1(v), x) or P.f.lt(v, x) for P in never) for x in cand if x is not v),
                   'idling is offered, or not, on another condition')
    ctx.ob('C35.domain', 'some', n > 0, 'no decision is offered')


def any_offer(lo):
    return any(isinstance(x, Ev) and x.kind == 'call' and x.name == 'callback' for b in lo.backs for P in enum_paths(b, lo) for x in P.items)


def subterms_ix(t):
    return (x for x in subterms(t) if x.op in ('ix', 'elem', 'phi', 'join'))


def due(ex, f, val_, var):
    """the deadline recorded for the item is not before the stage"""
    for g in f.fs:
        for p in g.rel:
            for a, b in (p, p[::-1]):
                x, y = uncast(a), uncast(b)
                if fields(x) and fields(x)[-1] in tables(ex) and entry(x) is not None and uncast(entry(x)) is val_ and show(y) == show(var) + '.0' and f.le(b, a):
                    return True
    return False


def last_stage(f, t, s):
    fld, step, end, off = s
    e = uncast(end)
    for a in (t, T('cast', t, 'usize')):
        for b in {end, e}:
            for c in (Bin('Sub', b, Int(1)),):
                if f.eq(a, c) or f.truth(Bin('Eq', a, c)) is True:
                    return True
                x = Bin('Add', a, Int(1))
                if f.eq(x, b) or f.truth(Bin('Eq', x, b)) is True:
                    return True
    return False


def set_of(it):
    """the set a loop goes through, None if it leaves elements out"""
    if it is None or it.op != 'it' or it.args[0] != 'opaque' or it.args[1].op != 'bits':
        return None
    return it.args[1].args[0]


def callback_paths(outs):
    for st, v in outs:
        for P in enum_paths(st):
            yield None, P
    for lo in all_loops(outs):
        for b in lo.backs:
            for P in enum_paths(b, lo):
                yield lo, P


# ------------------------------------------------------------------ C34
def merge_loops(ex, outs):
    """the loop over the merged states, as (loop, root term of the state in each back state)"""
    for lo in all_loops(outs):
        roots = []
        for b in lo.backs:
            rs = [x.ret for P in enum_paths(b, lo) for x in P.items if isinstance(x, Ev) and x.kind == 'call' and x.name == 'Iterator::next' and 'dyn' in str(x.self_ty)]
            rs += [x for P in enum_paths(b, lo) for x in P.items if isinstance(x, Ev) and x.kind == 'next' and x.it.op == 'it' and x.it.args[0] == 'opaque' and x.it.args[1].op != 'bits']
            roots.append(rs)
        if roots and all(roots):
            return lo
    return None


def state_field(ex, t):
    """the field of the merged state a term is read from: (field, rest of the path)"""
    r, p = trail(t)
    names = [q for q in p if q[0] in ('f', 'v', 'i')]
    for k, q in enumerate(names):
        if q[0] == 'f' and q[1] in ex.fields and not (r[0] == 'init' and r[1][1] == 'self'):
            return q[1], tuple(names[k + 1:])
    return None, ()


class Fold:
    """the accumulators of the merge loop"""
    def __init__(self, lo):
        self.lo = lo
        self.of = {}
        for p in lo.havoc:
            h = lo.head.read(p)
            if h.op == 'phi':
                self.of[h] = p

    def atoms(self, ts):
        out, todo = [], [x for t in ts for x in subterms(t)]
        seen = set()
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            if t in self.of:
                out.append(t)
                for b in self.lo.backs:
                    todo.extend(subterms(b.read(self.of[t])))
        return sorted(out, key=lambda t: t.id)


def out_field(v, fl, f, maybe):
    x = get(v, fl)
    if maybe:
        if is_agg(x, None, 'None') or f.isvar(x, 'None') is True:
            return None
        return payload(x)
    return x


def merged_sets(ctx):
    ctx.rule('C34.must', 'what must be done in a merged state is exactly what must be done in all states merged')
    ctx.rule('C34.may', 'what may be done in a merged state is exactly what must or may be done in some of the states merged and need not be done in all')
    ctx.rule('C34.position', 'the position of a merged state is any of the positions of the states merged')
    n = 0
    for ex in examples(ctx):
        fid, e, outs = ex.outs('merge', 'Relaxation')
        lo = merge_loops(ex, outs)
        ctx.ob('C34.must', ex.name + ' loop', lo is not None, 'no loop over the merged states was found')
        if lo is None:
            continue
        fold = Fold(lo)
        for fl, rule in [(g, 'C34.must') for g in ex.must] + [(g, 'C34.may') for g in ex.maybe] + [(g, 'C34.position') for g in ex.pooled]:
            n += 1
            try:
                bad = explore(ex, fold, outs, fl, rule)
            except KeyError as err:
                bad = 'not understood: %s' % str(err)[:200]
            ctx.ob(rule, '%s %s' % (ex.name, fl), bad is None, bad or '')
    ctx.ob('C34.must', 'some', n > 0, 'no example has sets')


def set_out(ex, v, fl, f, rule):
    if rule == 'C34.position':
        x = get(v, fl)
        if is_agg(x, None, None):
            for a in x.args[3]:
                if a.op in ('bs', 'phi', 'call', 'with', 'join'):
                    return a
        return project(project(x, ('v', '*')), ('f', '0'))
    return out_field(v, fl, f, rule == 'C34.may')


def explore(ex, fold, outs, fl, rule):
    """reachability over the membership of one arbitrary element in every accumulator"""
    exits = []
    for st, v in outs:
        f = FactBag([st.facts])
        zero = [t.args[1] for g in f.fs for (a, b) in g.rel for t in (a, b) if t.op == 'call' and t.args[0] == 'count_ones' and (f.eq(t, Int(0)) or f.lt(t, Int(1)))]
        zero += [t.args[1] for g in f.fs for k in g.bl for t in subterms(k) if t.op == 'call' and t.args[0] == 'count_ones' and f.eq(t, Int(0))]
        exits.append((set_out(ex, v, fl, f, rule), zero))
    atoms = fold.atoms([t for t, z in exits if t is not None] + [x for t, z in exits for x in z])

    def env(val, inp, fb):
        def leaf(t):
            if t in val:
                return val[t]
            g, rest = state_field(ex, t)
            if g in ex.must:
                return inp[0]
            if g in ex.maybe:
                return inp[1]
            if g in ex.pooled:
                return inp[2]
            return unknown(t)

        def hit(i):
            g, rest = state_field(ex, uncast(i))
            return inp[2] if g in ex.pooled else unknown(i)
        return Env(leaf, hit)

    init = {}
    for a in atoms:
        init[a] = member(fold.lo.pre.read(fold.of[a]), env({}, None, None))
    start = (tuple(init[a] for a in atoms), True, False, False)
    seen, todo = {start}, [start]
    while todo:
        cur = todo.pop()
        val = dict(zip(atoms, cur[0]))
        for b in fold.lo.backs:
            f = FactBag([b.facts])
            none = any(k == ('is', 'None') and state_field(ex, t)[0] in ex.maybe for t, k in b.facts.var.items())
            for m in (False, True):
                for y in ((False,) if none else (False, True)):
                    for p in ((False, True) if ex.pooled else (False,)):
                        en = env(val, (m, y, p), f)
                        nx = (tuple(member(b.read(fold.of[a]), en) for a in atoms), cur[1] and m, cur[2] or m or y, cur[3] or p)
                        if nx not in seen:
                            seen.add(nx)
                            todo.append(nx)
    for cur in seen:
        if cur == start and not any(True for _ in ()):
            continue
        val = dict(zip(atoms, cur[0]))
        en = env(val, None, None)
        want = {'C34.must': cur[1], 'C34.may': cur[2] and not cur[1], 'C34.position': cur[3]}[rule]
        for t, zero in exits:
            if any(member(z, en) for z in zero):
                continue
            has = False if t is None else member(t, en)
            if has != want:
                return 'an element that %s %s in it' % ({'C34.must': 'all states must do' if cur[1] else 'not all states must do',
                                                        'C34.may': 'some but not all states must do, or may do' if want else 'no state must or may do, or all must do',
                                                        'C34.position': 'is the position of some state' if want else 'is the position of no state'}[rule], 'is not' if want else 'is')
    return None


def extremum(v, o, s, f, how):
    """v is the smaller (larger) of o and s"""
    v, o, s = (strip(x) for x in (v, o, s))
    if v.op == how and {strip(a) for a in v.args} == {o, s}:
        return True
    if v is o:
        return f.le(o, s) if how == 'min' else f.le(s, o)
    if v is s:
        return f.le(s, o) if how == 'min' else f.le(o, s)
    return False


def strip(x):
    x = uncast(x)
    if x.op == 'init' and x.args[0][0][0] == 'ptr' and not x.args[0][1] and x.args[0][0][1].op in ('min', 'max'):
        x = x.args[0][0][1]
    if x.op in ('min', 'max'):
        return T(x.op, *[strip(a) for a in x.args])
    return x


def low(t):
    return t.op == 'int' and t.args[0] <= 0 or t is IMIN


def high(t):
    return t is IMAX or t.op == 'int' and t.args[0] >= 2 ** 31 - 1


def folds(ex, fold, h, how, fieldok):
    """accumulator h is the smallest (largest) of the values selected by fieldok in every state merged"""
    if h not in fold.of:
        return False
    p = fold.of[h]
    i = fold.lo.pre.read(p)
    if not (high(i) if how == 'min' else low(i)):
        return False
    for b in fold.lo.backs:
        f = FactBag([b.facts])
        v = b.read(p)
        cand = {t for t in subterms(v) if fieldok(t, b)} | {t for g in f.fs for (x, y) in g.rel for t in (x, y) if fieldok(t, b)}
        if not any(extremum(v, h, s, f, how) for s in cand):
            return False
    return True


def merged_numbers(ctx):
    ctx.rule('C34.stage', 'the merged state is at the stage of the states merged')
    ctx.rule('C34.time', 'the earliest time of a merged state is the smallest and its latest time the largest of those of the states merged')
    ctx.rule('C34.table', 'the entries of a table of a merged state are the smallest of those of the states merged, for every element that must or may still be done in them')
    ctx.rule('C34.last', 'a merged state does not remember which item one of the states merged produced last')
    ctx.rule('C34.cost', 'relaxing an edge never lowers its cost')
    for ex in examples(ctx):
        fid, e, outs = ex.outs('relax', 'Relaxation')
        for st, v in outs:
            f = FactBag([st.facts])
            c = T('sym', 'cost')
            cs = [t for t in subterms(v) if show(t) == 'cost']
            ctx.ob('C34.cost', ex.name, any(f.le(x, v) or v.op == 'max' and x in v.args for x in cs), 'the relaxed cost is %s' % short_show(v))
        fid, e, outs = ex.outs('merge', 'Relaxation')
        lo = merge_loops(ex, outs)
        s = stage_of(ex)
        if lo is None or s is None:
            continue
        fold = Fold(lo)
        for fl, ty in ex.fields.items():
            if fl in ex.must + ex.maybe + ex.pooled:
                continue
            for st, v in outs:
                f = FactBag([st.facts])
                x = get(v, fl)
                if fl == s[0]:
                    ctx.ob('C34.stage', ex.name, stage_fold(ex, fold, uncast(x), fl), 'the stage of the merged state is %s' % short_show(x))
                elif ty[0] == 'int':
                    ctx.ob('C34.last', ex.name, not any(t in fold.of or state_field(ex, t)[0] for t in subterms(x)), 'the last item is taken from the states merged: %s' % short_show(x))
                elif ty[0] == 'adt' and ty[1].endswith('Vec'):
                    pass
                else:
                    ts = [y for y in (x.args[3] if x.op == 'agg' else ())]
                    cand = set(fold.of)
                    for how, pick, k in (('min', 0, 'earliest'), ('max', -1, 'latest')):
                        okt = bool(ts) and any((ts[pick] is h or f.eq(ts[pick], h)) and folds(ex, fold, h, how, lambda t, b, pick=pick: interval_end(ex, t, fl, b, pick)) for h in cand)
                        ctx.ob('C34.time', '%s %s %s' % (ex.name, fl, k), okt, 'the %s time of the merged state is %s' % (k, short_show(ts[pick]) if ts else short_show(x)))
            if ty[0] == 'adt' and ty[1].endswith('Vec'):
                why = table_fold(ex, fold, outs, fl)
                ctx.ob('C34.table', '%s %s' % (ex.name, fl), why is None, why or '')


def stage_fold(ex, fold, x, fl):
    if x not in fold.of:
        return False
    p = fold.of[x]
    i = fold.lo.pre.read(p)
    own = lambda t: state_field(ex, uncast(t)) == (fl, ())
    for b in fold.lo.backs:
        v = uncast(b.read(p))
        f = FactBag([b.facts])
        if own(v):
            continue
        cs = [t for t in subterms(v) if own(t)] + [t for g in f.fs for y in g.rel for t in y if own(t)]
        if any(extremum(v, x, s, f, 'max') for s in cs) and low(i) or any(extremum(v, x, s, f, 'min') for s in cs) and high(i):
            continue
        return False
    return True


def interval_end(ex, t, fl, b, pick):
    """t is the first (last) component of the interval field of the state, in the variant it is known to have"""
    g, rest = state_field(ex, t)
    if g != fl or len(rest) != 2 or rest[0][0] != 'v':
        return False
    adt = ex.p.adts[ex.fields[fl][1]]
    for name, fs in adt['variants']:
        if name == rest[0][1]:
            return fs[pick][0] == rest[1][1] and known_as(b, fl, name)
    return False


def known_as(b, fl, name):
    return any(k == ('is', name) and fields(t)[-1:] == (fl,) for t, k in b.facts.var.items())


def table_fold(ex, fold, outs, fl):
    """None if the table is folded with minima, else what is wrong"""
    lo = fold.lo
    # the accumulator: a vector place havocked by the loop
    accs = {p[:1] + (tuple(q for q in p[1] if q[0] != 'i' and q != ('f', '#len')),) for p in lo.havoc}
    final = [get(v, fl) for st, v in outs]
    n = 0
    for b in lo.backs:
        f = FactBag([b.facts])
        for P in enum_paths(b, lo):
            inner = [x for x in P.items if isinstance(x, LoopObj)]
            over, whole = set(), False
            for il in inner:
                it = loop_iter(il)
                src = set_of(it)
                ws, good = 0, bool(il.backs)
                for ib in il.backs:
                    for Q in enum_paths(ib, il):
                        w = [x for x in Q.items if isinstance(x, Ev) and x.kind == 'write' and any(q[0] == 'i' for q in x.place[1])]
                        if not w:
                            # nothing written: the entry must already be the smaller one
                            good = good and kept_smaller(ex, Q, fl)
                            continue
                        ws += 1
                        for x in w:
                            k = [q[1] for q in x.place[1] if q[0] == 'i'][0]
                            good = good and min_write(ex, x, k, Q.f, fl, it)
                if not ws:
                    continue
                n += 1
                if not good:
                    return 'an entry does not become the smaller one of the entry and that of the state'
                if src is not None and keeps_all(it):
                    g, rest = state_field(ex, src)
                    over.add(g)
                elif it is not None and it.op == 'it' and keeps_all(it):
                    whole = True
            none = any(k == ('is', 'None') and state_field(ex, t)[0] in ex.maybe for t, k in b.facts.var.items())
            if ex.must and not whole:
                need = set(ex.must) | (set() if none else set(ex.maybe))
                if not need <= over:
                    return 'the entries of %s are not all taken into account' % ', '.join(sorted(need - over))
            elif not whole:
                v = [t for t in copies(ex, b, lo, fl)]
                first = first_state(b, f, lo)
                if not (v and first):
                    return 'the entries of a state are not all taken into account'
    if ex.must:
        ok = all(any(t.op == 'vecrep' and high(t.args[0]) for t in subterms(x)) for x in final)
        if not ok:
            return 'the table does not start with entries larger than all others'
    return None if n else 'the entries are not folded'


def kept_smaller(ex, Q, fl):
    return any(state_field(ex, t)[0] == fl and (Q.f.le(o, t) or Q.f.lt(o, t)) for g in Q.f.fs for (a, b) in g.rel for t, o in ((a, b), (b, a)))


def min_write(ex, x, k, f, fl, it):
    """the entry at k becomes the smaller one of itself and the entry of the state there"""
    v = strip(x.val)
    here = lambda t: entry(t) is not None and entry(t) is k and state_field(ex, t)[0] is None
    other = lambda t: state_field(ex, t)[0] == fl and entry(t) is not None and (entry(t) is k or paired(entry(t), k, it))
    if v.op == 'min':
        return len(v.args) == 2 and any(here(a) and other(b) for a, b in (v.args, v.args[::-1]))
    return other(v) and any(here(t) and f.le(v, t) for g in f.fs for y in g.rel for t in y)


def entry(t):
    """the index of an entry of a table"""
    i = [q[1] for q in trail(t)[1] if q[0] == 'i']
    return i[-1] if i else None


def paired(a, k, it):
    """two indices of the same entry: of one zip over both tables, or one counted along with the other"""
    if it is None or it.op != 'it':
        return False
    if it.args[0] == 'zip':
        return keeps_all(it) and all(x.op == 'it' and not x.args[2] for x in it.args[1].args[3]) and a.op == k.op == 'ix' and a.args[0] == k.args[0]
    if it.args[2] == (('enumerate',),):
        return a is T('pos', k) or k is T('pos', a)
    return False


def copies(ex, b, lo, fl):
    """accumulators that become a copy of the table of the state"""
    for p in lo.havoc:
        v = b.read(p)
        if state_field(ex, v) == (fl, ()) or v.op == 'cloned' and state_field(ex, v.args[0]) == (fl, ()):
            yield v


def first_state(b, f, lo):
    """the accumulator is known to be empty: no state was merged before"""
    for p in lo.havoc:
        h = lo.head.read(p)
        if f.eq(project(h, ('f', '#len')), Int(0)) or f.isvar(h, 'None') is True or f.truth(h) is True and lo.pre.read(p) is TRUE:
            return True
    return False
