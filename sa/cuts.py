"""Abstract models of the frontier and of the decision diagram used when the solvers are
analysed on their own (each component is checked separately against the same contract)."""
from .terms import *
from . import models
from .models import content, run_unknown, sub_


def flen(content_):
    if content_.op == 'agg' and content_.args[0] == 'Frontier':
        return Int(0)
    return T('flen', content_)


EMPTYF = T('agg', 'Frontier', 'Empty', (), ())


def set_content(st, p, v):
    st.kill(p)
    st.wm()[p] = v


def frontier_op(c):
    st = c.st
    n = c.name
    p = c.place() if c.args and c.args[0].op in ('ref', 'guard') or n != 'new' else None
    if n == 'new':
        return [(st, EMPTYF)]
    if c.args[0].op not in ('ref', 'guard'):
        p = (('ptr', c.args[0]), ())
    # look through references to references
    v = st.read(p)
    while v.op == 'ref':
        p = v.args[0]
        v = st.read(p)
    if n in ('len', 'is_empty'):
        l = flen(v)
        return [(st, l if n == 'len' else Bin('Eq', l, Int(0)))]
    if n == 'push':
        c.ev(st, 'fpush', place=p, node=c.args[1], before=v, key=c.key)
        set_content(st, p, c.fresh('fcont'))
        return [(st, UNIT)]
    if n == 'pop':
        s2 = st.copy()
        out = []
        if st.assume(Bin('Lt', Int(0), flen(v)), True):
            node = c.fresh('popped')
            c.ev(st, 'fpop', place=p, node=node, before=v, key=c.key)
            set_content(st, p, c.fresh('fcont'))
            out.append((st, Some(node)))
        if s2.assume(Bin('Eq', flen(v), Int(0)), True):
            out.append((s2, NONE))
        return out
    if n == 'clear':
        c.ev(st, 'fclear', place=p, before=v, key=c.key)
        set_content(st, p, EMPTYF)
        return [(st, UNIT)]
    return models.opaque(c, 'Frontier::' + n)


def dd_op(c):
    st = c.st
    n = c.name
    if n == 'new':
        v = c.fresh('dd')
        c.ev(st, 'ddnew', args=tuple(c.args), vals=tuple(content(st, a) for a in c.args), ret=v)
        return [(st, v)]
    if c.args and c.args[0].op not in ('ref', 'guard'):
        p = (('ptr', c.args[0]), ())
    else:
        p = c.place()
    v = st.read(p)
    while v.op == 'ref':
        p = v.args[0]
        v = st.read(p)
    if n == 'compile':
        inp = content(st, c.args[1])
        c.ev(st, 'compile', dd=p, input=inp, key=c.key, inplace=c.args[1].args[0] if c.args[1].op == 'ref' else None)
        nv = T('compiled', c.fresh('dd'), inp)
        set_content(st, p, nv)
        return [(st, UNIT)]
    if n == 'drain_cutset':
        c.ev(st, 'ddrain', dd=p, val=v, key=c.key)
        s = run_unknown(c, st, c.args[1], 'DD::drain_cutset', 1)
        set_content(s, p, T('drained', v))
        return [(s, UNIT)]
    if n in ('is_exact', 'best_value', 'best_solution', 'get_explored'):
        base = v.args[0] if v.op == 'drained' else v
        r = T('call', 'DD::' + n, base)
        c.ev(st, 'ddget', name=n, dd=p, val=v, ret=r)
        return [(st, r)]
    return models.opaque(c, 'DD::' + n)


def solver_cut(prog):
    dds = set(prog.implementors('DecisionDiagram'))
    frs = set(prog.implementors('Frontier'))

    def cut(body, info):
        tr = (info.get('trait') or '').split('::')[-1]
        if tr == 'Frontier':
            return frontier_op
        if tr == 'DecisionDiagram':
            return dd_op
        s = info.get('self')
        if tr == '' and s and s[0] == 'adt':
            if s[1] in dds:
                return dd_op
            if s[1] in frs:
                return frontier_op
        return None
    return cut


def runner_cut(p):
    """the experiment runner: what the solvers do is checked separately, only which calls are made on them matters here"""
    solvers = set(p.implementors('Solver')) | set(p.implementors('InterruptibleSolver'))
    fronts = set(p.implementors('Frontier'))

    def cut(body, info):
        if body is None:
            return None
        adt = body.self_adt
        if adt in solvers and body.trait and body.trait.split('::')[-1] in ('Solver', 'InterruptibleSolver'):
            return 'solver:' + body.name
        if adt in solvers and body.name in READERS:
            return 'solver:' + body.name
        if adt in fronts:
            return 'frontier:' + body.name
        ts = [l[0] for l in body.locals[:3]]
        if body.argc == 2 and ts[0] == ['float', 'f32'] and ts[1] == ts[2] == ['int', 'isize']:
            return 'gap'
        return None
    return cut


READERS = ('best_value', 'best_solution', 'best_lower_bound', 'best_upper_bound', 'get_explored', 'get_explored_dd', 'explored')


def lex_cut(p):
    """the comparison methods of one type are seen as calls, so that the others are read in terms of them"""
    def cut(body, info):
        if body is None or not body.trait or body.derived:
            return None
        if body.trait.split('::')[-1] in ('Ord', 'PartialOrd', 'PartialEq') and body.name in ('cmp', 'partial_cmp', 'eq', 'lt', 'le', 'gt', 'ge', 'ne'):
            return 'order:' + body.name
        return None
    return cut
