"""Models of library operations used by the analysed crate.

Every model maps a call to a list of (state, value) disjuncts.  Library functions without
a model are treated as opaque: fresh result, everything reachable through `&mut`
arguments forgotten, closure arguments run any number of times.
"""
from .terms import *

PURE_TRAITS = {'Problem', 'Relaxation', 'StateRanking', 'WidthHeuristic'}


class Call:
    __slots__ = ('eng', 'fr', 'st', 'info', 'args', 'tys', 'rty', 'site', 'key', 'path', 'name', 'trait', 'self_ty', 'rpath')

    def __init__(self, eng, fr, st, info, args, tys, rty, site, key):
        self.eng, self.fr, self.st, self.info = eng, fr, st, info
        self.args, self.tys, self.rty, self.site, self.key = args, tys, rty, site, key
        self.path = info['path']
        self.name = info['name']
        self.trait = (info.get('trait') or '').split('::')[-1]
        self.rpath = info.get('rpath') or ''
        if self.trait:
            a = info.get('args') or []
            self.self_ty = a[0] if a else (tys[0] if tys else ['?'])
        else:
            self.self_ty = info.get('self') or ['?']

    # ---- helpers
    def place(self, i=0, st=None):
        """place designated by reference argument i"""
        return self.eng.deref_place(self.args[i])

    def val(self, i, st=None):
        return content(st or self.st, self.args[i])

    def fresh(self, *k):
        return self.eng.tagged('fresh', *(k + (self.key,)))

    def ev(self, st, kind, **d):
        return self.eng.ev(st, kind, self.fr, self.site, **d)

    def callv(self, st, f, args, sub=''):
        return self.eng.call_value(self.fr, st, f, args, self.site, self.key + (sub,))


def strip_refs(ty):
    while ty and ty[0] in ('ref', 'ptr'):
        ty = ty[1]
    return ty


def adt_name(ty):
    ty = strip_refs(ty)
    return ty[1].split('::')[-1] if ty and ty[0] == 'adt' else None


def content(st, t, depth=0):
    """dereference reference terms, recursively at the top level"""
    n = 0
    while t.op in ('ref', 'guard') and n < 5:
        t = st.read(t.args[0])
        n += 1
    return t


def pointee(st, t, n):
    """what a reference to a reference to a ... (n times) points to"""
    for i in range(n):
        if t.op in ('ref', 'guard'):
            t = st.read(t.args[0])
        elif i and t.op in ('sym', 'init', 'fld', 'idx'):
            t = st.read((('ptr', t), ()))
    return content(st, t)


def fork(st, v, variants, universe=None):
    """split a state on the variant of v; yields (state, variant)"""
    k = st.facts.variant(v)
    if k is not None:
        return [(st, k)] if k in variants else []
    out = []
    for i, n in enumerate(variants):
        s = st.copy() if i < len(variants) - 1 else st
        if s.assume_variant(v, n, True, universe or variants):
            out.append((s, n))
    return out


def fork_bool(st, t):
    k = st.facts.truth(t)
    if k is not None:
        return [(st, k)]
    out = []
    s = st.copy()
    if s.assume(t, True):
        out.append((s, True))
    if st.assume(t, False):
        out.append((st, False))
    return out


def payload(v, variant, n='0'):
    from .engine import project
    return project(project(v, ('v', variant)), ('f', n))


def payload_ref(place, variant):
    return Ref((place[0], place[1] + (('v', variant), ('f', '0'))))


# ------------------------------------------------------------------ opaque calls
def opaque(c, name=None):
    eng, st = c.eng, c.st
    name = name or (c.trait + '::' + c.name if c.trait else '::'.join(strip_gen(c.path).split('::')[-2:]))
    vals = tuple(content(st, a) for a in c.args)
    r = bitset_op(c, vals)
    if r is not None:
        return r
    pure = c.trait in PURE_TRAITS
    closures = []
    feeds = []
    for i, a in enumerate(c.args):
        v = vals[i]
        if v.op in ('closure', 'fn') or (v.op == 'with' and v.args[0].op == 'closure'):
            closures.append((i, a))
        elif v.op == 'it':
            feeds.append((i, a))
    if pure and not closures and not feeds and name != 'Problem::next_variable':
        ret = T('call', name, *vals)
    elif c.rty == ['tuple', []]:
        ret = UNIT
    else:
        ret = c.fresh('ret', name)
    ev = c.ev(st, 'call', name=name, args=tuple(c.args), vals=vals, ret=ret, self_ty=c.self_ty, key=c.key,
              tys=c.tys, rty=c.rty, path=c.path)
    st2 = st
    for i, a in feeds:
        st2 = feed(c, st2, a, name, i)
    for i, a in closures:
        st2 = run_unknown(c, st2, a, name, i)
    for i, a in enumerate(c.args):
        ty = c.tys[i] if i < len(c.tys) else ['?']
        if a.op == 'ref' and ty and ty[0] in ('ref', 'ptr') and ty[2]:
            if (i, a) in closures or (i, a) in feeds:
                continue
            p = a.args[0]
            if p[0][0] == 'val':
                continue
            st2.kill(p)
            st2.wm()[p] = c.fresh('out', name, i)
    return [(st2, ret)]


BS_OPS = {'bitand': 'and', 'bitor': 'or', 'bitxor': 'xor'}


def bitset_op(c, vals):
    """fixed-size bit sets (external type) as terms: new, not, and, or, xor, set"""
    st, n = c.st, c.name
    if n == 'new' and adt_name(c.self_ty) == 'BitSetIter' and len(vals) == 1:
        return [(st, T('it', 'opaque', T('bits', vals[0]), ()))]
    if adt_name(c.self_ty) != 'BitSet' or 'bitset_fixed' not in str(c.self_ty):
        return None
    if n == 'new':
        return [(st, T('bs', 'new', vals[0]))]
    if n == 'count_ones':
        return [(st, T('call', 'count_ones', vals[0]))]
    if n in BS_OPS and len(vals) == 2:
        return [(st, T('bs', BS_OPS[n], *vals))]
    v = None
    if n.endswith('_assign') and n[:-7] in BS_OPS and len(vals) == 2:
        v = T('bs', BS_OPS[n[:-7]], *vals)
    elif n == 'set' and len(vals) == 3:
        v = T('bs', 'set', *vals)
    if v is None:
        return None
    p = c.place()
    if p[0][0] == 'val':
        return None
    st.kill(p)
    st.wm()[p] = v
    return [(st, UNIT)]


def strip_gen(p):
    out, d = '', 0
    for ch in p:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out += ch
    return out.replace('::::', '::').strip(':')


def closure_arity(c, f):
    f = content(c.st, f)
    if f.op == 'with':
        f = f.args[0]
    if f.op == 'closure':
        body = c.eng.prog.body(f.args[0])
        return body, [body.locals[i + 2] for i in range(body.argc - 1)]
    return None, []


def run_unknown(c, st, a, name, i):
    """run a closure argument 0..n times with unknown arguments"""
    body, params = closure_arity(c, a)
    if body is None:
        return st

    def once(S):
        args = []
        for j, (ty, nm) in enumerate(params):
            v = c.fresh('cbarg', name, i, j)
            if ty[0] == 'ref':
                v = RefTo(v)
            args.append(v)
        c.ev(S, 'callback', name=name, idx=i, args=tuple(args))
        outs = c.callv(S, a, args, 'cb%d' % i)
        return [s for s, _ in outs], [('end', S0) for S0 in []]

    def body_fn(S):
        done = S.copy()
        conts, ex = once(S)
        return conts, [('end', done)]
    r = c.eng.synth(st, c.key + ('cb', i), c.site, c.fr, body_fn, what=('callback', name))
    return r['end'][0] if r.get('end') else st


def feed(c, st, it, name, i):
    """an opaque consumer draws any number of elements from an iterator argument"""
    src = it
    if it.op != 'ref':
        p = (('tmp', c.key + (i,)), ())
        st.wm()[p] = it
        src = Ref(p)

    def body_fn(S):
        conts, exits = [], []
        for s, v in next_elem(c, S, content(S, src), 'feed%d' % i):
            if v is None:
                exits.append(('end', s))
            else:
                c.ev(s, 'feed', name=name, idx=i, elem=v, val=content(s, v), it=content(S, src))
                conts.append(s)
        return conts, exits
    r = c.eng.synth(st, c.key + ('feed', i), c.site, c.fr, body_fn, what=('feed', name))
    ss = r.get('end') or [st]
    from .engine import join_states
    return join_states(ss, c.key + ('fj',)) if len(ss) > 1 else ss[0]


# ------------------------------------------------------------------ iterators
# T('it', kind, src, adapters)   kind: vec(place) / own(term) / map / keys / values / range / opaque
def It(kind, src, *ad):
    return T('it', kind, src, tuple(ad))


def next_elem(c, st, it, sub='', rejected=None):
    """[(state, element or None)]; the states of elements left out by a filter are added to `rejected`"""
    eng = c.eng
    if it.op != 'it':
        base = c.fresh('next', sub)
        return [(st.copy(), None), (st, base)]
    kind, src, ads = it.args
    ix = eng.tagged('ix', c.key, sub)
    if kind == 'succ' and any(a[0] == 'rev' for a in ads):
        kind = 'opaque'
    none = st.copy()
    out = [(none, None)]
    if kind == 'vec':
        none.assume(T('iterempty', it), True)
        ix = T('ix', *ix.args, it)
        s = st
        ln = s.read(field(src, '#len'))
        s.assume(Bin('Lt', ix, ln), True)
        s.assume(Bin('Le', Int(0), ix), True)
        els = [(s, Ref(elem(src, ix)))]
    elif kind == 'own':
        from .engine import project
        ix = T('ix', *ix.args, it)
        els = [(st, project(src, ('i', ix)))]
    elif kind == 'range':
        lo, hi = src.args[3]
        s = st
        s.assume(Bin('Le', lo, ix), True)
        if not s.assume(Bin('Lt', ix, hi), True):
            els = []
        else:
            els = [(s, ix)]
        none.assume(Bin('Lt', lo, hi), True) if False else None
    elif kind == 'rangei':
        lo, hi = src.args[3]
        s = st
        s.assume(Bin('Le', lo, ix), True)
        els = [(s, ix)] if s.assume(Bin('Le', ix, hi), True) else []
    elif kind in ('map', 'keys', 'values', 'mapown', 'keysown', 'valuesown'):
        from .engine import project
        k = T('mkey', ix, src if isinstance(src, Term) else T('init', src))
        own = kind.endswith('own')
        if own:
            kv, vv = k, project(src, ('k', k))
        else:
            kv, vv = RefTo(k), Ref(sub_(src, ('k', k)))
        b = kind.replace('own', '')
        els = [(st, kv if b == 'keys' else vv if b == 'values' else Tup(kv, vv))]
    elif kind == 'zip':
        a, b = src.args[3]
        els = []
        for s1, x in next_elem(c, st, a, sub + 'a'):
            if x is None:
                continue
            for s2, y in next_elem(c, s1, b, sub + 'b'):
                if y is not None:
                    els.append((s2, Tup(x, y)))
    elif kind == 'chain':
        a, b = src.args[3]
        els = []
        for j, x in enumerate((a, b)):
            for s1, e in next_elem(c, st.copy(), x, sub + 'ch%d' % j):
                if e is not None:
                    els.append((s1, e))
    elif kind == 'succ':
        # iter::successors: the cursor is a hidden place
        els = []
        cur, fn = src.args[3]
        cur = cur.args[0]
        o = st.read(cur)
        out = []
        for s, n in fork(st, o, ['Some', 'None']):
            if n == 'None':
                out.append((s, None))
                continue
            x = payload(o, 'Some')
            for s2, nx in c.callv(s, fn, [RefTo(x)], sub + 'succ'):
                s2.kill(cur)
                s2.wm()[cur] = nx
                els.append((s2, x))
    elif kind == 'opt':
        els = []
        o = src
        for s, n in fork(st, o, ['Some', 'None']):
            if n == 'Some':
                els.append((s, payload(o, 'Some')))
    else:
        els = [(st, T('elem', ix))]
    for n, ad in enumerate(ads):
        nxt = []
        for s, e in els:
            a = ad[0]
            if a in ('copied', 'cloned'):
                nxt.append((s, content(s, e)))
            elif a == 'map':
                nxt.extend(c.callv(s, ad[1], [e], sub + 'ad%d' % n))
            elif a in ('filter', 'take_while', 'skip_while'):
                for s2, b in c.callv(s, ad[1], [RefTo(e)], sub + 'ad%d' % n):
                    if a == 'skip_while':
                        nxt.append((s2, e))
                        continue
                    if a == 'filter' and rejected is not None:
                        s3 = s2.copy()
                        if s3.assume(b, False):
                            rejected.append((s3, e))
                    if s2.assume(b, True):
                        nxt.append((s2, e))
            elif a in ('filter_map', 'flat_map'):
                for s2, o in c.callv(s, ad[1], [e], sub + 'ad%d' % n):
                    for s3, nm in fork(s2, o, ['Some', 'None']):
                        if nm == 'Some':
                            nxt.append((s3, payload(o, 'Some')))
                        elif rejected is not None:
                            rejected.append((s3, e))
            elif a == 'enumerate':
                nxt.append((s, Tup(T('pos', ix), e)))
            elif a == 'inspect':
                for s2, _ in c.callv(s, ad[1], [RefTo(e)], sub + 'ad%d' % n):
                    nxt.append((s2, e))
            else:
                nxt.append((s, e))
        els = nxt
    return out + els


def sub_(place, *projs):
    return (place[0], place[1] + tuple(projs))


def consume(c, st, it, on_elem, what):
    """synthetic loop over an iterator.  on_elem(state, elem) -> (continuing states, [(label, state)])"""
    p = None
    if it.op == 'ref':
        it = content(st, it)

    def body_fn(S):
        conts, exits = [], []
        rejected = []
        for s, e in next_elem(c, S, it, what, rejected):
            if e is None:
                exits.append(('end', s))
            else:
                c.ev(s, 'next', it=it, elem=e, key=c.key)
                cs, ex = on_elem(s, e)
                conts += cs
                exits += ex
        for s, e in rejected:
            c.ev(s, 'rejected', it=it, elem=e, key=c.key)
            conts.append(s)
        return conts, exits
    return c.eng.synth(st, c.key + (what,), c.site, c.fr, body_fn, what=(what, it))


def one(c, ss):
    from .engine import join_states
    if len(ss) == 1:
        return ss[0]
    return join_states(ss, c.key + ('one',) + tuple(c.eng.tags))


# ------------------------------------------------------------------ dispatch
TABLE = {}


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def dispatch(c):
    p = strip_gen(c.path)
    segs = p.split('::')
    key2 = '::'.join(segs[-2:])
    f = None
    if c.trait:
        f = TABLE.get(c.trait + '::' + c.name)
    else:
        f = TABLE.get(key2)
        if f is None and segs[0] in ('core', 'alloc', 'std') and 'impl' in c.path:
            # inherent impls on primitives: core::num::<impl isize>::f , core::slice::<impl [T]>::f
            st = c.info.get('self') or ['?']
            f = TABLE.get('prim:' + st[0] + '::' + c.name)
    if f is None:
        return None
    r = f(c)
    return r


def is_local(c):
    rid = c.info.get('rid')
    return rid is not None and c.eng.prog.body(rid) is not None and not c.eng.prog.body(rid).derived


# ---- reference-like
@model('Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'Borrow::borrow', 'AsMut::as_mut', 'BorrowMut::borrow_mut')
def m_deref(c):
    if is_local(c):
        return None
    st = c.st
    a = c.args[0]
    n = adt_name(c.self_ty)
    if n in ('Vec', 'String', None) or strip_refs(c.self_ty)[0] in ('slice', 'str', 'array'):
        return [(st, a)]
    if n in ('Arc', 'Box', 'Rc'):
        p = c.place()
        return [(st, Ref(sub_(p, ('d',))))]
    g = content_guard(st, a)
    if g is not None:
        return [(st, Ref(g.args[0]))]
    return [(st, Ref(sub_(c.place(), ('d',))))]


def content_guard(st, a):
    n = 0
    while n < 5:
        if a.op == 'guard':
            return a
        if a.op != 'ref':
            return None
        a = st.read(a.args[0])
        n += 1
    return None


@model('Clone::clone_from', 'prim:slice::clone_from_slice', 'prim:slice::copy_from_slice')
def m_clone_from(c):
    if is_local(c) or c.args[0].op != 'ref':
        return None
    v = m_clone_value(c)
    if v is None:
        return None
    put(c, c.st, c.place(), v)
    return [(c.st, UNIT)]


def m_clone_value(c):
    v = c.args[1]
    return c.st.read(v.args[0]) if v.op == 'ref' else None


@model('Vec::as_slice', 'Vec::as_mut_slice', 'String::as_str', 'String::as_mut_str', 'Pin::new', 'Box::leak',
       'prim:slice::as_ref', 'Box::as_ref', 'Box::as_mut')
def m_same(c):
    return [(c.st, c.args[0])]


@model('Clone::clone', 'ToOwned::to_owned', 'prim:slice::to_vec', 'Option::cloned', 'Option::copied', 'Arc::clone', 'Rc::clone',
       'Into::into', 'From::from', 'Vec::into_boxed_slice', 'ToString::to_string', 'prim:slice::into_vec', 'prim:str::to_owned', 'prim:str::to_string')
def m_clone(c):
    if is_local(c):
        return None
    v = c.args[0]
    if c.name in ('cloned', 'copied'):
        # Option<&T> -> Option<T>
        out = []
        for s, n in fork(c.st, v, ['Some', 'None']):
            out.append((s, Some(content(s, payload(v, 'Some'))) if n == 'Some' else NONE))
        return out
    if v.op == 'ref':
        v = c.st.read(v.args[0])
        if c.path.endswith('Clone::clone') and strip_refs(c.tys[0])[0] == 'ref':
            pass
    elif v.op == 'guard':
        v = c.st.read(v.args[0])
    elif c.name in ('clone', 'to_owned') and v.op not in ('agg',):
        v = c.st.read(c.eng.deref_place(v)) if c.tys and c.tys[0][0] == 'ref' else v
    return [(c.st, v)]


@model('Arc::new', 'Rc::new')
def m_arc(c):
    return [(c.st, T('arc', c.args[0]))]


@model('Box::new')
def m_box(c):
    return [(c.st, T('arc', c.args[0]))]


@model('Arc::ptr_eq')
def m_ptreq(c):
    return [(c.st, c.fresh('ptr_eq'))]


# ---- mutexes
def acquire(c, kind, wrap=False):
    st = c.st
    p = c.place()
    m = sub_(p, ('m',))
    held = st.locks
    fr = c.fresh('acq')
    c.ev(st, 'lock', place=m, lkind=kind, held=held, mplace=p, content=fr)
    st.kill(m)
    st.wm()[m] = fr
    g = T('guard', m, kind, T('site', c.key, *c.eng.tags))
    st.locks = st.locks + (g,)
    return [(st, g if not wrap else T('agg', 'Result', 'Ok', ('0',), (g,)))]


@model('Mutex::lock')
def m_lock(c):
    return acquire(c, 'mutex', wrap=c.path.startswith('std::'))


@model('RwLock::read')
def m_read(c):
    return acquire(c, 'read', wrap=c.path.startswith('std::'))


@model('RwLock::write')
def m_write(c):
    return acquire(c, 'write', wrap=c.path.startswith('std::'))


@model('Mutex::try_lock', 'RwLock::try_read', 'RwLock::try_write')
def m_trylock(c):
    st2 = c.st.copy()
    (st, g) = acquire(c, {'try_lock': 'mutex', 'try_read': 'read', 'try_write': 'write'}[c.name])[0]
    if c.path.startswith('std::'):
        return [(st, T('agg', 'Result', 'Ok', ('0',), (g,))), (st2, T('agg', 'Result', 'Err', ('0',), (c.fresh('e'),)))]
    return [(st, Some(g)), (st2, NONE)]


@model('Mutex::get_mut', 'RwLock::get_mut')
def m_getmut(c):
    v = Ref(sub_(c.place(), ('m',)))
    if c.path.startswith('std::'):
        v = T('agg', 'Result', 'Ok', ('0',), (v,))
    return [(c.st, v)]


@model('Mutex::new', 'RwLock::new')
def m_mxnew(c):
    return [(c.st, T('mutex', c.args[0]))]


@model('Mutex::into_inner', 'RwLock::into_inner')
def m_into_inner(c):
    from .engine import project
    return [(c.st, project(c.args[0], ('m',)))]


@model('Condvar::wait')
def m_wait(c):
    st = c.st
    g = content_guard(st, c.args[1])
    fr = c.fresh('acq')
    c.ev(st, 'wait', guard=g, cond=c.place(), held=st.locks, content=fr)
    if g is not None:
        st.kill(g.args[0])
        st.wm()[g.args[0]] = fr
    return [(st, UNIT if not c.path.startswith('std::') else T('agg', 'Result', 'Ok', ('0',), (g or c.fresh('g'),)))]


@model('Condvar::wait_for', 'Condvar::wait_until', 'Condvar::wait_while', 'Condvar::wait_timeout')
def m_waitfor(c):
    r = m_wait(c)
    return [(s, c.fresh('timedout')) for s, _ in r]


@model('Condvar::notify_all', 'Condvar::notify_one')
def m_notify(c):
    c.ev(c.st, 'notify', which=c.name, cond=c.place(), held=c.st.locks)
    return [(c.st, UNIT)]


@model('mem::drop')
def m_drop(c):
    c.eng.drop_value(c.fr, c.st, c.args[0], c.site)
    return [(c.st, UNIT)]


@model('MutexGuard::unlocked', 'MutexGuard::bump')
def m_unlocked(c):
    return opaque(c)


# ---- memory
def put(c, st, place, v, old=None):
    c.eng.store(c.fr, st, place, v, c.site)


@model('mem::swap')
def m_swap(c):
    st = c.st
    p, q = c.place(0), c.place(1)
    a, b = st.read(p), st.read(q)
    put(c, st, p, b)
    put(c, st, q, a)
    return [(st, UNIT)]


@model('mem::replace')
def m_replace(c):
    st = c.st
    p = c.place(0)
    a = st.read(p)
    put(c, st, p, c.args[1])
    return [(st, a)]


@model('Option::replace')
def m_oreplace(c):
    st = c.st
    p = c.place(0)
    a = st.read(p)
    put(c, st, p, Some(c.args[1]))
    return [(st, a)]


@model('Option::insert')
def m_oinsert(c):
    st = c.st
    p = c.place(0)
    put(c, st, p, Some(c.args[1]))
    return [(st, payload_ref(p, 'Some'))]


@model('mem::take')
def m_take(c):
    st = c.st
    p = c.place(0)
    a = st.read(p)
    put(c, st, p, default_of(c, c.rty))
    return [(st, a)]


@model('Option::take')
def m_otake(c):
    st = c.st
    p = c.place(0)
    a = st.read(p)
    put(c, st, p, NONE)
    return [(st, a)]


EMPTYVEC = T('agg', 'Vec', 'Vec', ('#len',), (Int(0),))
EMPTYMAP = T('agg', 'Map', 'Map', ('#ver', '#len'), (T('sym', 'empty'), Int(0)))


def default_of(c, ty):
    if ty[0] == 'int':
        return Int(0)
    if ty[0] == 'bool':
        return FALSE
    n = adt_name(ty) if ty[0] == 'adt' else None
    if n in ('Vec', 'VecDeque'):
        return EMPTYVEC
    if n in ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet'):
        return EMPTYMAP
    if n == 'Option':
        return NONE
    if ty[0] == 'tuple':
        return Tup(*[default_of(c, t) for t in ty[1]]) if ty[1] else UNIT
    return T('default', str(ty))


@model('Default::default', 'Vec::new', 'Vec::with_capacity', 'HashMap::new', 'HashMap::with_capacity', 'HashMap::with_hasher',
       'HashMap::with_capacity_and_hasher', 'HashSet::new', 'VecDeque::new', 'BTreeMap::new')
def m_default(c):
    if is_local(c):
        return None
    ty = c.rty
    if c.trait and c.info.get('args'):
        ty = c.info['args'][0]
    return [(c.st, default_of(c, ty))]


@model('vec::from_elem')
def m_from_elem(c):
    return [(c.st, T('vecrep', c.args[0], c.args[1]))]


# ---- vectors / slices
def vlen(st, p):
    return st.read(field(p, '#len'))


@model('Vec::len', 'prim:slice::len', 'HashMap::len', 'VecDeque::len', 'BinaryHeap::len', 'HashSet::len', 'ExactSizeIterator::len')
def m_len(c):
    if c.trait:
        it = c.val(0)
        if it.op == 'it' and it.args[0] == 'vec':
            return [(c.st, vlen(c.st, it.args[1]))]
        return [(c.st, T('call', 'len', it))]
    return [(c.st, vlen(c.st, c.place()))]


@model('Vec::is_empty', 'prim:slice::is_empty', 'VecDeque::is_empty', 'BinaryHeap::is_empty')
def m_isempty(c):
    return [(c.st, Bin('Eq', vlen(c.st, c.place()), Int(0)))]


@model('HashMap::is_empty', 'HashSet::is_empty')
def m_misempty(c):
    return [(c.st, Bin('Eq', vlen(c.st, c.place()), Int(0)))]


@model('Vec::push', 'VecDeque::push_back')
def m_push(c):
    st = c.st
    p = c.place()
    n = vlen(st, p)
    if n.op == 'init' and st.facts.rel_of(n, Int(0)) == 2:
        st.kill(p)
        st.wm()[p] = EMPTYVEC
        n = Int(0)
    c.ev(st, 'push', vec=p, val=c.args[1], at=n, old=None)
    e = elem(p, n)
    st.kill(e)
    st.wm()[e] = c.args[1]
    st.wm()[field(p, '#len')] = Bin('Add', n, Int(1))
    return [(st, UNIT)]


@model('Vec::insert')
def m_vinsert(c):
    st = c.st
    p = c.place()
    n = vlen(st, p)
    c.ev(st, 'vinsert', vec=p, val=c.args[2], at=c.args[1])
    st.kill(elem(p, '*'))
    st.wm()[elem(p, '*')] = c.fresh('shifted')
    st.wm()[elem(p, c.args[1])] = c.args[2]
    st.wm()[field(p, '#len')] = Bin('Add', n, Int(1))
    return [(st, UNIT)]


@model('Vec::clear', 'VecDeque::clear', 'BinaryHeap::clear')
def m_clear(c):
    st = c.st
    p = c.place()
    c.ev(st, 'clear', vec=p, old=None)
    st.kill(p)
    st.wm()[p] = EMPTYVEC
    return [(st, UNIT)]


@model('HashMap::clear', 'HashSet::clear')
def m_mclear(c):
    st = c.st
    p = c.place()
    c.ev(st, 'clear', vec=p, map=True)
    st.kill(p)
    st.wm()[p] = EMPTYMAP
    return [(st, UNIT)]


@model('Vec::truncate')
def m_truncate(c):
    st = c.st
    p = c.place()
    n = vlen(st, p)
    c.ev(st, 'truncate', vec=p, n=c.args[1], old_len=n)
    if c.args[1] is Int(0):
        st.kill(p)
        st.wm()[p] = EMPTYVEC
        return [(st, UNIT)]
    if st.facts.le(c.args[1], n):
        ln = c.args[1]
    elif st.facts.le(n, c.args[1]):
        ln = n
    else:
        ln = Min(n, c.args[1])
    st.wm()[field(p, '#len')] = ln
    return [(st, UNIT)]


@model('Vec::resize')
def m_resize(c):
    st = c.st
    p = c.place()
    n = vlen(st, p)
    c.ev(st, 'resize', vec=p, n=c.args[1], val=c.args[2], old_len=n)
    st.kill(elem(p, '*'))
    st.wm()[elem(p, '*')] = c.fresh('resized')
    st.wm()[field(p, '#len')] = c.args[1]
    return [(st, UNIT)]


@model('Vec::resize_with')
def m_resize_with(c):
    st = c.st
    p = c.place()
    c.ev(st, 'resize', vec=p, n=c.args[1], val=c.args[2], old_len=vlen(st, p))
    st.kill(elem(p, '*'))
    st.wm()[elem(p, '*')] = c.fresh('resized')
    st.wm()[field(p, '#len')] = c.args[1]
    return [(st, UNIT)]


@model('Vec::pop', 'VecDeque::pop_front', 'VecDeque::pop_back')
def m_pop(c):
    st = c.st
    p = c.place()
    n = vlen(st, p)
    s2 = st.copy()
    out = []
    if st.assume(Bin('Lt', Int(0), n), True):
        last = Bin('Sub', n, Int(1)) if c.name != 'pop_front' else Int(0)
        v = st.read(elem(p, last))
        c.ev(st, 'pop', vec=p, val=v, front=c.name == 'pop_front')
        if c.name == 'pop_front':
            st.kill(elem(p, '*'))
            st.wm()[elem(p, '*')] = c.fresh('shifted')
        st.wm()[field(p, '#len')] = Bin('Sub', n, Int(1))
        out.append((st, Some(v)))
    if s2.assume(Bin('Eq', n, Int(0)), True):
        out.append((s2, NONE))
    return out


@model('Vec::swap_remove', 'Vec::remove')
def m_swap_remove(c):
    st = c.st
    p = c.place()
    n = vlen(st, p)
    i = c.args[1]
    v = st.read(elem(p, i))
    last = Bin('Sub', n, Int(1))
    lv = st.read(elem(p, last))
    c.ev(st, 'remove', vec=p, at=i, val=v, how=c.name)
    if c.name == 'swap_remove':
        st.write(elem(p, i), lv, (c.key,) + tuple(c.eng.tags))
    else:
        st.kill(elem(p, '*'))
        st.wm()[elem(p, '*')] = c.fresh('shifted')
    st.wm()[field(p, '#len')] = last
    return [(st, v)]


@model('prim:slice::swap')
def m_sswap(c):
    st = c.st
    p = c.place()
    a, b = elem(p, c.args[1]), elem(p, c.args[2])
    x, y = st.read(a), st.read(b)
    put(c, st, a, y)
    put(c, st, b, x)
    return [(st, UNIT)]


@model('prim:slice::fill')
def m_fill(c):
    st = c.st
    p = c.place()
    st.kill(elem(p, '*'))
    st.wm()[elem(p, '*')] = T('vecrep', c.args[1], T('sym', '#n'))
    c.ev(st, 'fill', vec=p, val=c.args[1])
    return [(st, UNIT)]


@model('prim:slice::first', 'prim:slice::last', 'prim:slice::get', 'prim:slice::get_mut', 'prim:slice::first_mut', 'prim:slice::last_mut')
def m_get(c):
    st = c.st
    p = c.place()
    n = vlen(st, p)
    if c.name.startswith('get'):
        if c.tys[1] != ['int', 'usize']:
            return opaque(c)
        i = c.args[1]
    elif c.name.startswith('first'):
        i = Int(0)
    else:
        i = Bin('Sub', n, Int(1))
    cond = Bin('Lt', i, n) if c.name.startswith('get') else Bin('Lt', Int(0), n)
    out = []
    s2 = st.copy()
    if st.assume(cond, True):
        out.append((st, Some(Ref(elem(p, i)))))
    if s2.assume(cond, False):
        out.append((s2, NONE))
    return out


@model('Index::index', 'IndexMut::index_mut')
def m_index(c):
    if is_local(c):
        return None
    st = c.st
    n = adt_name(c.self_ty)
    if n in ('HashMap', 'BTreeMap'):
        return [(st, Ref(sub_(c.place(), ('k', c.val(1)))))]
    if n not in ('Vec', 'VecDeque', None):
        return None
    p = c.place()
    it = strip_refs(c.info['args'][1]) if len(c.info.get('args', [])) > 1 else ['int', 'usize']
    i = c.args[1]
    if it[0] == 'int':
        c.ev(st, 'index', vec=p, at=i)
        return [(st, Ref(elem(p, i)))]
    nm = adt_name(it)
    ln = vlen(st, p)
    if nm == 'Range' and i.op == 'agg':
        lo, hi = i.args[3]
    elif nm == 'RangeFrom' and i.op == 'agg':
        lo, hi = i.args[3][0], ln
    elif nm == 'RangeTo' and i.op == 'agg':
        lo, hi = Int(0), i.args[3][0]
    elif nm == 'RangeFull':
        return [(st, c.args[0])]
    else:
        return opaque(c)
    q = sub_(p, ('sl', 'range', lo))
    st.wm()[field(q, '#len')] = Bin('Sub', hi, lo)
    return [(st, Ref(q))]


@model('prim:slice::split_at_mut', 'prim:slice::split_at')
def m_split(c):
    st = c.st
    p = c.place()
    n = c.args[1]
    ln = vlen(st, p)
    lo, hi = sub_(p, ('sl', 'lo', Int(0))), sub_(p, ('sl', 'hi', n))
    m = st.wm()
    m[field(lo, '#len')] = n
    m[field(hi, '#len')] = Bin('Sub', ln, n)
    c.ev(st, 'split', vec=p, at=n, len=ln)
    return [(st, Tup(Ref(lo), Ref(hi)))]


@model('Vec::split_off')
def m_split_off(c):
    st = c.st
    p = c.place()
    n = c.args[1]
    ln = vlen(st, p)
    v = st.read(p)
    c.ev(st, 'truncate', vec=p, n=n, old_len=ln)
    st.wm()[field(p, '#len')] = n
    return [(st, T('tail', v, n, Bin('Sub', ln, n)))]


def all_elems(st, p):
    return st.read(p)


@model('Vec::drain', 'VecDeque::drain')
def m_drain(c):
    st = c.st
    p = c.place()
    it = adt_name(c.info['args'][-1]) if c.info.get('args') else 'RangeFull'
    full = 'RangeFull' in str(c.tys[1]) or it == 'RangeFull'
    v = st.read(p)
    rng = () if full else (('range', c.args[1]),)
    c.ev(st, 'drain', vec=p, full=full, range=c.args[1], val=v)
    st.kill(p)
    if full:
        st.wm()[p] = EMPTYVEC
    else:
        st.wm()[p] = c.fresh('drained')
    return [(st, It('own', v, ('src', p), *rng))]


@model('Vec::retain', 'Vec::retain_mut')
def m_retain(c):
    st = c.st
    p = c.place()
    outcomes = []
    it = It('vec', p)

    def on(s, e):
        cs = []
        outcomes.clear() if False else None
        for s2, b in c.callv(s, c.args[1], [e], 'ret'):
            for s3, t in fork_bool(s2, b):
                c.ev(s3, 'retain', vec=p, elem=e, keep=t)
                cs.append(s3)
        return cs, []
    r = consume(c, st, it, on, 'retain')
    s = one(c, r['end'])
    n = vlen(s, p)
    s.kill(elem(p, '*'))
    for k in [k for k in s.mem if k[0] == p[0] and len(k[1]) > len(p[1]) and k[1][:len(p[1])] == p[1] and k[1][len(p[1])][0] == 'i']:
        del s.wm()[k]
    s.wm()[elem(p, '*')] = c.fresh('retained')
    nl = c.fresh('retlen')
    s.wm()[field(p, '#len')] = nl
    s.assume(Bin('Le', nl, n), True)
    c.ev(s, 'retained', vec=p, n=nl, old_len=n)
    return [(s, UNIT)]


@model('prim:slice::sort_unstable_by', 'prim:slice::sort_by', 'prim:slice::sort_by_key', 'prim:slice::sort_unstable_by_key',
       'prim:slice::sort', 'prim:slice::sort_unstable', 'prim:slice::reverse', 'prim:slice::sort_by_cached_key',
       'prim:slice::select_nth_unstable_by', 'prim:slice::rotate_left', 'prim:slice::rotate_right')
def m_sort(c):
    st = c.st
    p = c.place()
    a, b = Ref(elem(p, T('sym', 'sort.a'))), Ref(elem(p, T('sym', 'sort.b')))
    res = []
    n = vlen(st, p)
    if c.name in ('sort_unstable_by', 'sort_by', 'select_nth_unstable_by'):
        base = st.copy()
        base.wf()
        fn = c.args[-1]
        for s, v in c.callv(base, fn, [a, b], 'cmp'):
            res.append((s.facts, v, s))
    elif 'key' in c.name:
        base = st.copy()
        for s, ka in c.callv(base, c.args[1], [a], 'ka'):
            for s2, kb in c.callv(s, c.args[1], [b], 'kb'):
                res.append((s2.facts, T('cmp', content(s2, ka), content(s2, kb)), s2))
    elif c.name in ('sort', 'sort_unstable'):
        res.append((st.facts, T('cmp', content(st, a), content(st, b)), st.copy()))
    c.ev(st, 'sort', vec=p, how=c.name, a=st.read(a.args[0]), b=st.read(b.args[0]), res=res, n=n, args=tuple(c.args[1:]))
    root, projs = p
    # permute: forget which element is where
    tgt = elem(p, '*')
    st.kill(tgt)
    st.wm()[tgt] = c.fresh('sorted')
    if c.name.startswith('select'):
        return [(st, c.fresh('sel'))]
    return [(st, UNIT)]


@model('Extend::extend', 'Vec::extend_from_slice', 'Vec::append')
def m_extend(c):
    st = c.st
    if is_local(c) or adt_name(c.self_ty) not in ('Vec', 'VecDeque'):
        return opaque(c)
    p = c.place()
    if c.name == 'extend_from_slice':
        it = It('vec', c.place(1), ('cloned',))
    elif c.name == 'append':
        q = c.place(1)
        it = It('own', st.read(q), ('src', q))
        st.kill(q)
        st.wm()[q] = EMPTYVEC
        c.ev(st, 'drain', vec=q, full=True, range=None, val=it.args[1])
    else:
        it = to_iter(c, st, c.args[1], c.tys[1])

    r = consume(c, st, it, push_to(c, p, c.name == 'extend' and ext_by_ref(c)), 'extend')
    return [(one(c, r['end']), UNIT)]


def push_to(c, p, by_ref=False):
    def on(s, e):
        n = vlen(s, p)
        e2 = content(s, e) if e.op == 'ref' and by_ref else e
        c.ev(s, 'push', vec=p, val=e2, at=n)
        s.kill(elem(p, n))
        s.wm()[elem(p, n)] = e2
        s.wm()[field(p, '#len')] = Bin('Add', n, Int(1))
        return [s], []
    return on


def ext_by_ref(c):
    a = c.info.get('args') or []
    return len(a) > 1 and a[1][0] == 'ref'


# ---- iteration
def to_iter(c, st, v, ty=None):
    if v.op == 'it':
        return v
    ty = ty or ['?']
    if v.op == 'ref':
        n = adt_name(ty)
        t = strip_refs(ty)
        if n in ('HashMap', 'BTreeMap'):
            return It('map', v.args[0])
        if n in ('HashSet',):
            return It('keys', v.args[0])
        if n in ('Vec', 'VecDeque') or t[0] in ('slice', 'array', '?'):
            x = content(st, v)
            if x.op == 'it':
                return x
            return It('vec', v.args[0])
        x = content(st, v)
        if x.op == 'it':
            return x
        return It('opaque', x)
    if v.op == 'agg' and v.args[0].endswith('Range'):
        return It('range', v)
    if v.op == 'agg' and v.args[0].endswith('RangeInclusive'):
        return It('rangei', v)
    if ty[0] == 'adt':
        n = adt_name(ty)
        if n in ('Vec', 'VecDeque'):
            return It('own', v)
        if n in ('HashMap', 'BTreeMap'):
            return It('mapown', v)
        if n == 'Option':
            return It('opt', v)
        if n == 'RangeInclusive':
            return It('opaque', v)
        if ty[0] == 'adt' and n not in ('Vec',):
            return v
    if ty[0] == 'array':
        return It('own', v)
    return v if v.op != 'agg' else It('own', v)


@model('IntoIterator::into_iter')
def m_into_iter(c):
    if is_local(c):
        return None
    return [(c.st, to_iter(c, c.st, c.args[0], c.tys[0]))]


@model('prim:slice::iter', 'prim:slice::iter_mut', 'VecDeque::iter', 'VecDeque::iter_mut', 'BinaryHeap::iter')
def m_iter(c):
    return [(c.st, It('vec', c.place()))]


@model('HashMap::iter', 'HashMap::iter_mut')
def m_miter(c):
    return [(c.st, It('map', c.place()))]


@model('HashMap::keys', 'HashSet::iter')
def m_keys(c):
    return [(c.st, It('keys', c.place()))]


@model('HashMap::values', 'HashMap::values_mut')
def m_values(c):
    return [(c.st, It('values', c.place()))]


@model('HashMap::into_values')
def m_into_values(c):
    return [(c.st, It('valuesown', c.args[0]))]


@model('HashMap::into_keys')
def m_into_keys(c):
    return [(c.st, It('keysown', c.args[0]))]


@model('HashMap::drain', 'HashSet::drain')
def m_mdrain(c):
    st = c.st
    p = c.place()
    v = st.read(p)
    c.ev(st, 'drain', vec=p, full=True, map=True, range=None, val=v)
    st.kill(p)
    st.wm()[p] = EMPTYMAP
    return [(st, It('mapown', v, ('src', p)))]


@model('RangeInclusive::new')
def m_ri(c):
    return [(c.st, Agg('RangeInclusive', 'RangeInclusive', ('start', 'end'), tuple(c.args)))]


def adapter(c, *ad):
    it = c.args[0]
    if it.op == 'ref':
        it = content(c.st, it)
    if it.op != 'it':
        it = to_iter(c, c.st, it, c.tys[0])
    if it.op != 'it':
        it = It('opaque', it)
    return [(c.st, T('it', it.args[0], it.args[1], it.args[2] + (tuple(ad),)))]


@model('Iterator::copied', 'Iterator::cloned', 'Iterator::rev', 'Iterator::enumerate', 'Iterator::peekable', 'Iterator::fuse',
       'Iterator::map', 'Iterator::filter', 'Iterator::filter_map', 'Iterator::flat_map', 'Iterator::take', 'Iterator::skip',
       'Iterator::step_by', 'Iterator::take_while', 'Iterator::skip_while', 'Iterator::inspect')
def m_adapter(c):
    if is_local(c):
        return None
    n = c.name
    if n == 'flat_map':
        return opaque(c)
    return adapter(c, n, *c.args[1:])


@model('Iterator::by_ref')
def m_byref(c):
    return [(c.st, c.args[0])]


@model('Iterator::zip', 'Iterator::chain')
def m_zip(c):
    a = to_iter(c, c.st, c.args[0], c.tys[0])
    b = to_iter(c, c.st, c.args[1], c.tys[1])
    return [(c.st, It(c.name, Tup(a, b)))]


@model('Iterator::next', 'DoubleEndedIterator::next_back')
def m_next(c):
    if is_local(c):
        return None
    st = c.st
    it = c.val(0)
    if it.op != 'it':
        it2 = to_iter(c, st, it, c.tys[0])
        if it2.op != 'it':
            return opaque(c)
        it = it2
    out = []
    for s, e in next_elem(c, st, it):
        if e is None:
            c.ev(s, 'exhausted', it=it, key=c.key)
            out.append((s, NONE))
        else:
            c.ev(s, 'next', it=it, elem=e, key=c.key)
            out.append((s, Some(e)))
    return out


def the_it(c, i=0):
    it = c.args[i]
    if it.op == 'ref':
        it = content(c.st, it)
    if it.op != 'it':
        it = to_iter(c, c.st, it, c.tys[i])
    if it.op != 'it':
        it = It('opaque', it)
    return it


@model('Iterator::for_each')
def m_for_each(c):
    it = the_it(c)

    def on(s, e):
        return [x for x, _ in c.callv(s, c.args[1], [e], 'fe')], []
    r = consume(c, c.st, it, on, 'for_each')
    ss = r['end']
    for s in ss:
        c.ev(s, 'exhausted', it=it, key=c.key)
    return [(s, UNIT) for s in ss]


@model('Iterator::any', 'Iterator::all', 'Iterator::find', 'Iterator::position', 'Iterator::find_map')
def m_search(c):
    it = the_it(c)
    n = c.name
    found = []

    def on(s, e):
        conts, exits = [], []
        arg = RefTo(e) if n == 'find' else e
        for s2, b in c.callv(s, c.args[1], [arg], n):
            if n == 'find_map':
                for s3, nm in fork(s2, b, ['Some', 'None']):
                    if nm == 'Some':
                        exits.append((('found', b), s3))
                    else:
                        conts.append(s3)
                continue
            want = n != 'all'
            s3 = s2.copy()
            if s3.assume(b, want):
                exits.append((('found', e), s3))
            if s2.assume(b, not want):
                conts.append(s2)
        return conts, exits
    r = consume(c, c.st, it, on, n)
    out = []
    for lbl, ss in r.items():
        for s in ss:
            if lbl == 'end':
                v = {'any': FALSE, 'all': TRUE}.get(n, NONE)
            else:
                e = lbl[1]
                v = {'any': TRUE, 'all': FALSE, 'find': Some(e), 'find_map': e, 'position': Some(position_of(it, e) or c.fresh('pos'))}[n]
            out.append((s, v))
    return out


def position_of(it, e):
    """where a generic element of a vector stands in it"""
    if it.op == 'it' and it.args[0] == 'vec' and all(a[0] in ('copied', 'cloned') for a in it.args[2]):
        if e.op == 'ref' and e.args[0][1] and e.args[0][1][-1][0] == 'i':
            return e.args[0][1][-1][1]
        if e.op == 'idx':
            return e.args[-1]
    return None


@model('Iterator::max', 'Iterator::min', 'Iterator::max_by_key', 'Iterator::min_by_key',
       'Iterator::sum', 'Iterator::product', 'Iterator::count', 'Iterator::last')
def m_reduce(c):
    """reductions: the key function is evaluated on a generic element; the result is a symbolic reduction"""
    it = the_it(c)
    n = c.name
    elems = []

    def on(s, e):
        v = e
        out = []
        if n.endswith('by_key'):
            for s2, k in c.callv(s, c.args[1], [RefTo(e)], n):
                elems.append((content(s2, e), content(s2, k), s2.facts))
                out.append(s2)
            return out, []
        elems.append((content(s, e), content(s, e), s.facts))
        return [s], []
    r = consume(c, c.st, it, on, n)
    s = one(c, r['end'])
    uniq = []
    for e, k, f in elems:
        if (e, k) not in uniq:
            uniq.append((e, k))
    red = T('red', n, it, tuple(x for p in uniq[-1:] for x in p if x is not None), c.fresh('red'))
    c.ev(s, 'reduce', how=n, it=it, elems=list(elems), ret=red, cmp=c.args[1:] and c.args[1] or None, key=c.key)
    if n in ('sum', 'product', 'count'):
        return [(s, red)]
    s2 = s.copy()
    out = []
    if s.assume_variant(red, 'Some', True, ['None', 'Some']):
        out.append((s, Some(T('fld', T('down', red, 'Some'), '0'))))
    if s2.assume_variant(red, 'None', True, ['None', 'Some']):
        out.append((s2, NONE))
    return out


@model('Iterator::fold')
def m_fold(c):
    it = the_it(c)
    acc = (('tmp', c.key + ('acc',)), ())
    c.st.wm()[acc] = c.args[1]

    def on(s, e):
        out = []
        for s2, v in c.callv(s, c.args[2], [s.read(acc), e], 'fold'):
            s2.kill(acc)
            s2.wm()[acc] = v
            out.append(s2)
        return out, []
    r = consume(c, c.st, it, on, 'fold')
    return [(s, s.read(acc)) for s in r['end']]


@model('Iterator::reduce', 'Iterator::max_by', 'Iterator::min_by')
def m_fold1(c):
    """the first element, then combined with every further one"""
    n = c.name
    it = the_it(c)
    acc = (('tmp', c.key + ('acc',)), ())
    c.st.wm()[acc] = NONE

    def on(s, e):
        out = []
        for s2, nm in fork(s, s.read(acc), ['Some', 'None']):
            if nm == 'None':
                outs = [(s2, e)]
            elif n == 'reduce':
                outs = c.callv(s2, c.args[1], [payload(s2.read(acc), 'Some'), e], n)
            else:
                a, outs = payload(s2.read(acc), 'Some'), []
                for s3, o in c.callv(s2, c.args[1], [RefTo(a), RefTo(e)], n):
                    for s4, w in fork(s3, o, ['Less', 'Equal', 'Greater']):
                        outs.append((s4, a if (w == 'Greater') == (n == 'max_by') else e))
            for s3, v in outs:
                s3.kill(acc)
                s3.wm()[acc] = Some(v)
                out.append(s3)
        return out, []
    r = consume(c, c.st, it, on, n)
    return [(s, s.read(acc)) for s in r['end']]


@model('Iterator::collect')
def m_collect(c):
    it = the_it(c)
    elems = []
    if adt_name(c.rty) == 'Vec':
        p = (('tmp', c.key + ('col',) + tuple(c.eng.tags)), ())
        c.st.kill(p)
        c.st.wm()[p] = EMPTYVEC
        r = consume(c, c.st, it, push_to(c, p), 'collect')
        s = one(c, r['end'])
        return [(s, s.read(p))]

    def on(s, e):
        c.ev(s, 'collect', it=it, elem=e, val=content(s, e))
        elems.append((e, s.facts))
        return [s], []
    r = consume(c, c.st, it, on, 'collect')
    s = one(c, r['end'])
    es = tuple(dict.fromkeys(e for e, _ in elems))
    return [(s, T('collected', it, es[-1:], c.fresh('col')))]


@model('iter::successors', 'successors::successors')
def m_successors(c):
    cur = (('tmp', c.key + ('succ',) + tuple(c.eng.tags)), ())
    c.st.kill(cur)
    c.st.wm()[cur] = c.args[0]
    return [(c.st, It('succ', Tup(Ref(cur), c.args[1])))]


@model('iter::once', 'once::once')
def m_once(c):
    return [(c.st, It('opt', Some(c.args[0])))]


@model('iter::empty', 'empty::empty')
def m_empty(c):
    return [(c.st, It('opt', NONE))]


# ---- maps
def mver(st, p):
    return st.read(field(p, '#ver'))


def mkey(st, v):
    v = content(st, v)
    while v.op in ('arc', 'cloned'):
        v = v.args[0]
    if v.op == 'deref':
        v = v.args[0]
    if v.op == 'init' and v.args[0][1] and v.args[0][1][-1] == ('d',):
        v = T('init', (v.args[0][0], v.args[0][1][:-1]))
    return v


def set_len(st, p, v):
    st.wm()[field(p, '#len')] = v


@model('HashMap::get', 'HashMap::get_mut', 'HashMap::contains_key', 'BTreeMap::get')
def m_mget(c):
    st = c.st
    p = c.place()
    k = mkey(st, c.args[1])
    ver = mver(st, p)
    lk = T('lookup', p, ver, k)
    known = None
    if ver.op == 'ins' and ver.args[1] is k:
        known = 'Some'
    elif ver.op == 'rem' and ver.args[1] is k or (ver.op == 'sym' and ver.args[0] == 'empty'):
        known = 'None'
    c.ev(st, 'mget', map=p, mkey=k, how=c.name, lookup=lk)
    if c.name == 'contains_key':
        if known:
            return [(st, Bool(known == 'Some'))]
        return [(st, IsVar(lk, 'Some'))]
    out = []
    for s, n in ([(st, known)] if known else fork(st, lk, ['Some', 'None'])):
        out.append((s, Some(Ref(sub_(p, ('k', k)))) if n == 'Some' else NONE))
    return out


@model('HashMap::insert', 'BTreeMap::insert')
def m_minsert(c):
    st = c.st
    p = c.place()
    k = mkey(st, c.args[1])
    c.ev(st, 'minsert', map=p, mkey=k, rawkey=c.args[1], val=c.args[2])
    return do_insert(c, st, p, k, c.args[2], c.fresh('oldv'))


def do_insert(c, st, p, k, v, ret):
    ver = mver(st, p)
    ln = vlen(st, p)
    st.write(sub_(p, ('k', k)), v, (c.key,) + tuple(c.eng.tags))
    st.wm()[field(p, '#ver')] = T('ins', ver, k)
    st.wm()[field(p, '#len')] = c.fresh('mlen')
    return [(st, ret)]


@model('HashSet::insert')
def m_sinsert(c):
    st = c.st
    p = c.place()
    k = mkey(st, c.args[1])
    c.ev(st, 'minsert', map=p, mkey=k, rawkey=c.args[1], val=UNIT)
    return do_insert(c, st, p, k, UNIT, c.fresh('newly'))


@model('HashMap::remove', 'HashSet::remove', 'HashMap::remove_entry')
def m_mremove(c):
    st = c.st
    p = c.place()
    k = mkey(st, c.args[1])
    ver = mver(st, p)
    c.ev(st, 'mremove', map=p, mkey=k)
    v = st.read(sub_(p, ('k', k)))
    st.wm()[field(p, '#ver')] = T('rem', ver, k)
    st.wm()[field(p, '#len')] = c.fresh('mlen')
    if c.rty == ['bool']:
        return [(st, c.fresh('removed'))]
    lk = T('lookup', p, ver, k)
    out = []
    for s, n in fork(st, lk, ['Some', 'None']):
        out.append((s, Some(v) if n == 'Some' else NONE))
    return out


@model('HashMap::retain')
def m_mretain(c):
    st = c.st
    p = c.place()

    def on(s, e):
        cs = []
        for s2, b in c.callv(s, c.args[1], list(e.args[3]), 'ret'):
            for s3, t in fork_bool(s2, b):
                c.ev(s3, 'retain', vec=p, elem=e, keep=t)
                cs.append(s3)
        return cs, []
    r = consume(c, st, It('map', p), on, 'retain')
    s = one(c, r['end'])
    s.wm()[field(p, '#ver')] = c.fresh('mret')
    s.wm()[field(p, '#len')] = c.fresh('mlen')
    return [(s, UNIT)]


@model('HashMap::entry', 'BTreeMap::entry')
def m_entry(c):
    st = c.st
    p = c.place()
    k = mkey(st, c.args[1])
    ver = mver(st, p)
    e = T('entry', p, ver, k, c.args[1])
    c.ev(st, 'mget', map=p, mkey=k, how='entry', lookup=e)
    if ver.op == 'ins' and ver.args[1] is k:
        st.assume_variant(e, 'Occupied', True, ['Occupied', 'Vacant'])
    elif ver.op == 'sym' and ver.args[0] == 'empty':
        st.assume_variant(e, 'Vacant', True, ['Occupied', 'Vacant'])
    return [(st, e)]


def entry_of(st, t):
    t = content(st, t)
    while t.op in ('fld', 'down'):
        t = t.args[0]
    return t if t.op == 'entry' else None


@model('OccupiedEntry::get', 'OccupiedEntry::get_mut', 'OccupiedEntry::into_mut')
def m_oget(c):
    e = entry_of(c.st, c.args[0])
    if e is None:
        return opaque(c)
    return [(c.st, Ref(sub_(e.args[0], ('k', e.args[2]))))]


@model('OccupiedEntry::insert')
def m_oins(c):
    e = entry_of(c.st, c.args[0])
    if e is None:
        return opaque(c)
    st = c.st
    old = st.read(sub_(e.args[0], ('k', e.args[2])))
    c.ev(st, 'minsert', map=e.args[0], mkey=e.args[2], rawkey=e.args[3], val=c.args[1])
    return do_insert(c, st, e.args[0], e.args[2], c.args[1], old)


@model('OccupiedEntry::remove')
def m_orem(c):
    e = entry_of(c.st, c.args[0])
    if e is None:
        return opaque(c)
    st = c.st
    old = st.read(sub_(e.args[0], ('k', e.args[2])))
    c.ev(st, 'mremove', map=e.args[0], mkey=e.args[2])
    st.wm()[field(e.args[0], '#ver')] = T('rem', e.args[1], e.args[2])
    return [(st, old)]


@model('VacantEntry::insert')
def m_vins(c):
    e = entry_of(c.st, c.args[0])
    if e is None:
        return opaque(c)
    st = c.st
    c.ev(st, 'minsert', map=e.args[0], mkey=e.args[2], rawkey=e.args[3], val=c.args[1])
    do_insert(c, st, e.args[0], e.args[2], c.args[1], UNIT)
    return [(st, Ref(sub_(e.args[0], ('k', e.args[2]))))]


@model('OccupiedEntry::key', 'VacantEntry::key', 'Entry::key')
def m_ekey(c):
    e = entry_of(c.st, c.args[0])
    if e is None:
        return opaque(c)
    return [(c.st, RefTo(e.args[3]))]


@model('Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_default', 'Entry::or_insert_with_key')
def m_orins(c):
    e = entry_of(c.st, c.args[0])
    if e is None:
        return opaque(c)
    st = c.st
    out = []
    pl = sub_(e.args[0], ('k', e.args[2]))
    for s, n in fork(st, e, ['Occupied', 'Vacant']):
        if n == 'Occupied':
            out.append((s, Ref(pl)))
        else:
            if c.name == 'or_insert':
                vs = [(s, c.args[1])]
            elif c.name == 'or_insert_with':
                vs = c.callv(s, c.args[1], [], 'oi')
            elif c.name == 'or_insert_with_key':
                vs = c.callv(s, c.args[1], [RefTo(e.args[3])], 'oi')
            else:
                t = c.rty[1] if c.rty[0] == 'ref' else ['?']
                vs = [(s, default_of(c, t))]
            for s2, v in vs:
                c.ev(s2, 'minsert', map=e.args[0], mkey=e.args[2], rawkey=e.args[3], val=v)
                do_insert(c, s2, e.args[0], e.args[2], v, UNIT)
                out.append((s2, Ref(pl)))
    return out


@model('Entry::and_modify')
def m_andmod(c):
    e = entry_of(c.st, c.args[0])
    if e is None:
        return opaque(c)
    out = []
    pl = sub_(e.args[0], ('k', e.args[2]))
    for s, n in fork(c.st, e, ['Occupied', 'Vacant']):
        if n == 'Occupied':
            out += [(s2, c.args[0]) for s2, _ in c.callv(s, c.args[1], [Ref(pl)], 'am')]
        else:
            out.append((s, c.args[0]))
    return out


# ---- options / results
def opt_cases(c, i=0, names=('Some', 'None')):
    v = c.args[i]
    return [(s, n, v) for s, n in fork(c.st, v, list(names))]


OK = lambda x: T('agg', 'Result', 'Ok', ('0',), (x,))
ERR = lambda x: T('agg', 'Result', 'Err', ('0',), (x,))


def names_of(c):
    return ('Ok', 'Err') if '::result::' in c.path else ('Some', 'None')


def wrap(names, x):
    return Some(x) if names[0] == 'Some' else OK(x)


def other(names, v):
    return NONE if names[0] == 'Some' else ERR(payload(v, 'Err'))


@model('Option::map', 'Result::map')
def m_omap(c):
    ns = names_of(c)
    out = []
    for s, n, v in opt_cases(c, 0, ns):
        if n == ns[0]:
            out += [(s2, wrap(ns, r)) for s2, r in c.callv(s, c.args[1], [payload(v, n)], 'map')]
        else:
            out.append((s, other(ns, v)))
    return out


@model('Result::map_err')
def m_maperr(c):
    out = []
    for s, n, v in opt_cases(c, 0, ('Ok', 'Err')):
        if n == 'Ok':
            out.append((s, OK(payload(v, 'Ok'))))
        else:
            out += [(s2, ERR(r)) for s2, r in c.callv(s, c.args[1], [payload(v, 'Err')], 'map')]
    return out


@model('Option::map_or', 'Result::map_or')
def m_mapor(c):
    ns = names_of(c)
    out = []
    for s, n, v in opt_cases(c, 0, ns):
        if n == ns[0]:
            out += c.callv(s, c.args[2], [payload(v, n)], 'map')
        else:
            out.append((s, c.args[1]))
    return out


@model('Option::map_or_else', 'Result::map_or_else')
def m_maporelse(c):
    ns = names_of(c)
    out = []
    for s, n, v in opt_cases(c, 0, ns):
        if n == ns[0]:
            out += c.callv(s, c.args[2], [payload(v, n)], 'map')
        else:
            out += c.callv(s, c.args[1], [] if ns[0] == 'Some' else [payload(v, 'Err')], 'else')
    return out


@model('Option::and_then', 'Result::and_then')
def m_andthen(c):
    ns = names_of(c)
    out = []
    for s, n, v in opt_cases(c, 0, ns):
        if n == ns[0]:
            out += c.callv(s, c.args[1], [payload(v, n)], 'at')
        else:
            out.append((s, other(ns, v)))
    return out


@model('Option::filter')
def m_ofilter(c):
    out = []
    for s, n, v in opt_cases(c):
        if n == 'Some':
            for s2, b in c.callv(s, c.args[1], [RefTo(payload(v, 'Some'))], 'f'):
                for s3, t in fork_bool(s2, b):
                    out.append((s3, v if t else NONE))
        else:
            out.append((s, NONE))
    return out


@model('Option::unwrap_or', 'Result::unwrap_or')
def m_unwrap_or(c):
    ns = names_of(c)
    return [(s, payload(v, n) if n == ns[0] else c.args[1]) for s, n, v in opt_cases(c, 0, ns)]


@model('Option::unwrap_or_default', 'Result::unwrap_or_default')
def m_unwrap_def(c):
    ns = names_of(c)
    return [(s, payload(v, n) if n == ns[0] else default_of(c, c.rty)) for s, n, v in opt_cases(c, 0, ns)]


@model('Option::unwrap_or_else', 'Result::unwrap_or_else')
def m_unwrap_or_else(c):
    ns = names_of(c)
    out = []
    for s, n, v in opt_cases(c, 0, ns):
        if n == ns[0]:
            out.append((s, payload(v, n)))
        else:
            out += c.callv(s, c.args[1], [] if ns[0] == 'Some' else [payload(v, 'Err')], 'else')
    return out


@model('Option::and')
def m_and(c):
    return [(s, c.args[1] if n == 'Some' else NONE) for s, n, v in opt_cases(c)]


@model('Option::or', 'Option::or_else')
def m_or(c):
    out = []
    for s, n, v in opt_cases(c):
        if n == 'Some':
            out.append((s, v))
        elif c.name == 'or':
            out.append((s, c.args[1]))
        else:
            out += c.callv(s, c.args[1], [], 'else')
    return out


@model('Option::unwrap', 'Result::unwrap', 'Option::expect', 'Result::expect', 'Option::unwrap_unchecked')
def m_unwrap(c):
    ns = names_of(c)
    v = c.args[0]
    kn = c.st.facts.variant(v)
    c.ev(c.st, 'unwrap', val=v, safe=kn == ns[0])
    out = []
    for s, n in fork(c.st, v, list(ns)):
        if n == ns[0]:
            out.append((s, payload(v, n)))
    return out


@model('Result::unwrap_err')
def m_unwrap_err(c):
    v = c.args[0]
    return [(s, payload(v, 'Err')) for s, n in fork(c.st, v, ['Ok', 'Err']) if n == 'Err']


@model('Option::is_some', 'Option::is_none', 'Result::is_ok', 'Result::is_err')
def m_is(c):
    v = c.val(0)
    w = {'is_some': 'Some', 'is_none': 'None', 'is_ok': 'Ok', 'is_err': 'Err'}[c.name]
    k = c.st.facts.variant(v)
    if k:
        return [(c.st, Bool(k == w))]
    if c.name in ('is_none', 'is_err'):
        return [(c.st, Not(IsVar(v, 'Some' if c.name == 'is_none' else 'Ok')))]
    return [(c.st, IsVar(v, w))]


@model('Option::is_some_and', 'Option::is_none_or')
def m_is_some_and(c):
    out = []
    for s, n, v in opt_cases(c):
        if n == 'Some':
            out += c.callv(s, c.args[1], [payload(v, 'Some')], 'isa')
        else:
            out.append((s, Bool(c.name == 'is_none_or')))
    return out


@model('Option::as_ref', 'Option::as_mut', 'Result::as_ref', 'Option::as_deref', 'Option::as_deref_mut')
def m_oasref(c):
    ns = names_of(c)
    p = c.place()
    v = c.st.read(p)
    out = []
    for s, n in fork(c.st, v, list(ns)):
        if n == ns[0]:
            if v.op in ('agg', 'with') or v.op == 'optmap':
                r = payload(v, n)
                # keep a reference to the actual location so that writes are visible
                out.append((s, wrap(ns, Ref(sub_(p, ('v', n), ('f', '0'))))))
            else:
                out.append((s, wrap(ns, Ref(sub_(p, ('v', n), ('f', '0'))))))
        else:
            out.append((s, NONE if ns[0] == 'Some' else ERR(Ref(sub_(p, ('v', 'Err'), ('f', '0'))))))
    return out


@model('Option::ok_or', 'Option::ok_or_else')
def m_okor(c):
    out = []
    for s, n, v in opt_cases(c):
        if n == 'Some':
            out.append((s, OK(payload(v, 'Some'))))
        elif c.name == 'ok_or':
            out.append((s, ERR(c.args[1])))
        else:
            out += [(s2, ERR(e)) for s2, e in c.callv(s, c.args[1], [], 'else')]
    return out


@model('Result::ok', 'Result::err')
def m_ok(c):
    w = 'Ok' if c.name == 'ok' else 'Err'
    return [(s, Some(payload(v, n)) if n == w else NONE) for s, n, v in opt_cases(c, 0, ('Ok', 'Err'))]


@model('Option::get_or_insert_with', 'Option::get_or_insert')
def m_goi(c):
    p = c.place()
    v = c.st.read(p)
    out = []
    for s, n in fork(c.st, v, ['Some', 'None']):
        if n == 'Some':
            out.append((s, payload_ref(p, 'Some')))
        else:
            vs = [(s, c.args[1])] if c.name == 'get_or_insert' else c.callv(s, c.args[1], [], 'g')
            for s2, x in vs:
                put(c, s2, p, Some(x))
                out.append((s2, payload_ref(p, 'Some')))
    return out


@model('Try::branch')
def m_branch(c):
    v = c.args[0]
    isopt = adt_name(c.self_ty) == 'Option'
    ns = ('Some', 'None') if isopt else ('Ok', 'Err')
    out = []
    for s, n in fork(c.st, v, list(ns)):
        if n == ns[0]:
            out.append((s, Agg('ControlFlow', 'Continue', ('0',), (payload(v, n),))))
        else:
            out.append((s, Agg('ControlFlow', 'Break', ('0',), (NONE if isopt else ERR(payload(v, 'Err')),))))
    return out


@model('FromResidual::from_residual')
def m_residual(c):
    return [(c.st, c.args[0])]


# ---- orderings and comparisons
def lexicographic(c, s, a, b):
    """states with the two first parts that differ (or the last two), for tuples of the same size"""
    out = []
    for x, y in list(zip(a.args[3], b.args[3]))[:-1]:
        for op in ('Lt', 'Gt'):
            s2 = s.copy()
            if s2.assume(Bin(op, x, y), True):
                out.append((s2, x, y, op))
        if not s.assume(Bin('Eq', x, y), True):
            return out
    out.append((s, a.args[3][-1], b.args[3][-1], None))
    return out


def tuples(c, a, b):
    return all(t.op == 'agg' and t.args[0] == 'tuple' and t.args[3] for t in (a, b)) and len(a.args[3]) == len(b.args[3]) and c.self_ty[0] == 'tuple' \
        and all(e[0] in ('int', 'uint', 'bool') for e in c.self_ty[1])


@model('Ord::cmp')
def m_cmp(c):
    if is_local(c):
        return None
    a, b = c.val(0), c.val(1)
    if tuples(c, a, b):
        parts = [T('cmp', x, y) for x, y in zip(a.args[3], b.args[3])]
        return [(c.st, parts[0] if len(parts) == 1 else T('cthen', *parts))]
    return [(c.st, T('cmp', a, b))]


@model('PartialOrd::partial_cmp')
def m_pcmp(c):
    if is_local(c):
        return None
    if c.self_ty[0] in ('float', 'alias', 'param'):
        return [(c.st, T('fpcmp', c.val(0), c.val(1)))]
    return [(c.st, Some(T('cmp', c.val(0), c.val(1))))]


@model('prim:float::total_cmp')
def m_tcmp(c):
    return [(c.st, T('cmp', c.val(0), c.val(1)))]


@model('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def m_lt(c):
    if is_local(c):
        return None
    a, b = c.val(0), c.val(1)
    op = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[c.name]
    if tuples(c, a, b):
        out = []
        for s, x, y, o in lexicographic(c, c.st, a, b):
            if o:
                out.append((s, TRUE if op[0] == o[0] else FALSE))
            elif c.self_ty[1][-1][0] == 'bool' and not {x, y} & {TRUE, FALSE}:
                for v in (True, False):     # false is less than true
                    s2 = s.copy()
                    if s2.assume(x, v):
                        out.append((s2, less(op, TRUE if v else FALSE, y)))
            else:
                out.append((s, less(op, x, y)))
        return out
    return [(c.st, Bin(op, a, b))]


def less(op, x, y):
    """an order between two scalars; false is less than true"""
    if op[0] == 'G':
        op, x, y = 'L' + op[1], y, x
    if y is FALSE or x is TRUE:
        return FALSE if op == 'Lt' else Not(x) if y is FALSE else y
    if x is FALSE or y is TRUE:
        return TRUE if op == 'Le' else y if x is FALSE else Not(x)
    return Bin(op, x, y)


@model('Ord::max', 'Ord::min', 'cmp::max', 'cmp::min')
def m_max(c):
    if is_local(c):
        return None
    a, b = c.args
    return [(c.st, (Max if c.name == 'max' else Min)(a, b))]


@model('Ord::clamp')
def m_clamp(c):
    v, lo, hi = c.args
    return [(c.st, Max(lo, Min(v, hi)))]


@model('PartialEq::eq', 'PartialEq::ne')
def m_eq(c):
    if is_local(c):
        return None
    ty, n = c.self_ty, 1
    while ty[0] == 'ref':       # references are equal when what they point to is
        n, ty = n + 1, ty[1]
    a, b = pointee(c.st, c.args[0], n), pointee(c.st, c.args[1], n)
    if ty[0] == 'float':
        r = T('feq', *sorted((a, b), key=lambda t: t.id))
    else:
        a, b = unarc(a), unarc(b)
        r = Bin('Eq', a, b)
    return [(c.st, r if c.name == 'eq' else Not(r))]


def unarc(t):
    while t.op == 'arc':
        t = t.args[0]
    return t


@model('Ordering::reverse')
def m_rev(c):
    return [(c.st, crev(c.args[0]))]


def crev(v):
    """the opposite ordering (a ranking is taken to be an order)"""
    if v.op == 'crev':
        return v.args[0]
    if v.op == 'agg':
        return Agg(v.args[0], {'Less': 'Greater', 'Greater': 'Less'}.get(v.args[1], 'Equal'), (), ())
    if v.op == 'cmp':
        return T('cmp', v.args[1], v.args[0])
    if v.op == 'cthen' and all(x.op in ('crev', 'cmp') or ranked(x) for x in v.args):
        return T('cthen', *[crev(x) for x in v.args])
    if ranked(v):
        return T('call', v.args[0], v.args[1], v.args[3], v.args[2])
    return T('crev', v)


def ranked(v):
    return v.op == 'call' and v.args[0] == 'StateRanking::compare' and len(v.args) == 4


def cthen(a, b):
    if a.op == 'agg':
        return b if a.args[1] == 'Equal' else a
    xs = (a.args if a.op == 'cthen' else (a,)) + (b.args if b.op == 'cthen' else (b,))
    return T('cthen', *xs)


@model('Ordering::then')
def m_then(c):
    return [(c.st, cthen(c.args[0], c.args[1]))]


@model('Ordering::then_with')
def m_then_with(c):
    a = c.args[0]
    rs = c.callv(c.st, c.args[1], [], 'then')
    return [(s, cthen(a, r)) for s, r in rs]


@model('Ordering::is_gt', 'Ordering::is_lt', 'Ordering::is_eq', 'Ordering::is_ne', 'Ordering::is_ge', 'Ordering::is_le')
def m_isord(c):
    w, neg = {'is_gt': ('Greater', 0), 'is_lt': ('Less', 0), 'is_eq': ('Equal', 0), 'is_ne': ('Equal', 1),
              'is_ge': ('Less', 1), 'is_le': ('Greater', 1)}[c.name]
    r = IsVar(c.args[0], w)
    return [(c.st, Not(r) if neg else r)]


@model('prim:bool::then', 'prim:bool::then_some')
def m_bool_then(c):
    out = []
    s2 = c.st.copy()
    if c.st.assume(c.args[0], True):
        if c.name == 'then':
            out += [(s, Some(r)) for s, r in c.callv(c.st, c.args[1], [], 'then')]
        else:
            out.append((c.st, Some(c.args[1])))
    if s2.assume(c.args[0], False):
        out.append((s2, NONE))
    return out


# ---- integers
def intop(c):
    if c.name.split('::')[-1] in ('max_value', 'min_value') and not c.args and c.rty and c.rty[0] == 'int':
        bits = {'isize': 64, 'usize': 64}.get(c.rty[1]) or int(c.rty[1][1:])
        sg = c.rty[1][0] == 'i'
        hi, lo = ((1 << bits - 1) - 1, -(1 << bits - 1)) if sg else ((1 << bits) - 1, 0)
        return [(c.st, Int(hi if c.name.split('::')[-1] == 'max_value' else lo))]
    n = c.name
    if not c.args or len(c.args) < 2 and n.split('_')[0] in ('saturating', 'wrapping', 'overflowing', 'checked'):
        return [(c.st, T('call', n, *c.args))]
    a = c.args[0]
    b = c.args[1] if len(c.args) > 1 else None
    if n == 'saturating_add':
        x, y = sorted((a, b), key=lambda t: t.id)
        for p, q in ((x, y), (y, x)):
            if p.op == 'int' and p.args[0] == 0:
                return [(c.st, q)]
        return [(c.st, T('sadd', x, y))]
    if n == 'saturating_sub':
        if b.op == 'int' and b.args[0] == 0:
            return [(c.st, a)]
        return [(c.st, T('ssub', a, b))]
    if n in ('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'overflowing_add'):
        c.ev(c.st, 'wrapping', op=n, a=a, b=b)
        return [(c.st, T('call', n, *c.args))]
    if n.startswith('checked_'):
        r = T('call', n, *c.args)
        s2 = c.st.copy()
        out = []
        if n == 'checked_sub' and c.self_ty and c.self_ty[0] == 'int' and c.self_ty[1][0] == 'u':
            if c.st.assume(Bin('Le', b, a), True):      # the difference exists exactly then
                out.append((c.st, Some(Bin('Sub', a, b))))
            if s2.assume(Bin('Le', b, a), False):
                out.append((s2, NONE))
            return out
        if c.st.assume_variant(r, 'Some', True, ['None', 'Some']):
            out.append((c.st, Some(Bin({'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}.get(n[8:], n[8:]), a, b))))
        if s2.assume_variant(r, 'None', True, ['None', 'Some']):
            out.append((s2, NONE))
        return out
    return [(c.st, T('call', n, *c.args))]


for _n in ('saturating_add saturating_sub saturating_mul wrapping_add wrapping_sub wrapping_mul overflowing_add checked_add checked_sub '
           'checked_mul abs unsigned_abs pow count_ones trailing_zeros leading_zeros trailing_ones leading_ones reverse_bits rotate_left rotate_right wrapping_neg abs_diff signum is_positive is_negative rem_euclid '
           'div_euclid min_value max_value').split():
    TABLE['prim:int::' + _n] = intop


@model('Not::not')
def m_not(c):
    if is_local(c):
        return None
    return [(c.st, T('call', 'not', c.val(0)))] if c.self_ty != ['bool'] else [(c.st, Not(c.args[0]))]


@model('Add::add', 'Sub::sub', 'Mul::mul', 'Neg::neg', 'Div::div', 'Rem::rem')
def m_arith(c):
    if is_local(c):
        return None
    ty = strip_refs(c.self_ty)
    a = c.val(0)
    b = c.val(1) if len(c.args) > 1 else None
    if ty[0] == 'int' and b is not None:
        op = c.trait
        if ty[1].startswith('i'):
            c.ev(c.st, 'arith', op=op, a=a, b=b, ty=ty[1], ret=None)
        return [(c.st, Bin(op, a, b))]
    return [(c.st, T('call', c.name, *[x for x in (a, b) if x is not None]))]


# ---- callables
@model('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')
def m_call(c):
    st = c.st
    f = c.args[0]
    tup = c.args[1]
    if tup.op == 'agg':
        args = list(tup.args[3])
    else:
        args = [tup]
    r = c.eng.call_value(c.fr, st, f, args, c.site, c.key + ('fc',), c.rty)
    return r


# ---- threads / process
@model('scoped::scope', 'thread::scope')
def m_scope(c):
    c.ev(c.st, 'scope')
    return c.callv(c.st, c.args[0], [RefTo(T('sym', 'scope'))], 'scope')


@model('Scope::spawn', 'functions::spawn', 'thread::spawn')
def m_spawn(c):
    from .engine import Spawn, H
    st = c.st
    f = c.args[-1]
    th = st.copy()
    th.locks = ()
    e = c.ev(th, 'spawn')
    outs = c.callv(th, f, [], 'spawn')
    for s, v in outs:
        c.ev(s, 'thread_end', val=v)
    st.hist = H(st.hist, e)
    st.hist = H(st.hist, Spawn([s for s, _ in outs], c.site))
    return [(st, c.fresh('join'))]


@model('process::exit', 'process::abort')
def m_exit(c):
    c.ev(c.st, 'exit', code=c.args[0] if c.args else None)
    c.eng.dead.append(c.st)
    return []


@model('thread::sleep', 'functions::sleep')
def m_sleep(c):
    c.ev(c.st, 'sleep', dur=c.args[0])
    return [(c.st, UNIT)]


@model('stdio::_print', 'stdio::_eprint')
def m_print(c):
    c.ev(c.st, 'print', val=c.args[0], which=c.name)
    return [(c.st, UNIT)]


@model('num_cpus::get')
def m_ncpu(c):
    return [(c.st, T('call', 'num_cpus'))]


@model('panicking::panic', 'panicking::panic_fmt', 'panicking::assert_failed', 'panicking::unreachable_display', 'panicking::panic_explicit',
       'rt::begin_panic', 'rt::panic_fmt', 'hint::unreachable_unchecked')
def m_panic(c):
    c.ev(c.st, 'panic')
    return []


@model('Arguments::new', 'Arguments::new_v1', 'Arguments::new_const', 'Arguments::from_str', 'Argument::new_display', 'Argument::new_debug',
       'Arguments::new_v1_formatted', 'Argument::from_usize', 'Argument::none', 'Arguments::from_str_nonconst', 'Argument::new_lower_exp')
def m_fmt(c):
    return [(c.st, T('fmt', c.name, *[content(c.st, a) for a in c.args]))]


@model('Formatter::write_fmt', 'Formatter::write_str', 'Formatter::pad', 'Write::write_str')
def m_wfmt(c):
    c.ev(c.st, 'write_fmt', val=c.val(1))
    return [(c.st, c.fresh('fmtres'))]


@model('Compare::compare')
def m_compare(c):
    if is_local(c):
        return None
    return [(c.st, T('cmp', c.val(1), c.val(2)))]


@model('mem::size_of', 'mem::forget', 'hint::black_box')
def m_misc(c):
    return [(c.st, c.fresh('misc'))]


@model('hint::must_use')
def m_must_use(c):
    return [(c.st, c.args[0])]
