"""C15: property identifiers are compared exactly, stored properties are found under their own identifier only, and a group drops what it computed when its members change."""
from sx.util import *
from sx import maps
from sx.report import lost, foreign

NS = 'SourceXtractor::'
TUS = ('SEFramework/src/lib/Property/*.cpp', 'SEFramework/src/lib/Source/*.cpp', 'SEFramework/src/lib/Task/*.cpp')
K1, K2, K3, P = sym('k1', 'o'), sym('k2', 'o'), sym('k3', 'o'), sym('p', 'o')
M0 = sym('M0', 'o')
GET = NS + 'TaskProvider::getTask'
_ck = [None]


def typeno(x):
    return mk('app', ('typeno', x), 'i')


def typeops():
    """comparisons of std::type_index as comparisons of the number of the type"""
    def two(op):
        def h(it, n, st):
            xs = ([n['obj']] if n.get('obj') is not None else []) + list(n['args'])
            if len(xs) != 2:
                return None
            a, b = [orig(it._t(it.val(it.ev(x, st), st), st), st) for x in xs]
            return op(typeno(a), typeno(b))
        return h
    def one(name):
        def h(it, n, st):
            return mk('app', (name, orig(it._t(it.val(it.ev(n['obj'], st), st), st), st)), 'i')
        return h
    def orig(t, st):
        # identifiers of types are never changed: a copy is the same value
        while (t, '#copy') in st.heap:
            t = st.heap[(t, '#copy')][0]
        return t
    o = {'==': eq, '!=': lambda a, b: bnot(eq(a, b)), '<': lt, '>': lambda a, b: lt(b, a), '<=': le, '>=': ge}
    d = {'std::type_index::hash_code': one('hash of type'), 'std::type_info::hash_code': one('hash of type')}
    for k, f in o.items():
        for q in ('std::type_index::operator', 'std::type_info::operator', 'std::operator'):
            d[q + k] = two(f)
    return d


def sx_call(F, f, **kw):
    s = summarise(F, f, **kw)
    _ck[0].exact = s.it.exact
    return s


def bare(t):
    """without casts between source classes and versions of elements"""
    m = {}
    for x in subterms(t):
        if x.op == 'app' and x.a[0] == 'dyncast':
            m[x] = x.a[-1]
        elif x.op == 'app' and str(x.a[0]).startswith('elem@'):
            m[x] = mk('app', ('elem',) + tuple(x.a[1:]), x.sort)
    while m:
        t = subst(t, m)
        m = {}
        for x in subterms(t):
            if x.op == 'app' and x.a[0] == 'dyncast':
                m[x] = x.a[-1]
            elif x.op == 'app' and str(x.a[0]).startswith('elem@'):
                m[x] = mk('app', ('elem',) + tuple(x.a[1:]), x.sort)
    return t


def run(ck):
    _ck[0] = ck
    ck.rule('keys', 'identifiers are equal exactly when type and index are equal; ordering and hashing agree with that')
    ck.rule('holder', 'a stored property is found under its own identifier only, replaced when stored again, and gone after a clear')
    ck.rule('ondemand', 'a property already stored is returned and never computed again; a missing one is computed by the task for that identifier on that object')
    ck.rule('stale', 'a change of membership discards the properties of the group and those the group stored on its sources')
    ck.rule('members', 'a source is added once, the given one is removed, and a merge takes every source of the other group over')
    ck.rule('typed', 'the typed accessors use the identifier of that type and index')
    ck.rule('tasks', 'the task for an identifier is created by the factory of its type and kept under that identifier')
    F = ck.F = Facts(tus(*TUS) + [VERIF + '/drivers/properties.cpp'])
    if F.errors:
        ck.undecided('keys', 'SEFramework', '%d parse errors' % F.errors)
    for g in (keys, holder, ondemand, entangled, stale, simple, typed, tasks):
        ck.exact = set()
        ck.section(g, ck, F)
    ck.assumptions = ['std::type_index orders and compares types consistently', 'standard associative containers keep the ordering they are given', 'a group whose sources were moved into another one by merge is not read again']
    return 25


def body(F, q):
    r = [f for f in F.funcs.values() if f['q'] == NS + q and f.get('body') and not f.get('dep')]
    return r[0] if r else None


def inst(t, o, v):
    return t if t is None else subst(t, {o: v})


def keys(ck, F):
    h = typeops()
    this = sym('this', 'o')

    def cmp(op):
        f = body(F, 'PropertyId::operator' + op)
        if f is None:
            return None, None
        s = sx_call(F, f, this=this, handlers=h, args={0: sym('b', 'o')})
        return f, (lambda a, b: subst(s.ret, {this: a, sym('b', 'o'): b})) if isinstance(s.ret, T) else None
    fe, EQ = cmp('==')
    fl, LT = cmp('<')
    gt, gi = body(F, 'PropertyId::getTypeId'), body(F, 'PropertyId::getIndex')
    ty = ix = None
    if gt and gi:
        ty, ix = [sx_call(F, g, this=this).ret for g in (gt, gi)]
    if None in (EQ, ty, ix) or not isinstance(ty, T):
        return ck.undecided('keys', fe or 'PropertyId.h', 'comparison or getters not read')
    fields = {x for t in (ty, ix) for x in subterms(t) if x.op == 'app' and x.a[0] == 'fld'}
    ck.ok(len(fields) == 2 or (None if lost(ty) or lost(ix) else False), 'keys', gt, 'type and index are two separate fields: %s / %s' % (show(ty), show(ix)))
    T_ = lambda k: typeno(subst(ty, {this: k}))
    I_ = lambda k: subst(ix, {this: k})
    same = lambda a, b: band(eq(T_(a), T_(b)), eq(I_(a), I_(b)))
    ck.entail('keys', fe, [EQ(K1, K2)], same(K1, K2), what='equal identifiers have equal type and index')
    ck.entail('keys', fe, [same(K1, K2)], EQ(K1, K2), what='identifiers with equal type and index are equal')
    fn = body(F, 'PropertyId::operator!=')
    if fn:
        _, NE = cmp('!=')
        if NE:
            ck.entail('keys', fn, [NE(K1, K2)], bnot(same(K1, K2)), what='different identifiers differ')
            ck.entail('keys', fn, [bnot(same(K1, K2))], NE(K1, K2), what='identifiers that differ are different')
    if LT is None:
        return ck.undecided('keys', fl or 'PropertyId.h', 'ordering not read')
    ck.entail('keys', fl, [LT(K1, K2)], bnot(LT(K2, K1)), what='the ordering is asymmetric')
    ck.entail('keys', fl, [bnot(LT(K1, K2)), bnot(LT(K2, K1))], same(K1, K2), what='identifiers that are not ordered are the same')
    ck.entail('keys', fl, [LT(K1, K2)], bnot(same(K1, K2)), what='ordered identifiers are not the same')
    ck.entail('keys', fl, [LT(K1, K2), LT(K2, K3)], LT(K1, K3), what='the ordering is transitive')
    # the hash is a function of type and index alone
    fs = [f for f in F.fn('sx::hashOf') if f.get('body')]
    hf = [f for f in F.funcs.values() if f['q'] == 'std::hash<SourceXtractor::PropertyId>::operator()' or f['q'].endswith('hash::operator()') or ('hash' in (f.get('cls') or '') and f['n'] == 'operator()' and not f.get('dep'))]
    s = sx_call(F, fs[0])
    i = sym('i', 'o')
    if not isinstance(s.ret, T):
        return ck.undecided('keys', fs[0], 'hash not read')
    ok = True
    allowed = {subst(ty, {this: i}), subst(ix, {this: i})}
    rest = subst(s.ret, {x: num(0) if x.sort == 'i' else sym('type', 'o') for x in allowed})
    for x in subterms(rest):
        if x.op == 'sym' and x.a[0] not in ('type',):
            ok = False if x is i else None
        if x.op == 'app' and isinstance(x.a[0], str) and x.a[0].startswith('call:') and not any(w in x.a[0] for w in ('hash', 'std::type_in')):
            ok = None if ok else ok
    w = hf[0] if hf else fs[0]
    ck.ok(ok, 'keys', w, 'the hash looks at type and index only: %s' % show(s.ret)[:120])
    ck.ok(True if any(x in subterms(s.ret) for x in allowed) else None, 'keys', w, 'the hash depends on the identifier')


def mapof(o, setter='setProperty'):
    s = o.call(setter, args={0: P, 1: K1})
    m = [e.d['obj'] for e in s.effects if e.kind == 'mapput']
    return m[0] if m and len(set(m)) == 1 else None


def holder(ck, F):
    o = Obj(F, 'PropertyHolder')
    if not o.ok:
        o = None
    if o is None:
        return ck.undecided('holder', 'PropertyHolder.h', 'not constructed')
    fs, fg, fi, fc = [o.method(n) for n in ('setProperty', 'getProperty', 'isPropertySet', 'clear')]
    m = mapof(o)
    if m is None:
        return ck.undecided('holder', fs, 'the container of the properties was not found')
    st = o.st.copy()
    st.heap[(m, '#map')] = M0
    old, had = maps.get(M0, K2, 'o'), maps.has(M0, K2)
    same = eq(K2, K1)

    def read(st0):
        g = o.call(fg['n'], st=st0, args={0: K2})
        i = o.call(fi['n'], st=st0, args={0: K2})
        return g, i
    g, i = read(st)
    ck.exact = g.it.exact
    ck.eqv('holder', fi, i.ret, had, what='a property is set exactly when one is stored under the identifier')
    ck.eqv('holder', fg, g.ret, old, facts=[had], what='the property returned is the one stored under the identifier')
    thr(ck, fg, g, had)
    ck.ok(m_same(st, i.st, m) and (g.st is None or m_same(st, g.st, m)), 'holder', fg, 'reading stores nothing')
    s = o.call(fs['n'], st=st, args={0: P, 1: K1})
    ck.ok(not s.throws and len(s.rets) >= 1, 'holder', fs, 'storing always succeeds')
    g, i = read(s.st)
    ck.eqv('holder', fi, i.ret, bor(same, had), what='after storing, the identifier and those before are set')
    ck.eqv('holder', fs, g.ret, P, facts=[same], what='the property stored last is returned')
    ck.eqv('holder', fs, g.ret, old, facts=[bnot(same), had], what='other properties are not touched')
    thr(ck, fg, g, bor(same, had))
    s2 = o.call(fc['n'], st=s.st)
    i2 = o.call(fi['n'], st=s2.st, args={0: K2})
    ck.eqv('holder', fc, i2.ret, FALSE, what='nothing is set after a clear')


def thr(ck, f, s, ok):
    """throws exactly when not ok"""
    pcs = [band(*e.pc) for e in s.throws]
    t = bor(*pcs) if pcs else FALSE
    ck.entail('holder', f, [t], bnot(ok), what='a stored property is never reported missing')
    r = bor(*[band(*st.pc) for st, _ in s.rets]) if s.rets else FALSE
    ck.entail('holder', f, [r], ok, what='a property that is not stored is reported, not made up')


def m_same(a, b, m):
    return a.heap.get((m, '#map')) is b.heap.get((m, '#map'))


MAPS = []


def compute(it, n, st):
    obj = it.objval(n['obj'], st)
    av = [it._t(it.val(it.arg(a, 'v', st), st), st) for a in n['args']]
    it.effect('compute', st, n, obj=obj, args=av)
    for m in MAPS:
        st.heap[(m, '#map')] = mk('app', ('computed', maps.cur(st, m)), 'o')
    return num(0)


def constructed(it, f, o, st, n):
    it.effect('made', st, n, obj=o, fields={k: v for (ob, k), v in st.heap.items() if ob is o})


def tasked():
    h = {'computeProperties': compute, '#constructed': constructed}
    h.update(pure(GET))
    return h


def prep(F, cls, ck, rule):
    o = Obj(F, cls, handlers=tasked())
    if not o.ok:
        ck.undecided(rule, cls, 'not constructed')
        return None, None, None
    MAPS[:] = []
    m = mapof(o)
    if m is None:
        ck.undecided(rule, cls, 'setProperty does not store in one container')
        return None, None, None
    MAPS[:] = [m]
    st = o.st.copy()
    st.heap[(m, '#map')] = M0
    ck.exact = o.it.exact
    return o, m, st


def nocaught(pc):
    return [c for c in pc if 'caught#' not in show(c)]


def ondemand(ck, F):
    for cls in ('SourceWithOnDemandProperties', 'SourceGroupWithOnDemandProperties'):
        o, m, st = prep(F, cls, ck, 'ondemand')
        if o is None:
            continue
        f = o.method('setProperty')
        s = o.call('setProperty', st=st, args={0: P, 1: K1})
        ck.ok(True if maps.has(s.st.heap.get((m, '#map')), K1) is TRUE else None, 'ondemand', f, 'a property is stored under the given identifier')
        ck.eqv('ondemand', f, maps.get(s.st.heap[(m, '#map')], K1, 'o'), P, what='the given property is stored')
        f = o.method('getProperty')
        s = o.call('getProperty', st=st, args={0: K1})
        has0 = maps.has(M0, K1)
        comp = [e for e in s.effects if e.kind == 'compute']
        for e in comp:
            ck.entail('ondemand', f, list(e.pc), bnot(has0), what='a stored property is not computed again')
            ck.ok(True if [show(a) for a in e.d['args']] == ['this'] else (None if lost(e.d['args'][0]) else False), 'ondemand', f, 'the task works on this object: %s' % show(e.d['args'][0]))
            t = e.d['obj']
            good = isinstance(t, T) and t.op == 'app' and str(t.a[0]) == 'call:' + GET and t.a[-1] is K1
            ck.ok(True if good else (None if not isinstance(t, T) or lost(t) else False), 'ondemand', f, 'the task is the one for the identifier: %s' % show(t)[:100])
        ck.ok(bool(comp), 'ondemand', f, 'missing properties are computed')
        if not isinstance(s.ret, T):
            ck.undecided('ondemand', f, 'result not read')
            continue
        ck.eqv('ondemand', f, s.ret, maps.get(M0, K1, 'o'), facts=[has0], what='a stored property is returned')
        c = mk('app', ('computed', M0), 'o')
        ck.eqv('ondemand', f, s.ret, maps.get(c, K1, 'o'), facts=[bnot(has0), maps.has(c, K1)], what='a computed property is returned')
        for e in s.throws:
            if e.d.get('in_try'):
                continue
            if 'caught#' not in ' '.join(show(x) for x in e.pc):
                ck.entail('ondemand', f, list(e.pc), bnot(has0), what='a stored property is never reported missing')
        keeps(ck, f, s, m, [M0, c])
    MAPS[:] = []


def keeps(ck, f, s, m, states):
    fin = s.st.heap.get((m, '#map')) if s.st else None
    if fin is None:
        return ck.undecided('ondemand', f, 'final state unknown')
    leaf = []

    def go(t):
        if t.op == 'ite':
            go(t.a[1]); go(t.a[2])
        else:
            leaf.append(t)
    go(fin)
    bad = [x for x in leaf if x not in states]
    ck.ok(not bad or (None if any(lost(x) for x in bad) else False), 'ondemand', f, 'looking a property up stores nothing but what the task computed%s' % (': ' + show(bad[0])[:80] if bad else ''))


def entangled(ck, F):
    o, m, st = prep(F, 'EntangledSource', ck, 'ondemand')
    if o is None:
        return
    g, src = sym(o.ctor['params'][1]['n'], 'o'), sym(o.ctor['params'][0]['n'], 'o')
    f = o.method('setProperty')
    s = o.call('setProperty', st=st, args={0: P, 1: K1})
    ck.eqv('ondemand', f, maps.get(s.st.heap[(m, '#map')], K1, 'o'), P, what='the given property is stored on the source')
    f = o.method('getProperty')
    s = o.call('getProperty', st=st, args={0: K1})
    if not isinstance(s.ret, T):
        return ck.undecided('ondemand', f, 'result not read')
    has0 = maps.has(M0, K1)
    # the map of the group: the one read other than ours
    gms = {t.a[1] for x in [s.ret] + [c for e in s.effects for c in e.pc] for t in subterms(x) if t.op == 'app' and t.a[0] == 'has' and t.a[2] is K1 for t in [t] if isinstance(t.a[1], T) and t.a[1].op == 'app' and t.a[1].a[0] == 'map0'}
    ck.eqv('ondemand', f, s.ret, maps.get(M0, K1, 'o'), facts=[has0], what='a property stored on the source comes first')
    if len(gms) != 1:
        return ck.ok(None if gms else False, 'ondemand', f, 'properties stored on the group are looked at')
    gm = gms.pop()
    ck.ok(True if g in subterms(gm) else False, 'ondemand', f, 'the other place looked at is the group: %s' % show(gm))
    ghas = maps.has(gm, K1)
    viaget = mk('app', ('call:' + NS + 'SourceGroupWithOnDemandProperties::getProperty', g, K1), 'o')
    r = subst(s.ret, {viaget: maps.get(gm, K1, 'o')})
    ck.eqv('ondemand', f, r, maps.get(gm, K1, 'o'), facts=[bnot(has0), ghas], what='then one stored on the group')
    comp = [e for e in s.effects if e.kind == 'compute']
    for e in comp:
        ck.entail('ondemand', f, list(e.pc), band(bnot(has0), bnot(ghas)), what='a stored property is not computed again')
        a = e.d['args']
        ck.ok(True if a == [g] else (None if not a or lost(a[0]) else False), 'ondemand', f, 'the group task works on the group: %s' % show(a[0] if a else None))
        t = e.d['obj']
        good = isinstance(t, T) and t.op == 'app' and str(t.a[0]) == 'call:' + GET and t.a[-1] is K1
        ck.ok(True if good else (None if not isinstance(t, T) or lost(t) else False), 'ondemand', f, 'the task is the one for the identifier: %s' % show(t)[:100])
        ck.ok(any('caught#' in show(c) for c in e.pc) or None, 'ondemand', f, 'the group task runs only when the source itself cannot provide the property')
    ck.ok(bool(comp), 'ondemand', f, 'missing properties are computed by the group')
    inner = [e for e in s.effects if e.kind == 'call' and e.d['q'].endswith('SourceInterface::getProperty')]
    for e in inner:
        ob = bare_src(e.d['obj'], src)
        ck.ok(True if ob else (None if lost(e.d['obj']) else False), 'ondemand', f, 'the wrapped source is asked: %s' % show(e.d['obj'])[:80])
        ck.ok(e.d['args'] == [K1] or (None if lost(e.d['args'][0]) else False), 'ondemand', f, 'for the same identifier')
        ck.entail('ondemand', f, list(e.pc), band(bnot(has0), bnot(ghas)), what='the wrapped source is asked last')
    ck.ok(bool(inner), 'ondemand', f, 'the wrapped source is asked')
    c = mk('app', ('computed', M0), 'o')
    keeps(ck, f, s, m, [M0, c])
    MAPS[:] = []


def bare_src(t, src):
    """t is the wrapped source: src itself, or the source src wraps when it is an entangled one"""
    if not isinstance(t, T):
        return False
    if t.op == 'ite':
        return bare_src(t.a[1], src) and bare_src(t.a[2], src)
    b = bare(t)
    return b is src or (b.op == 'app' and b.a[0] == 'fld' and b.a[2] is src)


def fldpath(t):
    """(names, root) of nested fields"""
    n = []
    while isinstance(t, T) and t.op == 'app' and t.a[0] == 'fld':
        n.append(t.a[1])
        t = t.a[2]
    return n, t


def stale(ck, F):
    o, m, st = prep(F, 'SourceGroupWithOnDemandProperties', ck, 'stale')
    if o is None:
        return
    # the field path of the property map of an entangled source
    MAPS[:] = []
    eo = Obj(F, 'EntangledSource', handlers=tasked())
    ent = holderpath(F, 'EntangledSource')
    if ent is None:
        return ck.undecided('stale', 'EntangledSource', 'its property map was not found')
    other = sym('other', 'o')
    lst = None
    for name in ('addSource', 'removeSource', 'merge'):
        f = o.method(name)
        s = o.call(name, st=st, args={0: other} if name == 'merge' else None)
        ck.exact = s.it.exact
        fin = s.st.heap.get((m, '#map')) if s.st else None
        ck.ok(not [e for e in s.throws], 'stale', f, 'the change always succeeds')
        if not isinstance(fin, T):
            ck.undecided('stale', f, 'final state unknown')
            continue
        ck.entail('stale', f, [], bnot(maps.has(fin, K1)), what='no property of the group survives')
        lists = {t.a[1] for e in s.effects for x in list(e.d.values()) + list(e.pc) if isinstance(x, T) for t in subterms(x) if t.op == 'app' and str(t.a[0]).startswith('elem') and isinstance(t.a[1], T)}
        src = listof(o, st)
        hit = []
        for e in s.effects:
            if e.kind != 'clear' or not isinstance(e.d['obj'], T):
                continue
            b = bare(pick(e.d['obj'], src))
            path, root = fldpath(b)
            if path[:len(ent)] == ent and root.op == 'app' and root.a[0] == 'elem' and root.a[1] is src:
                hit.append((e, root.a[2]))
        if src is None:
            ck.undecided('stale', f, 'the list of sources was not found')
            continue
        if not hit:
            ck.ok(None if any(lost(e.d['obj']) for e in s.effects if e.kind == 'clear' and isinstance(e.d['obj'], T)) else False, 'stale', f, 'the properties the group stored on its sources are discarded')
            continue
        good = False
        n = mk('app', ('size', src), 'i')
        on = mk('app', ('size', mk('app', ('fld', src_name(F), other), 'o')), 'i')
        for e, ix in hit:
            for m_ in (n, s.st.heap.get((src, '#size'), n)):
                if const(ix) is not None:
                    continue
                rng = [ge(ix, num(0)), lt(ix, m_)] + [ge(n, num(0)), ge(on, num(0)), ge(m_, num(0))]
                good = good or all(valid(rng, places(c)) for c in e.pc)
        known = all((x in s.it.exact or show(x).startswith('idx@') or not any('#' in show(v) or '@' in show(v) for v in subterms(x) if v.op == 'sym')) and not [y for c in e.pc for y in lost(places(c), s.it.exact)] for e, x in hit)
        ck.ok(True if good else (False if known else None), 'stale', f, 'the properties stored on every source are discarded: %s' % [show(c) for c in hit[0][0].pc][:4])
    # what the operations do to the list itself
    members(ck, F, o, st, ent)


def pick(t, src):
    """t for the elements a list had before the last one was added"""
    for _ in range(4):
        m = {}
        for x in subterms(t):
            if x.op == 'ite' and x.a[0].op == 'eq0' or x.op == 'ite' and x.a[0].op in ('eq', 'same'):
                i = [y.a[2] for y in subterms(x.a[2]) if y.op == 'app' and str(y.a[0]).startswith('elem') and y.a[1] is src]
                if i and entails([lt(i[0], mk('app', ('size', src), 'i'))], bnot(x.a[0])):
                    m[x] = x.a[2]
        if not m:
            return t
        t = subst(t, m)
    return t


def places(t):
    """comparisons of iterators or addresses of elements of one container as comparisons of positions"""
    m = {}
    for x in subterms(t):
        if x.op in ('eq', 'same') and len(x.a) == 2 and all(isinstance(y, T) and y.op == 'app' and len(y.a) == 3 and str(y.a[0]).split('@')[0] in ('iter', 'elem') for y in x.a) and x.a[0].a[1] is x.a[1].a[1]:
            m[x] = eq(x.a[0].a[2], x.a[1].a[2])
    return subst(t, m) if m else t


def valid(facts, goal):
    from sx.terms import entails
    return entails(facts, goal)


def src_name(F):
    r = [r for r in F.records.values() if r['q'] == NS + 'SourceGroupWithOnDemandProperties'][0]
    for fl in r.get('fields', []):
        if 'list<' in fl['t'] or 'vector<' in fl['t'] or 'deque<' in fl['t']:
            return fl['n']
    return 'm_sources'


def listof(o, st):
    s = o.call('size', st=st)
    if isinstance(s.ret, T) and s.ret.op == 'app' and s.ret.a[0] == 'size':
        return s.ret.a[1]
    return None


def holderpath(F, cls):
    """field names from the map outward: [map, holder]"""
    ph = [r for r in F.records.values() if r['q'] == NS + 'PropertyHolder']
    r = [r for r in F.records.values() if r['q'].endswith('::' + cls)]
    if not ph or not r:
        return None
    mf = [x['n'] for x in ph[0]['fields'] if 'map<' in x['t']]
    hf = [x['n'] for x in r[0]['fields'] if x['t'].endswith('PropertyHolder')]
    return [mf[0], hf[0]] if len(mf) == 1 and len(hf) == 1 else None


def members(ck, F, o, st, ent):
    src = listof(o, st)
    wrapped = wrapfield(F)
    f = o.method('addSource')
    s = o.call('addSource', st=st)
    given = sym(f['params'][0]['n'], 'o')
    pu = [e for e in s.effects if e.kind == 'push' and e.d['obj'] is src]
    ck.ok(True if len(pu) == 1 and not pu[0].pc and not pu[0].loops else (None if any(lost(c) for e in pu for c in e.pc) else False), 'members', f, 'the source is added once (%d)' % len(pu))
    for e in pu:
        ent_of(ck, f, s, e.d['val'], given, wrapped, o)
    f = o.method('removeSource')
    s = o.call('removeSource', st=st)
    er = [e for e in s.effects if e.kind == 'call' and e.d['n'] == 'erase' and e.d['obj'] is src]
    it = mkiter(sym('*' + f['params'][0]['n'], 'o'), num(0))
    ck.ok(True if len(er) == 1 and er[0].d['args'] == [it] and not er[0].pc else (None if not er or any(isinstance(x, T) and lost(x) for e in er for x in e.d['args']) else False), 'members', f, 'exactly the given source is removed')
    if er:
        ck.ok(s.ret is er[0].d['ret'] or (None if not isinstance(s.ret, T) or lost(s.ret) else False), 'members', f, 'the position after the removed source is returned')
    f = o.method('merge')
    other = sym('other', 'o')
    s = o.call('merge', st=st, args={0: other})
    osrc = mk('app', ('fld', src_name(F), other), 'o')
    pu = [e for e in s.effects if e.kind == 'push' and e.d['obj'] is src]
    cl = [e for e in s.effects if e.kind == 'clear' and isinstance(e.d['obj'], T) and bare(e.d['obj']) is osrc]
    ck.ok(bool(cl) and not cl[0].pc, 'members', f, 'the other group gives its sources up')
    if len(pu) != 1:
        return ck.ok(False if not pu else None, 'members', f, 'the sources of the other group are added (%d)' % len(pu))
    e = pu[0]
    ix = [t.a[2] for v in [e.d['val']] + objvals(s, e.d['val']) for t in subterms(bare(v)) if t.op == 'app' and t.a[0] == 'elem' and t.a[1] is osrc]
    if not ix:
        return ck.undecided('members', f, 'the source that is added was not recognised')
    n = mk('app', ('size', osrc), 'i')
    pc = [bare(c) for c in e.pc]
    g = all(valid([ge(ix[0], num(0)), lt(ix[0], n)], c) for c in pc)
    ck.ok(True if g else (False if ix[0] in s.it.exact else None), 'members', f, 'every source of the other group is added: %s' % [show(c) for c in pc][:3])
    ck.ok(True if len(e.loops) == 1 else None, 'members', f, 'once each')
    el = mk('app', ('elem', osrc, ix[0]), 'o')
    ent_of(ck, f, s, e.d['val'], el, wrapped, o, deep=True)


def wrapfield(F):
    r = [r for r in F.records.values() if r['q'].endswith('::EntangledSource')]
    return [x['n'] for x in r[0]['fields'] if 'SourceInterface' in x['t'] and 'Group' not in x['t']][0] if r else None


def objvals(s, v):
    return [x for (ob, fl), x in s.st.heap.items() if ob is v and isinstance(x, T)] + [x for e in s.effects if e.kind == 'made' and e.d['obj'] is v for x in e.d['fields'].values() if isinstance(x, T)]


def ent_of(ck, f, s, v, given, wrapped, o, deep=False):
    ws = [e.d['fields'].get(wrapped) for e in s.effects if e.kind == 'made' and e.d['obj'] is v]
    w = s.st.heap.get((v, wrapped), ws[-1] if ws else None)
    if not isinstance(w, T):
        return ck.undecided('members', f, 'the added object is not an entangled source of this group')
    leaf = []

    def go(t):
        if t.op == 'ite':
            go(t.a[1]); go(t.a[2])
        else:
            leaf.append(t)
    go(w)
    ok = True
    for t in leaf:
        b = bare(t)
        path, root = fldpath(b)
        if root is not given:
            ok = None if lost(b) else False
        if deep and wrapped not in path:
            ok = None if lost(b) else False
    ck.ok(ok, 'members', f, 'the added source wraps the given one: %s' % show(w)[:100])
    gr = [x for x in objvals(s, v) if x is o.this or x is sym('this', 'o')]
    ck.ok(bool(gr), 'members', f, 'and belongs to this group')


def simple(ck, F):
    o = Obj(F, 'SimpleSourceGroup', handlers=tasked())
    if not o.ok:
        # implicit constructor
        return simple_plain(ck, F)
    simple_plain(ck, F, o)


def simple_plain(ck, F, o=None):
    q = NS + 'SimpleSourceGroup::'
    this = sym('this', 'o')
    fs = {n: body(F, 'SimpleSourceGroup::' + n) for n in ('addSource', 'removeSource', 'merge', 'size')}
    if any(v is None for v in fs.values()):
        return ck.undecided('members', 'SimpleSourceGroup.cpp', 'operations not found')
    call = lambda n, **k: summarise(F, fs[n], this=this, handlers=tasked(), **k)
    z = call('size').ret
    if not (isinstance(z, T) and z.op == 'app' and z.a[0] == 'size'):
        return ck.undecided('members', fs['size'], 'the list of sources was not found: %s' % show(z))
    src = z.a[1]
    f = fs['addSource']
    s = call('addSource')
    pu = [e for e in s.effects if e.kind == 'push' and e.d['obj'] is src]
    given = sym(f['params'][0]['n'], 'o')
    ck.ok(True if len(pu) == 1 and not pu[0].pc and not pu[0].loops else False, 'members', f, 'the source is added once (%d)' % len(pu))
    for e in pu:
        vs = [e.d['val']] + objvals(s, e.d['val'])
        ck.ok(True if any(given in subterms(x) for x in vs) else None, 'members', f, 'the given source is added')
    f = fs['removeSource']
    s = call('removeSource')
    it = mkiter(sym('*' + f['params'][0]['n'], 'o'), num(0))
    er = [e for e in s.effects if e.kind == 'call' and e.d['n'] == 'erase' and e.d['obj'] is src]
    ck.ok(True if len(er) == 1 and er[0].d['args'] == [it] and not er[0].pc else (None if not er else False), 'members', f, 'exactly the given source is removed')
    if er:
        ck.ok(s.ret is er[0].d['ret'] or None, 'members', f, 'the position after the removed source is returned')
    f = fs['merge']
    other = sym('other', 'o')
    s = call('merge', args={0: other})
    ck.exact = s.it.exact
    osrc = subst(src, {this: other})
    pu = [e for e in s.effects if e.kind == 'push' and e.d['obj'] is src]
    cl = [e for e in s.effects if e.kind == 'clear' and isinstance(e.d['obj'], T) and bare(e.d['obj']) is osrc]
    ck.ok(bool(cl) and not cl[0].pc, 'members', f, 'the other group gives its sources up')
    if len(pu) != 1:
        return ck.ok(False if not pu else None, 'members', f, 'the sources of the other group are added (%d)' % len(pu))
    e = pu[0]
    ix = [t.a[2] for v in [e.d['val']] + objvals(s, e.d['val']) for t in subterms(bare(v)) if t.op == 'app' and t.a[0] == 'elem' and t.a[1] is osrc]
    if not ix:
        return ck.undecided('members', f, 'the source that is added was not recognised')
    n = mk('app', ('size', osrc), 'i')
    g = all(valid([ge(ix[0], num(0)), lt(ix[0], n)], bare(c)) for c in e.pc)
    ck.ok(True if g else (False if ix[0] in s.it.exact else None), 'members', f, 'every source of the other group is added')
    mp = holderpath(F, 'SimpleSourceGroup')
    cl = [e for e in s.effects if e.kind == 'clear' and isinstance(e.d['obj'], T) and mp and fldpath(e.d['obj']) == (mp, this)]
    ck.ok(bool(cl) and not cl[0].pc, 'stale', f, 'properties of the group do not survive a merge')


def typed(ck, F):
    this = sym('this', 'o')
    ty = sx_call(F, body(F, 'PropertyId::getTypeId'), this=this).ret
    ix = sx_call(F, body(F, 'PropertyId::getIndex'), this=this).ret

    def idof(s, v):
        """(type term, index term) of an identifier object"""
        if not isinstance(v, T):
            return None, None
        out = []
        for t in (ty, ix):
            n, root = fldpath(t)
            x = v
            for k in reversed(n):
                x = s.st.heap.get((x, k), mk('app', ('fld', k, x), 'o'))
                while (x, '#copy') in s.st.heap:
                    x = s.st.heap[(x, '#copy')][0]
            out.append(x)
        return out

    def check(w, s, v, cls, index):
        a, b = idof(s, v)
        good = isinstance(a, T) and ('typeid(%s)' % cls) in show(a)
        ck.ok(True if good else (None if a is None or lost(a) or 'typeid(' not in show(a) else False), 'typed', w, 'the identifier has the type of the property: %s' % show(a))
        if isinstance(b, T):
            ck.eqv('typed', w, b, index, what='the identifier has the given index')
        else:
            ck.undecided('typed', w, 'index not read')
    i = sym('i', 'i')
    UNSIGNED.add(i)
    A, B = 'sx::PropA', 'sx::PropB'
    names = {'sx::idA': (A, i), 'sx::idB': (B, num(0)), 'sx::getA': (A, i), 'sx::getB': (B, num(0)), 'sx::setA': (A, i), 'sx::setB': (B, num(0)), 'sx::setIB': (B, i)}
    here = {'sx::id': 'PropertyId.h', 'sx::get': 'SourceInterface.h', 'sx::set': 'SourceInterface.h'}
    for q, (cls, index) in names.items():
        f = F.fn(q)[0]
        w = [v for k, v in here.items() if q.startswith(k)][0] + ' (' + q[4:] + ')'
        s = sx_call(F, f)
        if q.startswith('sx::id'):
            check(w, s, s.ret, cls, index)
            continue
        nm = 'getProperty' if 'get' in q else 'setProperty'
        cs = [e for e in s.effects if e.kind == 'call' and e.d['q'] == NS + 'SourceInterface::' + nm]
        if len(cs) != 1 or cs[0].pc:
            ck.ok(None if not cs else None, 'typed', w, '%d requests' % len(cs))
            continue
        e = cs[0]
        check(w, s, e.d['args'][-1], cls, index)
        if nm == 'getProperty':
            ck.ok(bare(s.ret) is e.d['ret'] or (None if not isinstance(s.ret, T) or lost(s.ret) else False), 'typed', w, 'the property found is returned')
        else:
            v = e.d['args'][0]
            c = s.st.heap.get((v, '#class'))
            ck.ok(True if isinstance(c, str) and cls.split('::')[-1] in c else (None if c is None else False), 'typed', w, 'a property of that type is stored')
            if cls == B:
                x = s.st.heap.get((v, 'm_v'))
                ck.ok(True if x is sym('v', 'i') else (None if not isinstance(x, T) or lost(x) else False), 'typed', w, 'it is built from the given arguments')
    # wrappers forward
    for n in ('getProperty', 'setProperty'):
        f = body(F, 'SourceGroupInterface::SourceWrapper::' + n)
        if f is None:
            ck.undecided('typed', 'SourceGroupInterface.h', 'SourceWrapper::%s not found' % n)
            continue
        s = sx_call(F, f, this=this)
        cs = [e for e in s.effects if e.kind == 'call' and e.d['q'] == NS + 'SourceInterface::' + n]
        want = [sym(p['n'], 'o') for p in f['params']]
        ck.ok(True if len(cs) == 1 and not cs[0].pc and list(cs[0].d['args']) == want else (None if not cs or any(lost(a) for a in cs[0].d['args'] if isinstance(a, T)) else False), 'typed', f, 'the wrapped source is asked for the same identifier')
        if n == 'getProperty' and len(cs) == 1:
            ck.ok(s.ret is cs[0].d['ret'] or (None if lost(s.ret) else False), 'typed', f, 'what the wrapped source returns is returned')


def tasks(ck, F):
    this = sym('this', 'o')
    f = body(F, 'TaskProvider::getTask')
    fs = [g for g in F.funcs.values() if g['q'] == GET and g['file'].endswith('.cpp') and not g.get('dep')]
    if not fs:
        fs = [g for g in F.funcs.values() if g['q'] == GET and not g.get('dep') and not g.get('ta')]
    if not fs:
        return ck.undecided('tasks', 'TaskProvider.cpp', 'getTask not found')
    f = fs[0]
    h = pure(NS + 'TaskFactoryRegistry::getFactory', NS + 'TaskFactory::createTask')
    o = Obj(F, 'TaskProvider', handlers=h)
    if not o.ok:
        return ck.undecided('tasks', f, 'TaskProvider not constructed')
    s = o.call('getTask', f=f, args={0: K1})
    m = [e.d['obj'] for e in s.effects if e.kind == 'mapput']
    m = set(m)
    if len(m) != 1:
        return ck.undecided('tasks', f, 'the cache of tasks was not found')
    m = m.pop()
    st = o.st.copy()
    st.heap[(m, '#map')] = M0
    s = o.call('getTask', f=f, args={0: K1}, st=st)
    ck.exact = s.it.exact
    has0 = maps.has(M0, K1)
    ty = subst(sx_call(F, body(F, 'PropertyId::getTypeId'), this=this).ret, {this: K1})
    cr = [e for e in s.effects if e.kind == 'call' and e.d['n'] == 'createTask']
    gf = [e for e in s.effects if e.kind == 'call' and e.d['n'] == 'getFactory']
    if len(cr) != 1 or len(gf) != 1:
        return ck.undecided('tasks', f, '%d creations of tasks' % len(cr))
    # a provider without a registry can make no task
    reg = mk('app', ('nonnull', gf[0].d['obj']), 'b')
    ck.ok(gf[0].d['args'] == [ty] or (None if lost(gf[0].d['args'][0]) else False), 'tasks', f, 'the factory is the one of the type of the property: %s' % show(gf[0].d['args'][0]))
    ck.ok(cr[0].d['args'] == [K1] or (None if lost(cr[0].d['args'][0]) else False), 'tasks', f, 'the task is made for the identifier asked for')
    ck.ok(cr[0].d['obj'] is gf[0].d['ret'] or (None if lost(cr[0].d['obj']) else False), 'tasks', f, 'by that factory')
    if isinstance(s.ret, T):
        ck.eqv('tasks', f, s.ret, maps.get(M0, K1, 'o'), facts=[has0], what='a task made before is used again')
        ck.eqv('tasks', f, s.ret, cr[0].d['ret'], facts=[bnot(has0), reg], what='otherwise a new one is made')
    fin = s.st.heap.get((m, '#map'))
    ck.eqv('tasks', f, maps.get(fin, K1, 'o'), maps.get(M0, K1, 'o'), facts=[has0], what='the task is kept')
    ck.eqv('tasks', f, maps.get(fin, K1, 'o'), cr[0].d['ret'], facts=[bnot(has0), reg], what='the new task is kept')
    ck.eqv('tasks', f, maps.get(fin, K2, 'o'), maps.get(M0, K2, 'o'), facts=[bnot(eq(K1, K2))], what='other tasks are kept')
    # the registry
    g = body(F, 'TaskFactoryRegistry::getFactory')
    s = sx_call(F, g, this=this)
    at = [e for e in s.effects if e.kind == 'mapat']
    reg = sym('r', 'o')
    if not at or not isinstance(s.ret, T):
        return ck.undecided('tasks', g, 'getFactory not read')
    mp = at[0].d['obj']
    key = sym(g['params'][0]['n'], 'o')
    ck.eqv('tasks', g, s.ret, maps.get(mk('app', ('map0', mp), 'o'), key, s.ret.sort), what='the factory registered for the type is returned')
    for q, types in (('sx::reg', ['sx::PropA', 'sx::PropB']), ('sx::reg1', ['sx::PropB'])):
        f = F.fn(q)[0]
        w = 'TaskFactoryRegistry.h (registerTaskFactory, %d types)' % len(types)
        s = sx_call(F, f)
        rm = subst(mp, {this: reg})
        fin = s.st.heap.get((rm, '#map')) if s.st else None
        if fin is None:
            ck.undecided('tasks', w, 'registration not read')
            continue
        ks = []
        for t in types:
            k = [x for e in s.effects if e.kind == 'mapput' and e.d['obj'] is rm for x in [e.d['key']] if 'typeid(%s)' % t in show(x)]
            ck.ok(True if k else (None if any(lost(e.d['key']) for e in s.effects if e.kind == 'mapput') else False), 'tasks', w, 'a factory is registered for %s' % t)
            ks += k[:1]
        diff = {eq(a, b): FALSE for a in ks for b in ks if a is not b}
        vals = {subst(maps.get(fin, k, 'o'), diff) for k in ks}
        cls = {s.st.heap.get((v, '#class')) for v in vals}
        ck.ok(True if len(vals) == 1 and all(isinstance(c, str) and 'Fact' in c for c in cls) else (None if any(lost(v) for v in vals) else False), 'tasks', w, 'the same new factory serves all its types: %s' % [show(v)[:60] for v in vals])
        m0 = mk('app', ('map0', rm), 'o')
        for k in ks:
            for stt, _ in s.rets:
                ck.entail('tasks', w, list(stt.pc), bnot(maps.has(m0, k)), what='a type that has a factory is refused')
