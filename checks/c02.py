"""C02: a parameter's value, its engine value and everything computed from it stay in step; observers are identified and live exactly as long as what they update."""
from sx.util import *

P = 'ModelFitting::BasicParameter::'
CC = 'ModelFitting::CoordinateConverter::'
GV = P + 'getValue'


def versioned(*qs):
    """pure reads of other objects, tagged with the current epoch of the world outside the analysed object"""
    def h(it, n, st):
        obj = it.objval(n['obj'], st)
        if obj is it.self or (isinstance(obj, T) and (obj, '#class') in st.heap):
            return None
        r = mk('app', ('call:' + n['q'], obj, num(it.epoch)), sort_of(n.get('t', '')))
        it.effect('call', st, n, q=n['q'], n=n['n'], obj=obj, args=[], argt=[], ret=r, pure=True)
        return r
    return {q: h for q in qs}


def obs(it, n, st):
    """isObserved(): anything may have subscribed or unsubscribed between two calls"""
    return it.fresh('b', 'b')


H = dict(pure(P + 'addObserver', P + 'removeObserver'))
H.update(versioned(GV, 'ModelFitting::EngineParameter::getEngineValue'))


def new(F, cls, pick=None, h=H, general=True, args=None, **kw):
    Interp.epoch = 0
    Interp.self = sym('this', 'o')
    o = Obj(F, cls, args, pick=pick, handlers=h, general=general)
    return o


def run(ck):
    ck.rule('setter', 'after setValue(v) / setEngineValue(e) the world value is v / engineToWorld(e) and the engine value worldToEngine(v) / e - already when the observers are called')
    ck.rule('notify', 'a setter calls every registered observer exactly once, with the new world value')
    ck.rule('ids', 'addObserver returns the key under which the observer is stored, and never a key it returned before; removeObserver removes exactly that key')
    ck.rule('observed', 'isObserved() is true exactly while observers are registered')
    ck.rule('lifetime', 'an object that registers an observer capturing itself on a parameter it keeps removes exactly that observer in its destructor')
    ck.rule('move', 'a moved-to object has its own observer and its moved-from object\'s observer is removed')
    ck.rule('recompute', 'the observer recomputes every member whose constructed value depends on the parameter')
    ck.rule('dependent', 'a dependent parameter evaluates its calculator on its inputs in order, subscribes to every input, and getValue() is never older than its inputs')
    F = ck.F = Facts(tus('ModelFitting/src/lib/Parameters/*.cpp', 'ModelFitting/src/lib/Models/*.cpp', 'ModelFitting/src/lib/Engine/*ValueResidual.cpp') + [VERIF + '/drivers/depparam.cpp', VERIF + '/drivers/manual.cpp'])
    ck.section(setters, ck, F)
    ck.section(ids, ck, F)
    ck.section(lifetimes, ck, F)
    ck.section(dependent, ck, F)
    return 8


# ------------------------------------------------------------------ setters
def setters(ck, F):
    conv = sym('converter', 'o')
    w0 = sym('w0', 'r')
    h = {k: v for k, v in H.items() if 'Observer' in k}
    v = sym('v', 'r')

    def w2e(x):
        return papp(CC + 'worldToEngine', conv, x)

    def e2w(x):
        return papp(CC + 'engineToWorld', conv, x)
    o = new(F, 'EngineParameter', h=h, args={0: w0, 1: conv})
    if not o.ok:
        raise Broken('EngineParameter has no constructor')

    def both(st, w, e, what, f):
        ck.eqv('setter', f, o.call('getValue', st=st).ret, w, what=what + ': world value')
        ck.eqv('setter', f, o.call('getEngineValue', st=st).ret, e, what=what + ': engine value')
    both(o.st, w0, w2e(w0), 'after construction', o.ctor)
    for m, w, e in (('setValue', v, w2e(v)), ('setEngineValue', e2w(v), v)):
        f = o.method(m, 1)
        if f is None:
            ck.undecided('setter', 'EngineParameter', 'no ' + m)
            continue
        s, ap = setter_call(o, f, v)
        both(s.st, w, e, 'after ' + m, f)
        notified(ck, o, f, s, ap, w)
        for a in ap:
            both(a.d['st'], w, e, 'when an observer runs in ' + m, f)
    g = o.method('getEngineToWorldDerivative', 0)
    if g is not None:
        ck.eqv('setter', g, o.call('getEngineToWorldDerivative').ret, papp(CC + 'getEngineToWorldDerivative', conv, w0), what='derivative at the current world value')
    m = new(F, 'ManualParameter', h=h, args={0: w0})
    if m.ok:
        f = m.method('setValue', 1)
        s, ap = setter_call(m, f, v)
        ck.eqv('setter', f, m.call('getValue', st=s.st).ret, v, what='ManualParameter after setValue')
        notified(ck, m, f, s, ap, v)


def setter_call(o, f, v):
    o.it.snap = lambda k, d: k == 'call' and d.get('q') == 'apply'
    s = o.call(f['n'], {0: v}, f=f)
    o.it.snap = None
    return s, calls(s, 'apply')


def notified(ck, o, f, s, ap, w):
    if not ap:
        if any(e.kind == 'call' and not e.d.get('pure') for e in s.effects):
            return ck.undecided('notify', f, 'observers are called through something that is not followed')
        return ck.fail('notify', f, 'no observer is ever called')
    if len(ap) != 1:
        return ck.undecided('notify', f, '%d call sites of observers' % len(ap))
    e = ap[0]
    ck.eqv('notify', f, e.d['argt'][0] if e.d['argt'] else None, w, what='value passed to the observers')
    L = [l for l in e.loops if isinstance(l, Loop)]
    if len(L) != 1:
        return ck.undecided('notify', f, 'observers called outside a loop') if not L else ck.undecided('notify', f, 'nested loops')
    L = L[0]
    extra = [p for p in e.pc if p not in L.facts]
    if extra:
        return ck.fail('notify', f, 'observers are skipped unless %s' % show(band(*extra))) if not any(map(_lost, extra)) else ck.undecided('notify', f, 'conditional')
    r = [(x, lo, hi) for x, (lo, hi) in L.ranges.items()]
    if len(r) == 1 and const(r[0][1]) == 0 and r[0][2].op == 'app' and r[0][2].a[0] == 'size':
        ck.holds('notify', f, 'every element of the observer container')
    else:
        ck.undecided('notify', f, 'loop range not recognised')


def _lost(t):
    from sx.report import lost
    return lost(t)


# ------------------------------------------------------------------ observer ids
def ids(ck, F):
    h = {k: v for k, v in H.items() if 'Observer' not in k}
    o = new(F, 'ManualParameter', h=h, general=False)
    add_, rem = o.method('addObserver', 1), o.method('removeObserver', 1)
    if add_ is None or rem is None:
        return ck.undecided('ids', 'BasicParameter', 'addObserver/removeObserver not found')
    seqs = {'add, add, remove first, add': ['a', 'a', 0, 'a'], 'add, add, remove last, add': ['a', 'a', 1, 'a'], 'add, remove, add': ['a', 0, 'a'], 'add, add, add': ['a', 'a', 'a'],
            'add, add, add, remove middle, add, add': ['a', 'a', 'a', 1, 'a', 'a']}
    for nm, seq in seqs.items():
        st, got = o.st, []
        for k, op in enumerate(seq):
            if op == 'a':
                s = o.call('addObserver', {0: sym('f%d' % k, 'o')}, st=st)
                got.append(s.ret)
                puts = [e for e in s.effects if e.kind == 'mapput']
                if len(puts) == 1 and isinstance(s.ret, T):
                    ck.eqv('ids', add_, puts[0].d['key'], s.ret, what='stored key is the returned id')
                    if puts[0].d['val'] is not sym('f%d' % k, 'o'):
                        ck.undecided('ids', add_, 'stored observer %s' % show(puts[0].d['val']))
                else:
                    ck.undecided('ids', add_, '%d container insertions' % len(puts))
            else:
                s = o.call('removeObserver', {0: got[op]}, st=st)
                dels = [e for e in s.effects if e.kind == 'mapdel']
                if len(dels) == 1:
                    ck.eqv('ids', rem, dels[0].d['key'], got[op], what='removed key')
                    ck.eqv('ids', rem, s.ret, TRUE, what='removeObserver reports success')
                elif any(e.kind == 'clear' for e in s.effects):
                    ck.fail('ids', rem, 'removeObserver clears every observer')
                else:
                    ck.undecided('ids', rem, '%d container removals' % len(dels))
            st = s.st
        if all(isinstance(g, T) and is_num(g) for g in got):
            for i in range(len(got)):
                for j in range(i):
                    ck.entail('ids', add_, [], bnot(eq(got[i], got[j])), what='%s: ids %d and %d differ' % (nm, j, i))
        else:
            ck.undecided('ids', add_, nm)
    # induction: some integer member counts past every returned id
    o2 = new(F, 'ManualParameter', h=h)
    st = o2.st.copy()
    ints = {}
    for (ob, fl), v in list(st.heap.items()):
        if ob is o2.this and isinstance(v, T) and v.sort == 'i':
            ints[fl] = st.heap[(ob, fl)] = sym('old_' + fl, 'i')
    s = o2.call('addObserver', st=st)
    okf = [fl for fl, old in ints.items() if isinstance(s.ret, T) and entails([], gt(s.ret, old)) and isinstance(s.st.heap.get((o2.this, fl)), T) and entails([], ge(s.st.heap[(o2.this, fl)], s.ret))]
    ck.ok(True if okf else None, 'ids', add_, 'new id exceeds a counter that never falls behind it (any history)')
    ob = new(F, 'ManualParameter', h=h)
    f = ob.method('isObserved', 0)
    s0 = ob.call('isObserved')
    if f is not None and isinstance(s0.ret, T):
        sz = [t for t in subterms(s0.ret) if t.op == 'app' and t.a[0] == 'size']
        if len(sz) == 1:
            ck.eqv('observed', f, s0.ret, gt(sz[0], num(0)), [ge(sz[0], num(0))], what='isObserved')
        else:
            ck.undecided('observed', f, show(s0.ret))


# ------------------------------------------------------------------ registrations
def lifetimes(ck, F):
    n = 0
    classes = {}
    for f in F.funcs.values():
        if f.get('fk') in ('ctor', 'movector', 'copyctor') and not f.get('dep') and f.get('cls') and not f.get('implicit'):
            r = F.records.get(f.get('clskey'))
            if r is not None and registers(F, f):
                classes.setdefault(f['clskey'], []).append(f)
    for k, fs in sorted(classes.items()):
        cls = strip_targs(fs[0]['cls']).split('::')[-1]
        if cls == 'DependentParameter':
            continue
        allc = [f for f in F.funcs.values() if f.get('clskey') == k and f.get('fk') in ('ctor', 'movector') and not f.get('implicit') and not f.get('defaulted')]
        for f in allc:
            n += 1
            one_ctor(ck, F, cls, f)
    ck.count('registering_constructors', n)


def registers(F, f):
    return any(n.get('k') == 'call' and (n.get('q') or '') == P + 'addObserver' for n in walk(f))


def one_ctor(ck, F, cls, f):
    move = f.get('fk') == 'movector'
    Interp.epoch = 0
    Interp.self = sym('this', 'o')
    it = Interp(F, handlers=H)
    this, other = sym('this', 'o'), sym('other', 'o')
    st = State()
    s = summarise(F, f, args={0: other} if move else None, this=this, st=st, interp=it)
    st = s.st
    adds = [e for e in s.effects if e.kind == 'call' and e.d['q'] == P + 'addObserver']
    rems = [e for e in s.effects if e.kind == 'call' and e.d['q'] == P + 'removeObserver']
    dt = [g for g in F.funcs.values() if g.get('fk') == 'dtor' and g.get('clskey') == f['clskey']]

    def dtor(obj):
        if not dt or not dt[0].get('body'):
            return []
        d = summarise(F, dt[0], this=obj, st=st.copy(), interp=it)
        return [e for e in d.effects if e.kind == 'call' and e.d['q'] == P + 'removeObserver']
    mine = dtor(this)
    for e in adds:
        lam = it.lams.get(e.d['argt'][0])
        par = e.d['obj']
        if lam is None:
            ck.undecided('lifetime', f, 'observer is not a lambda')
            continue
        if lam.this is not this and not any(c.get('this') for c in lam.node['caps']):
            continue
        kept = any(v is par for (o, fl), v in st.heap.items() if o is this)
        rem = [r for r in mine if r.d['obj'] is par and r.d['argt'] and r.d['argt'][0] is e.d['ret']]
        if rem:
            bad = [p for p in rem[0].pc if not mentions(p, par)]
            ck.ok(True if not bad else None, 'lifetime', f, '%s: the destructor removes the observer added at line %d' % (cls, e.line))
        elif not kept:
            ck.undecided('lifetime', f, '%s does not keep the parameter: its header documents that the parameter must not be updated after its destruction' % cls)
        elif mine and any(_lost(r.d['argt'][0]) or not isinstance(r.d['obj'], T) or _lost(r.d['obj']) for r in mine):
            ck.undecided('lifetime', f, '%s: removed observer not identified' % cls)
        else:
            ck.fail('lifetime', f, '%s registers an observer capturing itself on %s (line %d) but its destructor does not remove it (%s)' % (cls, show(par), e.line, '; '.join('%s.removeObserver(%s)' % (show(r.d['obj']), show(r.d['argt'][0])) for r in mine) or 'nothing removed'))
        if not move:
            recompute(ck, F, it, f, cls, this, st, e, lam, par)
    if move:
        # which handles did a constructed object hold? replay the plain constructor to learn which members carry (parameter, id)
        base = [g for g in F.funcs.values() if g.get('clskey') == f['clskey'] and g.get('fk') == 'ctor' and registers(F, g)]
        for g in base:
            it0 = Interp(F, handlers=H)
            s0 = summarise(F, g, this=this, st=State(), interp=it0)
            a0 = [e for e in s0.effects if e.kind == 'call' and e.d['q'] == P + 'addObserver']
            for a in a0:
                pf = [fl for (o, fl), v in s0.st.heap.items() if o is this and v is a.d['obj']]
                idf = [fl for (o, fl), v in s0.st.heap.items() if o is this and v is a.d['ret']]
                if not pf or not idf:
                    continue
                op = it.initial(other, pf[0], '') if (other, pf[0]) not in State().heap else None
                gone = rems + dtor(other)
                hit = [r for r in gone if show(r.d['obj']).endswith('%s, other)' % pf[0]) or show(r.d['obj']).endswith('other.' + pf[0])]
                good = [r for r in hit if idf[0] in show(r.d['argt'][0]) and 'other' in show(r.d['argt'][0])]
                own = [e for e in adds if any(v is e.d['ret'] for (o, fl), v in st.heap.items() if o is this and fl == idf[0])]
                ck.ok(bool(own) or (None if _lost_any(st, this, idf[0]) else False), 'move', f, '%s: the new object registers its own observer' % cls if own else '%s: the move constructor keeps an observer that updates the moved-from object' % cls)
                ck.ok(True if good else (None if hit else False), 'move', f, '%s: the moved-from object\'s observer is removed%s' % (cls, '' if good else ' - not so: after the move nothing removes it'))


def _lost_any(st, this, fl):
    v = st.heap.get((this, fl))
    return v is None or (isinstance(v, T) and bool(_lost(v)))


def mentions(p, par):
    return par in subterms(p)


def recompute(ck, F, it, f, cls, this, st, e, lam, par):
    world = mk('app', ('call:' + GV, par, num(0)), 'r')
    dep = {}
    for (o, fl), v in st.heap.items():
        if o is this and isinstance(v, T) and is_num(v):
            src = [t for t in subterms(v) if t.op == 'app' and isinstance(t.a[0], str) and t.a[0].startswith('call:') and len(t.a) == 3 and t.a[1] is par and t.a[2] is num(0)]
            if src:
                dep[fl] = (v, src)
    Interp.epoch = 1
    s2 = st.copy()
    nv = mk('app', ('call:' + GV, par, num(1)), 'r')
    old = it.frame if hasattr(it, 'frame') else None
    it.frame = {'no': it.newframe(), 'own': set(), 'this': this, 'parent': None}
    it.fnstack.append(f)
    it.call_lambda(lam, [nv], s2, e.node)
    it.fnstack.pop()
    it.frame = old
    Interp.epoch = 0
    for fl, (v, src) in sorted(dep.items()):
        want = subst(v, {t: mk('app', (t.a[0], t.a[1], num(1)), t.sort) for t in src})
        ck.eqv('recompute', f, s2.heap.get((this, fl)), want, what='%s.%s after the observer ran' % (cls, fl))


# ------------------------------------------------------------------ dependent parameters
def dependent(ck, F):
    h = {k: v for k, v in H.items()}
    h[P + 'isObserved'] = obs
    for np in (1, 3):
        o = new(F, 'DependentParameter', pick=lambda f: len(f['params']) == np + 1, h=h)
        if not o.ok:
            ck.undecided('dependent', 'DependentParameter', 'no instance with %d inputs' % np)
            continue
        ins = [o.params[i + 1] for i in range(np)]
        f = o.ctor

        def at(p, k):
            return mk('app', ('call:' + GV, p, num(k)), 'r')

        def calc_ok(rule_f, t, k, what):
            """t is the calculator applied to the inputs' values of epoch k"""
            if isinstance(t, T) and t.op == 'app' and t.a[0] == 'apply':
                for a, p in zip(t.a[2:], ins):
                    ck.eqv('dependent', rule_f, a, at(p, k), what=what)
                return
            bad = None
            if isinstance(t, T) and t.op == 'ite':
                ls = [vs[0] for lits, vs in leaves_of([], t)]
                bad = [x for x in ls if not (x.op == 'app' and x.a[0] == 'apply' and all(a is at(p, k) for a, p in zip(x.a[2:], ins)))]
                if not bad:
                    return ck.holds('dependent', rule_f, what)
                if all(x.op == 'app' and x.a[0] == 'apply' for x in bad):
                    return ck.fail('dependent', rule_f, '%s: in some case %s' % (what, show(t)))
            ck.undecided('dependent', rule_f, '%s: %s' % (what, show(t) if isinstance(t, T) else t))
        v0 = summarise(F, F.one(GV), this=o.this, st=o.st.copy(), interp=o.it).ret
        calc_ok(f, v0, 0, 'constructed value, %d input(s)' % np)
        adds = [e for e in o.ctor_effects if e.kind == 'call' and e.d['q'] == P + 'addObserver']
        for i, p in enumerate(ins):
            a = [e for e in adds if e.d['obj'] is p]
            if len(a) == 0 and all(isinstance(e.d['obj'], T) and not _lost(e.d['obj']) for e in adds):
                ck.fail('dependent', f, 'input %d of %d is not observed' % (i + 1, np))
                continue
            if len(a) != 1:
                ck.undecided('dependent', f, 'input %d has %d observers' % (i, len(a)))
                continue
            lam = o.it.lams.get(a[0].d['argt'][0])
            if lam is None:
                ck.undecided('dependent', f, 'observer is not a lambda')
                continue
            Interp.epoch = 1
            s2 = o.st.copy()
            o.it.frame = {'no': o.it.newframe(), 'own': set(), 'this': o.this, 'parent': None}
            o.it.fnstack.append(f)
            o.it.call_lambda(lam, [at(p, 1)], s2, a[0].node)
            o.it.fnstack.pop()
            g = o.method('getValue', 0)
            r = o.call('getValue', st=s2)
            calc_ok(g, r.ret, 1, 'getValue after input %d of %d changed, whoever subscribed in between' % (i + 1, np))
            Interp.epoch = 0
        # lifetime
        d = o.method('~DependentParameter', 0)
        rem = []
        if d is not None and d.get('body'):
            s = o.call('~DependentParameter', f=d)
            for e in s.effects:
                if e.kind == 'call' and e.d['q'] == P + 'removeObserver':
                    x = loop_subst(e)
                    if x is None:
                        rem.append((e.d['obj'], e.d['argt'][0]))
                    else:
                        lo, hi = trange(x[2], x[0])
                        for k in range(np):
                            rem.append((subst(e.d['obj'], {x[0]: num(k)}), subst(e.d['argt'][0], {x[0]: num(k)})))
        for e in adds:
            hit = [r for r in rem if r[0] is e.d['obj'] and r[1] is e.d['ret']]
            vague = any(_lost(a) or _lost(b) for a, b in rem if isinstance(a, T) and isinstance(b, T))
            kept = any(v is e.d['obj'] for v in held(o))
            ck.ok(True if hit else (None if vague or not kept else False), 'lifetime', d or f, 'DependentParameter<%d>: observer of %s %s' % (np, show(e.d['obj']), 'is removed by the destructor' if hit else 'is never removed'))


def held(o):
    out = []
    for (ob, fl), v in o.st.heap.items():
        if ob is o.this and isinstance(v, T):
            out.append(v)
            for w in o.st.heap.get((v, '[]'), []) or []:
                out.append(w[3])
    return out

