"""helpers shared by the rules"""
from .facts import *
from .interp import *
from .terms import *


def pure(*qs):
    """handlers that turn calls of (virtual) functions into uninterpreted pure functions of receiver and arguments"""
    def h(it, n, st):
        obj = it.objval(n['obj'], st) if n.get('obj') is not None else None
        if isinstance(obj, T) and (obj, '#class') in st.heap:
            return None
        av = [it._t(it.val(it.arg(a, m, st), st), st) for a, m in zip(n['args'], n.get('pm', '') + 'v' * 20)]
        base = (obj,) if isinstance(obj, T) else ()
        r = mk('app', ('call:' + n['q'],) + base + tuple(av), sort_of(n.get('t', '')))
        if is_unsigned(n.get('t', '')):
            UNSIGNED.add(r)
        it.effect('call', st, n, q=n['q'], n=n['n'], obj=obj, args=av, argt=av, ret=r, pure=True)
        return r
    return {q: h for q in qs}


def papp(q, *a, sort='r'):
    return mk('app', ('call:' + q,) + tuple(a), sort)


def calls(s, q, suffix=True):
    """call effects to q"""
    return [e for e in s.effects if e.kind == 'call' and (e.d.get('q') == q or (suffix and (e.d.get('q') or '').endswith('::' + q)))]


def stores(s, pred=lambda e: True):
    return [e for e in s.effects if e.kind == 'store' and pred(e)]


def leaves_of(facts, *ts):
    """(literals, terms) for every feasible case of the conditional terms"""
    try:
        for lits, vs in cases(list(facts), tuple(ts)):
            if lits_feasible(lits):
                yield lits, vs
    except Giveup:
        return


def loop_subst(e, name='i'):
    """the innermost loop's counter of an effect (symbol) or None"""
    for L in reversed(e.loops):
        if isinstance(L, Loop):
            for x, v0, step in L.vars:
                if step in (1, -1):
                    return x, v0, L
    return None


def trange(L, x):
    """(lo, hi) for a counter of loop L"""
    if x in L.ranges:
        return L.ranges[x]
    v0 = [b for a, b, c in L.vars if a is x][0]
    hi = None
    for f in L.facts:
        if f.op == 'lt' and int_valued(f.a[0]):
            if monos(f.a[0]).get(((x, 1),)) == 1:
                h = neg(sub(f.a[0], x))
                if x not in subterms(h):
                    hi = h
    return v0, hi


def rd(s, o, n, t='double', st=None):
    """value of member n of object o after s"""
    st = st or s.st
    v = s.it.rd(st, ('fld', o, n), t)
    return s.it._t(v, st) if hasattr(s.it, '_t') else v


def meth(F, f, this, args=None, st=None, it=None, **kw):
    return summarise(F, f, args=args, this=this, st=st.copy() if st else None, **({'interp': it} if it is not None else kw))


def newobj(F, ctor, name, args, st=None, it=None, **kw):
    """(object, state, interp): an object built by ctor"""
    o = sym(name, 'o')
    s = summarise(F, ctor, args=args, this=o, st=st, **({'interp': it} if it is not None else kw))
    s.st.heap[(o, '#class')] = ctor.get('clskey')
    return o, s.st, s.it


def arith_bits(t):
    """lowest-bit operations on integers as arithmetic"""
    m = {}
    for x in subterms(t):
        if x.op == 'app' and x.a[0] in ('bor', 'band') and len(x.a) == 3:
            o = [y for y in x.a[1:] if const(y) != 1]
            if len(o) == 1:
                o = o[0]
                even = eq(app('imod', (o, num(2)), 'i'), num(0))
                m[x] = ite(even, add(o, num(1)), o) if x.a[0] == 'bor' else ite(even, num(0), num(1))
    return subst(t, m) if m else t
