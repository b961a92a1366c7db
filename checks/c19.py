"""C19: radius queries of the spatial trees return exactly the points in range."""
from sx.images import *
from sx.interp import Lam
from sx.report import lost, foreign
from checks.c31 import rec
from checks import c31
from checks.c28 import fld
from sx.folds import unfold

K, Q = 'SourceXtractor::KdTree<TreePoint>::', 'SourceXtractor::QuadTree<TreePoint>::'
THIS = sym('this', 'o')
_ck = [None]


def coord(x, i):
    return mk('app', ('call:sxt::treeCoord', x, num(i) if isinstance(i, int) else i), 'r')


def made(k):
    def h(it, n, st):
        v = [it._t(it.val(it.ev(a, st), st), st) for a in n['args']]
        it.effect(k, st, n, args=v, t=n.get('t'))
        return mk('app', (k,) + tuple(v), 'o')
    return h


def ranges(it, n, st):
    if len(n['args']) >= 2:
        it.effect('range', st, n, args=[it._t(it.val(it.ev(a, st), st), st) for a in n['args']])
    return None


def sorted_by(it, n, st):
    v = [it.val(it.ev(a, st), st) for a in n['args']]
    p = it.val(it.call_lambda(v[2], [sym('a', 'o'), sym('b', 'o')], st, n), st) if len(v) > 2 and isinstance(v[2], Lam) else None
    it.effect('sort', st, n, args=[it._t(x, st) for x in v[:2]], order=p)
    return mk('app', ('sorted',), 'o')


def filtered(it, n, st):
    """std::copy_if: the predicate of the copied elements, evaluated for a symbolic one"""
    v = [it.val(it.ev(a, st), st) for a in n['args']]
    p = it.val(it.call_lambda(v[3], [sym('pt', 'o')], st, n), st) if isinstance(v[3], Lam) else None
    it.effect('filter', st, n, args=[it._t(x, st) for x in v[:3]], pred=p)
    return None


def summ(F, f, **h):
    d = {'getPointsWithinRange': rec('query', 'o'), 'findPointsWithinRadius': rec('query', 'o'), 'add': rec('add'), 'split': rec('split'), 'expand': rec('expand'), 'remove': rec('remove'), 'addLocally': rec('addl'),
         'std::make_shared': made('make'), 'std::sort': sorted_by, 'vector#ctor': ranges, 'std::copy_if': filtered}
    d.update(h)
    s = summarise(F, f, this=THIS, st=State(), handlers=d)
    _ck[0].exact = s.it.exact
    return s


def one(F, q, kind=None):
    r = [f for f in F.fn(q) if f.get('body') and (kind is None or f.get('fk') == kind)]
    return r[0] if r else None


def run(ck):
    _ck[0] = ck
    ck.rule('leaf', 'a leaf returns exactly its points whose distance is within the radius')
    ck.rule('prune', 'a query leaves out a subtree only when no point of it can be in range, and returns what every other subtree returns, once')
    ck.rule('split', 'splitting hands every point to exactly one child, sorted along the axis around the split value')
    ck.rule('box', 'the box of a node contains every point below it')
    ck.rule('place', 'a point is added to exactly one node')
    F = ck.F = Facts([VERIF + '/drivers/trees.cpp'])
    if F.errors:
        ck.undecided('leaf', 'drivers/trees.cpp', '%d parse errors' % F.errors)
    for g in (kd_leaf, kd_query, kd_split, kd_root, quad_query, quad_local, quad_expand, quad_geometry, quad_add, quad_split, quad_remove):
        ck.exact = set()
        ck.section(g, ck, F)
    ck.assumptions = ['radii are not negative', 'real arithmetic for floating point', 'whether a point at exactly the radius is returned is left open']
    return 8


def dist2(pt, cx):
    return add(*[mul(sub(coord(pt, i), cx(i)), sub(coord(pt, i), cx(i))) for i in (0, 1)])


def within(ck, f, got, d2, r2, exact=(), facts=[]):
    """got is d2 < r2 or d2 <= r2"""
    if not isinstance(got, T):
        return ck.undecided('leaf', f, 'predicate not extracted')
    ck.entail('leaf', f, facts + [got], le(d2, r2), exact=exact, what='every returned point is in range')
    ck.entail('leaf', f, facts + [lt(d2, r2)], got, exact=exact, what='every point in range is returned')


def kd_leaf(ck, F):
    f = one(F, K + 'Leaf::findPointsWithinRadius')
    s = summ(F, f)
    ps = [e for e in s.effects if e.kind == 'push']
    if len(ps) != 1:
        return ck.undecided('leaf', f, '%d insertions' % len(ps))
    e = ps[0]
    i = e.loops[0].vars[0][0] if e.loops else None
    data = fld('m_data', s='o')
    n = mk('app', ('size', data), 'i')
    from sx.terms import app
    el = e.d['val']
    ck.ok(True if isinstance(el, T) and show(el) == 'elem(fld(m_data, this), %s)' % show(i) else (None if not isinstance(el, T) or lost(el) else False), 'leaf', f, 'the collected value is the point looked at: %s' % show(el)[:80])
    cc = mk('app', ('fld', 'coord', sym('coord', 'o')), 'o')

    g = band(*e.pc)
    want = None
    for t in subterms(g):
        if t.op == 'app' and t.a[0] == 'elem' and isinstance(t.a[1], T) and 'coord, coord' in show(t.a[1]):
            cc = t.a[1]
    g2 = unfold_small(g)
    m0 = mk('app', ('elem', cc, num(0)), 'r')
    d2 = add(*[mul(sub(coord(el, k), mk('app', ('elem', cc, num(k)), 'r')), sub(coord(el, k), mk('app', ('elem', cc, num(k)), 'r'))) for k in (0, 1)])
    r = sym('radius', 'r')
    rng = [ge(i, num(0)), lt(i, mk('app', ('size', data), 'i'))]
    within(ck, f, g2, d2, mul(r, r), exact={i}, facts=rng)


def unfold_small(t):
    """sums over a constant number of terms written out"""
    m = {}
    for x in subterms(t):
        if x.op == 'app' and x.a[0] == 'SUM':
            fo = unfold(x)
            n = fo.rngs[0][1] if fo is not None and len(fo.rngs) == 1 else None
            if n is not None and is_num(n) and const(n) is not None and const(n) <= 8:
                m[x] = add(fo.base, *[subst(fo.body, {fo.rngs[0][0]: num(k)}) for k in range(int(const(n)))])
    return subst(t, m) if m else t


def kd_query(ck, F):
    f = one(F, K + 'Split::findPointsWithinRadius')
    s = summ(F, f)
    qs = [e for e in s.effects if e.kind == 'query']
    sides = {'left': fld('m_left_child', s='o'), 'right': fld('m_right_child', s='o')}
    guards = {}
    for e in qs:
        for k, v in sides.items():
            if e.d['args'][0] is v:
                guards.setdefault(k, []).append(band(*e.pc))
        q = [show(a) for a in e.d['args'][2:]]
        ck.ok(q == ['radius'] or (None if any(lost(a) for a in e.d['args'][2:]) else False), 'prune', f, 'subtrees are asked about the same radius')
    if set(guards) != {'left', 'right'}:
        return ck.undecided('prune', f, 'queries of the children not recognised')
    p, r, sv = sym('p', 'r'), sym('radius', 'r'), fld('m_split_value', s='r')
    ax = [t for e in s.effects for c in e.pc for t in subterms(c) if t.op == 'app' and t.a[0] == 'elem' and 'fld(m_axis, this)' == show(t.a[2])]
    if not ax:
        return ck.fail('prune', f, 'the decision does not look at the coordinate along the axis of the node') if guards else None
    c = ax[0]
    for k, side in (('left', le(p, sv)), ('right', ge(p, sv))):
        g = bor(*guards[k])
        # a point of the child whose coordinate along the axis is strictly closer than the radius
        near = [side, lt(sub(p, c), r), lt(sub(c, p), r), ge(r, num(0))]
        ck.entail('prune', f, near, g, exact={x for x in subterms(g) if x.op == 'app' and x.a[0] == 'elem'}, what='the %s child is visited when one of its points can be in range' % k)
        x = guards[k]
        for i in range(len(x)):
            for j in range(i):
                ck.entail('prune', f, [x[i], ge(r, num(0))], bnot(x[j]), what='the %s child is visited once' % k)
    # both results are returned
    for cond, vs in leaves_of(s.ret):
        if isinstance(vs, T) and show(vs).startswith('query('):
            k = [k for k, v in sides.items() if vs.a[1] is v]
            o = 'right' if k == ['left'] else 'left'
            ck.entail('prune', f, cond + [ge(r, num(0))], bnot(bor(*guards[o])), what='the result of one child alone is returned only when the other was not visited')
        else:
            ins = [e for e in s.effects if e.kind == 'call' and e.d.get('n') == 'insert']
            for k, v in sides.items():
                w = [e for e in ins if whole(e.d['args'], v)]
                if len(w) == 1:
                    ck.entail('prune', f, cond, band(*w[0].pc), what='the result of the %s child is merged' % k)
                else:
                    ck.undecided('prune', f, 'merging of the result of the %s child (%d insertions)' % (k, len(w)))


def whole(args, child):
    """insert(…, begin, end) of what the child returned"""
    a = [x for x in args if isinstance(x, T) and x.op == 'app' and x.a[0] == 'iter']
    src = [x for x in a if isinstance(x.a[1], T) and x.a[1].op == 'app' and x.a[1].a[0] == 'query' and x.a[1].a[1] is child]
    if len(src) != 2:
        return False
    n = mk('app', ('size', src[0].a[1]), 'i')
    return src[0].a[1] is src[1].a[1] and src[0].a[2] is num(0) and show(src[1].a[2]) == show(n)


def leaves_of(t, pc=()):
    if isinstance(t, T) and t.op == 'ite':
        return leaves_of(t.a[1], pc + (t.a[0],)) + leaves_of(t.a[2], pc + (bnot(t.a[0]),))
    return [(list(pc), t)]


def kd_split(ck, F):
    f = one(F, K + 'Split::Split', 'ctor')
    s = summ(F, f)
    data, axis = sym('data', 'o'), sym('axis', 'i')
    kinds = [e.kind for e in s.effects]
    ck.eqv('split', f, s.st.heap.get((THIS, 'm_axis')), axis, what='axis of the node')
    so = [e for e in s.effects if e.kind == 'sort']
    if len(so) != 1:
        return ck.undecided('split', f, '%d sorts' % len(so))
    ck.ok(kinds.index('sort') < min([i for i, k in enumerate(kinds) if k in ('index', 'range', 'make')] or [10 ** 9]), 'split', f, 'points are sorted before the middle is looked up')
    o = so[0].d['order']
    ck.eqv('split', f, o, lt(coord(sym('a', 'o'), axis), coord(sym('b', 'o'), axis)), what='sorted by increasing coordinate along the axis')
    n = mk('app', ('size', data), 'i')
    facts = [gt(n, num(100))]
    rs = [e for e in s.effects if e.kind == 'range']
    rs = [(e, iters(e.d['args'])) for e in rs]
    if len(rs) != 2 or any(r is None for _, r in rs):
        return ck.undecided('split', f, 'halves not recognised')
    (a0, k0), (k1, n1) = sorted([r for _, r in rs], key=lambda p: p[0] is not num(0))
    ck.eqv('split', f, a0, num(0), facts=facts, what='the first half starts with the first point')
    ck.eqv('split', f, k1, k0, facts=facts, what='the second half starts where the first ends')
    ck.eqv('split', f, n1, n, facts=facts, what='the second half ends with the last point')
    for g, w in ((ge(k0, num(1)), 'first'), (lt(k0, n), 'second')):
        ck.entail('split', f, facts, g, what='the %s half is not empty' % w)
    el = lambda i: coord(mk('app', ('elem', data, i), 'o'), axis)
    sv = s.st.heap.get((THIS, 'm_split_value'))
    lo, hi = el(sub(k0, num(1))), el(k0)
    if isinstance(sv, T):
        for g, w in ((ge(sv, lo), 'not below the first half'), (le(sv, hi), 'not above the second half')):
            ck.entail('split', f, facts + [le(lo, hi)], g, exact={lo, hi}, what='the split value is ' + w)
    for side, (b, e_) in (('m_left_child', (a0, k0)), ('m_right_child', (k1, n1))):
        v = s.st.heap.get((THIS, side))
        for cond, x in leaves_of(v):
            if not (isinstance(x, T) and x.op == 'app' and x.a[0] == 'make'):
                ck.undecided('split', f, '%s is %s' % (side, show(x)[:60]))
                continue
            size = s.st.heap.get((x.a[1], '#size'))
            ck.eqv('split', f, size if size is not None else x.a[1], sub(e_, b), facts=facts + cond, what='%s receives its half' % side)


def iters(args):
    a = [x for x in args if isinstance(x, T) and x.op == 'app' and x.a[0] == 'iter']
    return (a[0].a[2], a[1].a[2]) if len(a) == 2 and a[0].a[1] is a[1].a[1] else None


def kd_root(ck, F):
    f = [g for g in F.fn(K + 'KdTree') if g.get('body') and g.get('fk') == 'ctor'][0]
    s = summ(F, f)
    v = s.st.heap.get((THIS, 'm_root'))
    for cond, x in leaves_of(v):
        src = x.a[1] if isinstance(x, T) and x.op == 'app' and x.a[0] == 'make' else None
        src = s.st.heap.get((src, '#copy'), (src,))[0] if src is not None else None
        ck.ok(src is sym('data', 'o') or None, 'split', f, 'the root holds all points: %s' % show(x)[:60])
    f = one(F, K + 'findPointsWithinRadius')
    s = summ(F, f, findPointsWithinRadius=rec('query', 'o'))
    q = [e for e in s.effects if e.kind == 'query']
    ck.ok(len(q) == 1 and q[0].d['args'][0] is fld('m_root', s='o') and not q[0].pc or None, 'prune', f, 'a query starts at the root')


# ---------------------------------------------------------------- quad tree
def xyof(m, o=THIS):
    b = mk('app', ('fld', m, o), 'o')
    return [mk('app', ('fld', k, b), 'r') for k in 'xy']


def quad_query(ck, F):
    f = one(F, Q + 'getPointsWithinRange')
    s = summ(F, f, getPointsWithinRange=rec('query', 'o'))
    c, r = sym('c', 'o'), sym('range', 'r')
    cx = [mk('app', ('fld', k, c), 'r') for k in 'xy']
    div = fld('m_is_divided', s='b')
    fl = [e for e in s.effects if e.kind == 'filter']
    if len(fl) == 1 and isinstance(fl[0].d['pred'], T):
        e = fl[0]
        it = iters(e.d['args'])
        src = [x for x in e.d['args'] if isinstance(x, T) and x.op == 'app' and x.a[0] == 'iter']
        ck.ok(it is not None and src[0].a[1] is fld('m_data', s='o') and it[0] is num(0) and show(it[1]) == 'size(fld(m_data, this))' or None, 'leaf', f, 'all points of the node are looked at')
        ck.entail('leaf', f, [bnot(div)], band(*e.pc), what='an undivided node looks at its own points')
        pt = sym('pt', 'o')
        d2 = add(*[mul(sub(coord(pt, i), cx[i]), sub(coord(pt, i), cx[i])) for i in (0, 1)])
        within(ck, f, e.d['pred'], d2, mul(r, r))
    else:
        ck.undecided('leaf', f, 'points of an undivided node (%d filters)' % len(fl))
    qs = [e for e in s.effects if e.kind == 'query']
    if len(qs) != 1 or not qs[0].loops:
        return ck.undecided('prune', f, 'queries of the subtrees')
    e = qs[0]
    i = e.loops[0].vars[0][0]
    ch = mk('app', ('elem', fld('m_sub_trees', s='o'), i), 'o')
    ck.ok(e.d['args'][0] is ch or (None if lost(e.d['args'][0], {i}) else False), 'prune', f, 'each subtree is asked: %s' % show(e.d['args'][0])[:60])
    mn, mx = xyof('m_min', ch), xyof('m_max', ch)
    p = [sym('px', 'r'), sym('py', 'r')]
    dsq = [mul(sub(p[k], cx[k]), sub(p[k], cx[k])) for k in (0, 1)]
    facts = [div, ge(i, num(0)), lt(i, num(4)), mk('app', ('nonnull', ch), 'b'), ge(r, num(0)), lt(add(*dsq), mul(r, r))]
    for k in (0, 1):
        facts += [ge(p[k], mn[k]), le(p[k], mx[k])]
    g = band(*e.pc)
    # squares are not negative; products of the one-sided distances along each axis, case by case on the side of the centre
    for cases in ((x, y) for x in (-1, 0, 1) for y in (-1, 0, 1)):
        h = list(facts)
        for k, w in enumerate(cases):
            h.append(ge(dsq[k], num(0)))
            if w < 0:
                h += [lt(cx[k], mn[k]), ge(mul(sub(p[k], mn[k]), sub(mn[k], cx[k])), num(0)), ge(mul(sub(p[k], mn[k]), sub(p[k], mn[k])), num(0))]
            elif w > 0:
                h += [gt(cx[k], mx[k]), ge(mul(sub(mx[k], p[k]), sub(cx[k], mx[k])), num(0)), ge(mul(sub(mx[k], p[k]), sub(mx[k], p[k])), num(0))]
            else:
                h += [ge(cx[k], mn[k]), le(cx[k], mx[k])]
        bad = example(h, g, i, cx, mn, mx, p, r, cases)
        if bad:
            ck.fail('prune', f, 'a subtree with a point in range is not asked: %s' % bad)
            continue
        ck.entail('prune', f, h, g, exact={i}, what='a subtree with a point in range is asked (centre %s, %s of its box)' % tuple({-1: 'before', 0: 'within', 1: 'after'}[w] for w in cases))
    ins = [x for x in s.effects if x.kind == 'call' and x.d.get('n') == 'insert']
    w = [x for x in ins if whole(x.d['args'], ch)]
    if len(w) == 1:
        ck.entail('prune', f, [g], band(*w[0].pc), exact={i}, what='what a subtree returns is returned')
    else:
        ck.undecided('prune', f, 'merging of subtree results')


def example(facts, goal, i, cx, mn, mx, p, r, cases):
    """a valuation of the geometry with the facts and without the goal"""
    pos = {-1: (-3, -1), 0: (1, 5), 1: (9, 12)}
    goal = band(*[x for x in (goal.a if goal.op == 'and' else (goal,)) if not show(x).startswith(('nonnull', 'fld(m_is_divided'))])
    for a in pos[cases[0]]:
        for b in pos[cases[1]]:
            for px, py in ((0, 0), (8, 6), (0, 6), (8, 0), (4, 3)):
                for q in (Fraction(1, 2), 2, 4, 7, 11):
                    if (a - px) ** 2 + (b - py) ** 2 >= q * q:
                        continue
                    m = dict(zip([i] + cx + mn + mx + p + [r], [num(x) for x in (0, a, b, 0, 0, 8, 6, px, py, q)]))
                    if subst(goal, m) is FALSE:
                        return 'box (0, 0)-(8, 6), centre (%s, %s), radius %s, point (%s, %s)' % (a, b, q, px, py)
    return None


def heapv(s, m, k):
    o = s.st.heap.get((THIS, m))
    b = o if isinstance(o, T) else mk('app', ('fld', m, THIS), 'o')
    v = s.st.heap.get((b, k))
    return v if v is not None else mk('app', ('fld', k, b), 'r')


def quad_local(ck, F):
    f = one(F, Q + 'addLocally')
    s = summ(F, f)
    d = sym('data', 'o')
    ps = [e for e in s.effects if e.kind == 'push']
    ck.ok(len(ps) == 1 and ps[0].d['val'] is d and not ps[0].pc and ps[0].d['obj'] is fld('m_data', s='o') or None, 'place', f, 'the point is stored in the node once')
    n = mk('app', ('size', fld('m_data', s='o')), 'i')
    for k in (0, 1):
        lo, hi = heapv(s, 'm_min', 'xy'[k]), heapv(s, 'm_max', 'xy'[k])
        v = coord(d, k)
        old = (xyof('m_min')[k], xyof('m_max')[k])
        ck.entail('box', f, [ge(n, num(0))], band(le(lo, v), ge(hi, v)), what='the box holds the new point along axis %d' % k)
        ck.entail('box', f, [ge(n, num(1))], band(le(lo, old[0]), ge(hi, old[1])), what='the box keeps the former points along axis %d' % k)


def quad_expand(ck, F):
    f = one(F, Q + 'expand')
    s = summ(F, f)
    c = sym('c', 'o')
    facts = []
    for k in (0, 1):
        facts.append(lt(xyof('m_min')[k], xyof('m_max')[k]))
    for k in (0, 1):
        lo, hi = heapv(s, 'm_min', 'xy'[k]), heapv(s, 'm_max', 'xy'[k])
        old = (xyof('m_min')[k], xyof('m_max')[k])
        ck.entail('box', f, facts, band(le(lo, old[0]), ge(hi, old[1])), what='expanding keeps the former box along axis %d' % k)
        ck.entail('box', f, facts, lt(mul(num(Fraction(3, 2)), sub(old[1], old[0])), sub(hi, lo)), what='expanding makes the box larger along axis %d' % k)
    ms = [e for e in s.effects if e.kind == 'make']
    st = [e for e in s.effects if e.kind == 'store' and e.d['lv'][0] == 'elem']
    first = min([i for i, e in enumerate(s.effects) if e.kind == 'store'] or [0])
    ck.ok(len(ms) == 1 and s.effects.index(ms[0]) < first or None, 'box', f, 'the former node is copied before it changes')
    keep = [e for e in st if isinstance(e.d['val'], T) and show(e.d['val']).startswith('make(')]
    drop = [e for e in st if isinstance(e.d['val'], T) and show(e.d['val']) == 'null()']
    if len(keep) == 1 and len(drop) == 1 and drop[0].loops:
        q = keep[0].d['lv'][2]
        i = drop[0].loops[0].vars[0][0]
        ck.entail('place', f, [ge(i, num(0)), lt(i, num(4)), bnot(eq(i, q))], band(*drop[0].pc), exact={i}, what='every other quadrant is emptied')
        ck.entail('place', f, [band(*drop[0].pc)], bnot(eq(i, q)), exact={i}, what='the former node is kept')
    else:
        ck.undecided('place', f, 'subtrees of the expanded node')


def quad_geometry(ck, F):
    c = sym('c', 'o')
    cx = [mk('app', ('fld', k, c), 'r') for k in 'xy']
    mn, mx = xyof('m_min'), xyof('m_max')
    f = one(F, Q + 'isContained')
    s = summ(F, f)
    ck.eqv('box', f, s.ret, band(*[band(ge(cx[k], mn[k]), le(cx[k], mx[k])) for k in (0, 1)]), what='a point is contained when it lies in the box')
    f = one(F, Q + 'getQuadrant')
    s = summ(F, f)
    up = [ge(mul(num(2), cx[k]), add(mn[k], mx[k])) for k in (0, 1)]
    ck.eqv('place', f, s.ret, add(ite(up[0], num(1), num(0)), ite(up[1], num(2), num(0))), what='quadrant of a point')
    q = sym('quadrant', 'i')
    for name, o in (('getQuadrantMin', 0), ('getQuadrantMax', 1)):
        f = one(F, Q + name)
        s = summ(F, f)
        for k in (0, 1):
            v = s.st.heap.get((s.ret, 'xy'[k])) if isinstance(s.ret, T) else None
            bit = bnot(eq(mk('app', ('band', num(k + 1), q), 'i'), num(0)))
            mid = mul(num(Fraction(1, 2)), add(mn[k], mx[k]))
            want = ite(bit, mid, mn[k]) if o == 0 else ite(bit, mx[k], mid)
            ck.eqv('place', f, v, want, what='%s of a quadrant along axis %d' % (('lower', 'upper')[o], k))


def quad_add(ck, F):
    f = one(F, Q + 'add')
    q = mk('app', ('quadrant', sym('n', 'i')), 'i')
    s = summ(F, f, getQuadrant=rec('quad', 'i'), isContained=rec('contained', 'b'), add=rec('add'), getQuadrantMin=rec('qmin', 'o'), getQuadrantMax=rec('qmax', 'o'))
    div = fld('m_is_divided', s='b')
    ad = [e for e in s.effects if e.kind == 'add']
    lo = [e for e in s.effects if e.kind == 'addl']
    if len(ad) != 1 or len(lo) != 1:
        return ck.undecided('place', f, '%d additions to subtrees, %d here' % (len(ad), len(lo)))
    d = sym('data', 'o')
    ck.entail('place', f, [bnot(div)], band(*lo[0].pc), what='an undivided node stores the point')
    ck.entail('place', f, [band(*lo[0].pc)], bnot(div), what='a divided node does not store the point')
    ck.ok(all(show(e.d['args'][1]) == 'data' for e in (ad[0], lo[0])) or None, 'place', f, 'the point itself is handed on')
    own = [c for c in ad[0].pc if not ('contained(' in show(c))]
    ck.entail('place', f, [div], band(*own), what='a divided node hands the point to a subtree')
    cont = [c for c in ad[0].pc if 'contained(' in show(c)]
    ck.ok(bool(cont) or any(e.kind == 'expand' for e in s.effects) or None, 'place', f, 'the node is expanded until it contains the point')
    sp = [e for e in s.effects if e.kind == 'split']
    for e in sp:
        mn, mx = xyof('m_min'), xyof('m_max')
        lits = [c for c in e.pc]
        got = band(*lits)
        after = [x for x in lits if 'm_min' in show(x)]
        ck.ok(bool(after) and s.effects.index(e) > s.effects.index(lo[0]) or None, 'place', f, 'a node is split after the point was stored, and only when its box has an extent')


def quad_split(ck, F):
    f = one(F, Q + 'split')
    s = summ(F, f, add=rec('add'))
    ad = [e for e in s.effects if e.kind == 'add']
    cl = [i for i, e in enumerate(s.effects) if e.kind in ('clear', 'resize') or (e.kind == 'call' and e.d.get('n') == 'clear')]
    if len(ad) != 1 or not ad[0].loops:
        return ck.undecided('split', f, 'points handed to the subtrees')
    i = ad[0].loops[0].vars[0][0]
    el = ad[0].d['args'][1]
    ck.ok(show(el) == 'elem(fld(m_data, this), %s)' % show(i) or None, 'split', f, 'each point of the node is handed on: %s' % show(el)[:60])
    ck.entail('split', f, [ge(i, num(0)), lt(i, mk('app', ('size', fld('m_data', s='o')), 'i'))], band(*ad[0].pc), exact={i}, what='every point is handed on')
    dv = [k for k, e in enumerate(s.effects) if e.kind == 'store' and e.d['lv'][-1] == 'm_is_divided']
    ck.ok(bool(dv) and dv[0] < s.effects.index(ad[0]) and s.effects[dv[0]].d['val'] is TRUE or None, 'split', f, 'the node is marked divided before its points are handed on')
    size = s.st.heap.get((fld('m_data', s='o'), '#size'))
    ck.ok(size is num(0) or None, 'split', f, 'the node keeps no point of its own')
    facts = [le(xyof('m_min')[k], xyof('m_max')[k]) for k in (0, 1)]
    for k in (0, 1):
        lo, hi = heapv(s, 'm_min', 'xy'[k]), heapv(s, 'm_max', 'xy'[k])
        ck.entail('box', f, facts, band(le(lo, xyof('m_min')[k]), ge(hi, xyof('m_max')[k])), what='the box keeps the points along axis %d' % k)
    w, h = [sub(heapv(s, 'm_max', k), heapv(s, 'm_min', k)) for k in 'xy']
    ck.entail('box', f, facts, band(ge(w, h), ge(h, w)), what='the box becomes a square, so that expanding it changes both axes')


def quad_remove(ck, F):
    f = one(F, Q + 'remove')
    s = summ(F, f, isContained=rec('contained', 'b'), remove=rec('remove'))
    rs = [e for e in s.effects if e.kind == 'remove']
    if len(rs) != 1 or not rs[0].loops:
        return ck.undecided('place', f, 'removal from the subtrees')
    e = rs[0]
    i = e.loops[0].vars[0][0]
    ch = mk('app', ('elem', fld('m_sub_trees', s='o'), i), 'o')
    ck.ok(e.d['args'][0] is ch and show(e.d['args'][1]) == 'data' or None, 'place', f, 'the point is removed from the subtree')
    cont = [c for p in e.pc for c in subterms(p) if c.op == 'app' and c.a[0] == 'contained']
    ck.entail('place', f, [fld('m_is_divided', s='b'), ge(i, num(0)), lt(i, num(4)), mk('app', ('nonnull', ch), 'b')] + [c if c.sort == 'b' else bnot(eq(c, num(0))) for c in cont], band(*e.pc), exact={i}, what='every subtree that can hold the point is visited')
