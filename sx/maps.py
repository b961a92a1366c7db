"""Associative containers as functional terms: map0(o) | mempty | mput(m,k,v) | mdel(m,k); membership and lookup are evaluated on the term."""
from .terms import *
from .stdmodel import model, ctor, _obj, _size, norm_q

MAPS = ('map', 'unordered_map')
SETS = ('set', 'unordered_set')
ALL = MAPS + SETS
EMPTY = mk('app', ('mempty',), 'o')
_it = ('_Rb_tree_iterator', '_Rb_tree_const_iterator', '_Node_iterator', '_Node_const_iterator')


def names(cs, *ms):
    return ['%s::%s' % (c, m) for c in cs for m in ms]


def cur(st, o):
    m = st.heap.get((o, '#map'))
    return m if m is not None else mk('app', ('map0', o), 'o')


def has(m, k):
    if m is EMPTY:
        return FALSE
    if m.op == 'ite':
        return ite(m.a[0], has(m.a[1], k), has(m.a[2], k))
    if m.op == 'app' and m.a[0] == 'mput':
        return bor(eq(m.a[2], k), has(m.a[1], k))
    if m.op == 'app' and m.a[0] == 'mdel':
        return band(bnot(eq(m.a[2], k)), has(m.a[1], k))
    return mk('app', ('has', m, k), 'b')


def get(m, k, s):
    if m.op == 'ite':
        return ite(m.a[0], get(m.a[1], k, s), get(m.a[2], k, s))
    if m.op == 'app' and m.a[0] == 'mput':
        c = eq(m.a[2], k)
        if c is TRUE:
            return m.a[3]
        if c is FALSE:
            return get(m.a[1], k, s)
        v = get(m.a[1], k, s)
        if m.a[3].sort == v.sort:
            return ite(c, m.a[3], v)
        return mk('app', ('mget', m, k), s)
    if m.op == 'app' and m.a[0] == 'mdel':
        # the value under a deleted key is never looked at: membership is false there
        return get(m.a[1], k, s)
    return mk('app', ('mget', m, k), s)


def put(it, st, o, k, v, n, kind):
    m = cur(st, o)
    h = has(m, k)
    s = _size(it, st, o)
    if kind == 'insert' and h is not FALSE:
        old = get(m, k, v.sort)
        st.heap[(o, '#map')] = mk('app', ('mput', m, k, ite(h, old, v)), 'o') if old.sort == v.sort else mk('app', ('mput', m, k, v), 'o')
    else:
        st.heap[(o, '#map')] = mk('app', ('mput', m, k, v), 'o')
    ns = ite(h, s, add(s, num(1)))
    st.heap[(o, '#size')] = ns
    it.effect('mapput', st, n, obj=o, key=k, val=v, how=kind, had=h)
    return h


def erase(it, st, o, k, n):
    m = cur(st, o)
    h = has(m, k)
    s = _size(it, st, o)
    st.heap[(o, '#map')] = mk('app', ('mdel', m, k), 'o')
    st.heap[(o, '#size')] = ite(h, sub(s, num(1)), s)
    it.effect('mapdel', st, n, obj=o, key=k, had=h)
    return ite(h, num(1), num(0))


def mit(o, m, k):
    return mk('app', ('mit', o, m, k), 'o')


def ismit(t):
    return isinstance(t, T) and t.op == 'app' and t.a[0] == 'mit'


def isend(st, it, t, o):
    """t is the end iterator of container o"""
    return isiter(t) and t.a[1] is o and t.a[2] is _size(it, st, o)


def _key(it, a, st):
    v = it.val(it.ev(a, st), st)
    return it._t(v, st)


@ctor(*['std::' + c for c in ALL])
def _(it, n, st):
    if n.get('ck') in ('copy', 'move'):
        return it.copy_obj(it.val(it.ev(n['args'][0], st), st), st)
    if any(a['k'] not in ('defarg',) and 'allocator' not in a.get('t', '') for a in n['args']):
        return None
    o = it.fresh('map', 'o')
    st.heap[(o, '#map')] = EMPTY
    st.heap[(o, '#size')] = num(0)
    return o


@model(*names(ALL, 'find'))
def _(it, n, st):
    o = _obj(it, n, st)
    if o is None or len(n['args']) != 1:
        return None
    k = _key(it, n['args'][0], st)
    return mit(o, cur(st, o), k)


@model(*names(ALL, 'count'))
def _(it, n, st):
    o = _obj(it, n, st)
    if o is None or len(n['args']) != 1:
        return None
    return ite(has(cur(st, o), _key(it, n['args'][0], st)), num(1), num(0))


@model(*names(ALL, 'contains'))
def _(it, n, st):
    o = _obj(it, n, st)
    return has(cur(st, o), _key(it, n['args'][0], st)) if o is not None else None


@model(*names(MAPS, 'at'))
def _(it, n, st):
    from .interp import Ref
    o = _obj(it, n, st)
    if o is None:
        return None
    k = _key(it, n['args'][0], st)
    it.effect('mapat', st, n, obj=o, key=k, has=has(cur(st, o), k))
    return Ref(('mel', o, k))


@model(*names(MAPS, 'operator[]'))
def _(it, n, st):
    from .interp import Ref, sort_of, ctype
    o = _obj(it, n, st)
    if o is None:
        return None
    k = _key(it, n['args'][0], st)
    h = has(cur(st, o), k)
    if h is not TRUE:
        s = sort_of(ctype(n.get('t', '')))
        d = num(0) if s in 'ir' else FALSE if s == 'b' else mk('app', ('default', ctype(n.get('t', ''))), 'o')
        put(it, st, o, k, d, n, 'insert')
        it.effects[-1].d['how'] = 'index'
    return Ref(('mel', o, k))


@model(*names(MAPS, 'emplace', 'insert', 'try_emplace', 'insert_or_assign', 'emplace_hint'))
def _(it, n, st):
    from .interp import Tup, Ref
    o = _obj(it, n, st)
    if o is None:
        return None
    av = [it.val(it.ev(a, st), st) for a in n['args']]
    if n['n'] == 'emplace_hint':
        av = av[1:]
    if len(av) == 1 and isinstance(av[0], Tup) and len(av[0].vals) == 2:
        av = av[0].vals
    elif len(av) == 1 and isinstance(av[0], T) and av[0].op == 'app' and str(av[0].a[0]).startswith('new:std::pair') and len(av[0].a) == 3:
        av = list(av[0].a[1:])
    if len(av) != 2:
        return None
    k, v = it._t(av[0], st), it._t(av[1], st)
    h = put(it, st, o, k, v, n, 'assign' if n['n'] == 'insert_or_assign' else 'insert')
    return Tup([mit(o, cur(st, o), k), bnot(h)])


@model(*names(SETS, 'emplace', 'insert'))
def _(it, n, st):
    from .interp import Tup
    o = _obj(it, n, st)
    if o is None or len(n['args']) != 1:
        return None
    k = _key(it, n['args'][0], st)
    if isiter(k):
        return None
    h = put(it, st, o, k, k, n, 'insert')
    return Tup([mit(o, cur(st, o), k), bnot(h)])


@model(*names(ALL, 'erase'))
def _(it, n, st):
    o = _obj(it, n, st)
    if o is not None and len(n['args']) == 2:
        a, b = [_key(it, x, st) for x in n['args']]
        if isiter(a) and a.a[1] is o and const(a.a[2]) == 0 and isend(st, it, b, o):
            it.effect('clear', st, n, obj=o)
            st.heap[(o, '#map')] = EMPTY
            st.heap[(o, '#size')] = num(0)
            return b
        return None
    if o is None or len(n['args']) != 1:
        return None
    k = _key(it, n['args'][0], st)
    if ismit(k):
        if k.a[1] is not o:
            return None
        erase(it, st, o, k.a[3], n)
        return mk('app', ('next', k), 'o')
    if isiter(k):
        return None
    return erase(it, st, o, k, n)


@model(*names(('unordered_map', 'unordered_set'), 'reserve', 'rehash'))
def _(it, n, st):
    return num(0)


@model(*names(_it, 'operator->', 'operator*'))
def _(it, n, st):
    from .interp import Ref
    v = it.val(it.ev(n['obj'], st), st)
    if ismit(v):
        o, k = v.a[1], v.a[3]
        it.effect('mapat', st, n, obj=o, key=k, has=has(cur(st, o), k))
        if n['n'] == 'operator->' or 'pair' in n.get('t', ''):
            e = mk('app', ('mentry', o, k), 'o')
            st.heap[(e, 'first')] = k
            st.heap[(e, 'second')] = Ref(('mel', o, k))
            return e
        return k
    if isiter(v):
        from . import stdmodel
        i = v.a[2]
        it.effect('index', st, n, obj=v.a[1], idx=i)
        if n['n'] == 'operator->':
            return it.elem_read(st, v.a[1], i, 'o')
        return Ref(('elem', v.a[1], i))
    return None


def iter_eq(it, st, a, b):
    """comparison of two container iterators, None when not of this theory"""
    for x, y in ((a, b), (b, a)):
        if ismit(x):
            if isiter(y) and y.a[1] is x.a[1]:
                # only the end iterator has a size-like index
                if y.a[2] is _size(it, st, x.a[1]) or y.a[2] is size_at(x.a[1], x.a[2]):
                    return bnot(has(x.a[2], x.a[3]))
            if ismit(y) and y.a[1] is x.a[1]:
                return mk('same', tuple(sorted((x, y), key=lambda t: t.sk)), 'b')
    return None


def size_at(o, m):
    s = mk('app', ('size', o), 'i')
    return s
