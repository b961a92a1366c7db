"""Standard algorithms over iterator ranges, read as the loops they are."""
from .terms import *
from .stdmodel import model, _size

_n = [0]


def _loop(it, n, st, a, b, elemt, fn):
    """run fn(element, st) for every position of [a, b)"""
    from .interp import Ref, isiter, ctype
    o = a.a[1]
    _n[0] += 1
    body = {'k': 'pystmt', 'fn': None, 'l': n.get('l')}
    if const(a.a[2]) == 0 and b.a[2] is _size(it, st, o):
        vid = 'algo%d' % _n[0]
        node = {'k': 'rfor', 'l': n.get('l'), 'e': n.get('l'), 'var': {'id': vid, 't': elemt, 'n': 'x'}, 'b': body}
        k = it.declare(vid)
        body['fn'] = lambda s: fn(s.env[k], s)
        out = it.loop(node, st, None, None, body, rng=o)
    else:
        vid = 'algo%d' % _n[0]
        k = it.declare(vid)
        st.env[k] = a.a[2]
        hi = b.a[2]

        def step(s):
            s.env[k] = add(s.env[k], num(1))
            return num(0)

        def elem(s):
            i = s.env[k]
            it.effect('index', s, n, obj=o, idx=i)
            cur = it.elem_read(s, o, i, ctype(elemt))
            keep = isinstance(cur, T) and cur.sort == 'o'
            return cur if keep or not elemt.endswith('&') else Ref(('elem', o, i))
        body['fn'] = lambda s: fn(elem(s), s)
        node = {'k': 'for', 'l': n.get('l'), 'e': n.get('l'), 'b': body}
        out = it.loop(node, st, {'k': 'pyexpr', 'fn': lambda s: lt(s.env[k], hi)}, {'k': 'pyexpr', 'fn': step}, body)
    s = out.get('next') if isinstance(out, dict) else None
    if s is None:
        return False
    st.env, st.heap, st.pc = s.env, s.heap, s.pc
    return True


def _range(it, n, st):
    from .interp import isiter, Ref
    v = []
    for a in n['args'][:2]:
        x = it.val(it.ev(a, st), st)
        if isinstance(x, Ref):
            x = it.rd(st, x.lv, '')
        v.append(x)
    if all(isinstance(x, T) and isiter(x) for x in v) and v[0].a[1] is v[1].a[1]:
        return v
    return None


def _fun(it, a, st):
    from .interp import Lam
    f = it.val(it.ev(a, st), st)
    return f if isinstance(f, Lam) else None


def _pt(f, i=-1):
    ps = f.node['params']
    t = ps[i]['t'] if ps else ''
    return t if t.endswith('&') else 'const ' + t + ' &' if False else t


@model('std::for_each')
def _(it, n, st):
    if len(n['args']) != 3:
        return None
    r = _range(it, n, st)
    f = _fun(it, n['args'][2], st) if r else None
    if f is None:
        return None
    return num(0) if _loop(it, n, st, r[0], r[1], _pt(f), lambda x, s: it.call_lambda(f, [x], s, n)) else None


@model('std::accumulate')
def _(it, n, st):
    from .interp import sort_of, ctype
    if len(n['args']) not in (3, 4):
        return None
    r = _range(it, n, st)
    if r is None:
        return None
    v0 = it.val(it.ev(n['args'][2], st), st)
    if not (isinstance(v0, T) and v0.sort in 'irb'):
        return None
    f = None
    if len(n['args']) == 4:
        f = _fun(it, n['args'][3], st)
        if f is None:
            return None
    rt = ctype(n.get('t', ''))
    if sort_of(rt) == 'r':
        v0 = it.coerce(v0, rt)
    _n[0] += 1
    k = it.declare('acc%d' % _n[0])
    st.env[k] = it.num_(v0)

    def step(x, s):
        if f is not None:
            y = it.val(it.call_lambda(f, [s.env[k], x], s, n), s)
        else:
            y = add(it.num_(s.env[k]), it.num_(it.val(x, s)))
        s.env[k] = it.coerce(y, rt) if rt else y
        return num(0)
    if not _loop(it, n, st, r[0], r[1], _pt(f) if f is not None else (rt or 'double'), step):
        return None
    return st.env[k]


def _counting(name, conv, neg_):
    @model('std::' + name)
    def h(it, n, st):
        if len(n['args']) != 3:
            return None
        r = _range(it, n, st)
        f = _fun(it, n['args'][2], st) if r else None
        if f is None:
            return None
        _n[0] += 1
        k = it.declare('cnt%d' % _n[0])
        st.env[k] = num(0)

        def step(x, s):
            c = it.bool_(it.val(it.call_lambda(f, [x], s, n), s))
            s.env[k] = add(s.env[k], ite(bnot(c) if neg_ else c, num(1), num(0)))
            return num(0)
        return conv(st.env[k]) if _loop(it, n, st, r[0], r[1], _pt(f), step) else None


_counting('count_if', lambda c: c, False)
_counting('any_of', lambda c: gt(c, num(0)), False)
_counting('none_of', lambda c: eq(c, num(0)), False)
_counting('all_of', lambda c: eq(c, num(0)), True)


@model('std::transform')
def _(it, n, st):
    from .interp import isiter, mkiter, Ref
    from .stdmodel import _append
    if len(n['args']) != 4:
        return None
    r = _range(it, n, st)
    f = _fun(it, n['args'][3], st) if r else None
    if f is None:
        return None
    d = it.val(it.ev(n['args'][2], st), st)
    if isinstance(d, Ref):
        d = it.rd(st, d.lv, '')
    if not isinstance(d, T):
        return None
    cnt = sub(r[1].a[2], r[0].a[2])
    if d.op == 'app' and d.a[0] == 'backins':
        def step(x, s):
            _append(it, n, s, d.a[1], it.val(it.call_lambda(f, [x], s, n), s))
            return num(0)
        return d if _loop(it, n, st, r[0], r[1], _pt(f), step) else None
    if not isiter(d):
        return None
    _n[0] += 1
    k = it.declare('dst%d' % _n[0])
    st.env[k] = d.a[2]

    def step(x, s):
        v = it.val(it.call_lambda(f, [x], s, n), s)
        i = s.env[k]
        it.effect('index', s, n, obj=d.a[1], idx=i)
        it.wr(s, ('elem', d.a[1], i), v, n)
        s.env[k] = add(i, num(1))
        return num(0)
    return mkiter(d.a[1], add(d.a[2], cnt)) if _loop(it, n, st, r[0], r[1], _pt(f), step) else None
