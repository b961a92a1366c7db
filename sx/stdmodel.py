"""Models of the standard-library operations the analysed code uses (the interpreter's intrinsic semantics)."""
from .terms import *

_M = {}
_C = {}


def model(*names):
    def d(f):
        for n in names:
            _M[n] = f
        return f
    return d


def ctor(*names):
    def d(f):
        for n in names:
            _C[n] = f
        return f
    return d


_cache = {}


def norm_q(q, n):
    """qualified name with the template arguments of the enclosing classes removed"""
    if '<' not in q:
        return q
    k = (q, n)
    r = _cache.get(k)
    if r is None:
        if n and q.endswith('::' + n):
            c = q[:-len(n) - 2]
            d, out = 0, []
            for ch in c:
                if ch == '<':
                    d += 1
                elif ch == '>':
                    d -= 1
                elif d == 0:
                    out.append(ch)
            r = ''.join(out) + '::' + n
        else:
            r = q
        _cache[k] = r
    return r


def lookup(q, n):
    q = norm_q(q, n.get('n'))
    h = _M.get(q)
    if h:
        return h
    s = n.get('n') or q.split('::')[-1]
    if q.startswith('std::') or q.startswith('boost::') or q.startswith('__gnu_cxx::'):
        cls = q[:-len(s) - 2].split('::')[-1] if q.endswith('::' + s) else ''
        h = _M.get('%s::%s' % (cls, s))
        if h:
            return h
        h = _M.get('std::*::' + s)
        if h:
            return h
    elif '::' not in q:
        return _M.get('std::' + s) if s in _MATH else None
    return None


def lookup_ctor(q, n):
    return _C.get(q) or (_C.get('std::*') if q.startswith('std::') else None)


_MATH = {'exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sinh', 'cosh', 'tanh', 'asinh', 'floor', 'ceil', 'round', 'trunc', 'pow', 'fabs', 'abs', 'hypot', 'cbrt', 'fmod', 'floorf', 'ceilf', 'sqrtf', 'expf', 'powf', 'fabsf', 'lround', 'fmin', 'fmax', 'isnan', 'isfinite', 'isinf', 'log10', 'tgamma', 'log1p', 'expm1', 'copysign'}


def _num(it, n, st, i):
    return it.num_(it.val(it.ev(n['args'][i], st), st))


def _fun(name):
    def h(it, n, st):
        x = _num(it, n, st, 0)
        return app(name, (x,), 'r')
    return h


for _n in ('exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'cbrt', 'log10', 'tgamma'):
    _M['std::' + _n] = _fun(_n)
_M['std::log1p'] = lambda it, n, st: app('log', (add(num(1), _num(it, n, st, 0)),), 'r')
_M['std::expm1'] = lambda it, n, st: sub(app('exp', (_num(it, n, st, 0),), 'r'), num(1))


@model('std::copysign')
def _(it, n, st):
    a, b = tabs(_num(it, n, st, 0)), _num(it, n, st, 1)
    return ite(lt(b, num(0)), neg(a), a)


_M['std::sqrtf'] = _fun('sqrt')
_M['std::expf'] = _fun('exp')
for _n, _r in (('floor', 'floor'), ('ceil', 'ceil'), ('round', 'round'), ('trunc', 'trunc'), ('floorf', 'floor'), ('ceilf', 'ceil'), ('lround', 'round')):
    def _mkr(_r):
        return lambda it, n, st: app(_r, (_num(it, n, st, 0),), 'i')
    _M['std::' + _n] = _mkr(_r)


@model('std::pow', 'std::powf')
def _(it, n, st):
    return app('pow', (_num(it, n, st, 0), _num(it, n, st, 1)), 'r')


@model('std::atan2')
def _(it, n, st):
    return app('atan2', (_num(it, n, st, 0), _num(it, n, st, 1)), 'r')


@model('std::hypot')
def _(it, n, st):
    a, b = _num(it, n, st, 0), _num(it, n, st, 1)
    return app('sqrt', (add(mul(a, a), mul(b, b)),), 'r')


@model('std::fmod')
def _(it, n, st):
    return app('fmod', (_num(it, n, st, 0), _num(it, n, st, 1)), 'r')


@model('std::abs', 'std::fabs', 'std::fabsf')
def _(it, n, st):
    return tabs(_num(it, n, st, 0))


@model('std::isnan', 'std::isinf')
def _(it, n, st):
    return mk('app', ('isbad', n['n'], _num(it, n, st, 0)), 'b')


@model('std::isfinite')
def _(it, n, st):
    return bnot(mk('app', ('isbad', 'notfinite', _num(it, n, st, 0)), 'b'))


def _lst(it, n, st):
    a = [it.val(it.ev(x, st), st) for x in n['args']]
    if len(a) == 1:
        l = st.heap.get((a[0], '[]')) if isinstance(a[0], T) else None
        if l is None:
            return None
        return [it.num_(v) for g, lo, i, v in l]
    return [it.num_(x) for x in a[:2]]


@model('std::min', 'std::fmin')
def _(it, n, st):
    if len(n['args']) == 3:
        return None
    l = _lst(it, n, st)
    if l is None:
        return None
    r = l[0]
    for x in l[1:]:
        r = tmin(r, x)
    return r


@model('std::max', 'std::fmax')
def _(it, n, st):
    if len(n['args']) == 3:
        return None
    l = _lst(it, n, st)
    if l is None:
        return None
    r = l[0]
    for x in l[1:]:
        r = tmax(r, x)
    return r


@model('std::clamp')
def _(it, n, st):
    a, b, c = (_num(it, n, st, i) for i in range(3))
    return ite(lt(a, b), b, ite(lt(c, a), c, a))


@model('std::swap')
def _(it, n, st):
    a, b = it.lvalue(n['args'][0], st), it.lvalue(n['args'][1], st)
    x, y = it.rd(st, a, n['args'][0].get('t', '')), it.rd(st, b, n['args'][1].get('t', ''))
    it.wr(st, a, y, n)
    it.wr(st, b, x, n)
    return num(0)


@model('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref')
def _(it, n, st):
    if len(n['args']) != 1:
        return None
    a = n['args'][0]
    v = it.ev(a, st)
    return it.val(v, st, a.get('t', ''))


@model('std::make_shared', 'std::make_unique')
def _(it, n, st):
    import re
    ta = n.get('ta', '')
    cls = ta[1:].split(',')[0].rstrip('>') if ta else ''
    full = ta[1:-1]
    # first template argument (balanced)
    d = 0
    first = ''
    for ch in full:
        if ch == '<': d += 1
        if ch == '>': d -= 1
        if ch == ',' and d == 0:
            break
        first += ch
    first = first.strip()
    from .interp import strip_targs, ctype
    q = strip_targs(ctype(first))
    rs = [r for r in it.F.rec_q.get(q, []) if r['t'] == first] or it.F.rec_q.get(q, [])
    h = it.handlers.get(q + '#make') or it.handlers.get(q.split('::')[-1] + '#make')
    if h:
        r = h(it, n, st)
        if r is not None:
            return r
    if q == 'std::vector':
        pn = {'k': 'ctor', 'q': q, 'args': n['args'], 't': first, 'l': n.get('l'), 'key': None}
        if len(n['args']) == 1 and strip_targs(ctype(n['args'][0].get('t', '')).replace('&', '').strip()) == 'std::vector':
            pn['ck'] = 'copy'
        return _C['std::vector'](it, pn, st)
    av = [it.arg(a, 'c' if a['k'] in ('ref', 'mem') else 'v', st) for a in n['args']]
    cands = []
    for r in rs:
        for m in r['methods']:
            if m['fk'] in ('ctor', 'dctor', 'copyctor', 'movector') and m['key'] in it.F.funcs and not m.get('implicit'):
                f = it.F.funcs[m['key']]
                req = sum(1 for p in f['params'] if p.get('def') is None)
                if req <= len(av) <= len(f['params']):
                    cands.append((m, f))
    cands = [c for c in cands if c[0]['fk'] != 'copyctor' and c[0]['fk'] != 'movector'] or cands
    if len(cands) == 1 and it.depth < it.maxdepth and q not in it.opaque:
        return it.construct(cands[0][1], av, st, n)
    at = [it._t(it.val(a, st), st) for a in av]
    r = mk('app', ('new:' + q,) + tuple(at), 'o')
    it.effect('call', st, n, q=q, n=q.split('::')[-1], obj=None, args=av, argt=at, ret=r, pure=True, ctor=True)
    return r


# smart pointers are transparent
@model('shared_ptr::get', 'unique_ptr::get', '__shared_ptr::get', '__shared_ptr_access::operator->', '__shared_ptr_access::operator*', 'unique_ptr::operator->', 'unique_ptr::operator*', '__shared_ptr_access::get', 'reference_wrapper::get', 'reference_wrapper::operator type-parameter-0-0 &', 'weak_ptr::lock', 'optional::operator*', 'optional::operator->', 'optional::value', 'optional::get')
def _(it, n, st):
    return it.val(it.ev(n['obj'], st), st)


@model('shared_ptr::operator bool', '__shared_ptr::operator bool', 'unique_ptr::operator bool', 'function::operator bool', 'optional::has_value')
def _(it, n, st):
    return it.bool_(it.val(it.ev(n['obj'], st), st))


@model('std::dynamic_pointer_cast', 'std::static_pointer_cast', 'std::const_pointer_cast')
def _(it, n, st):
    v = it.val(it.ev(n['args'][0], st), st)
    if n['n'] == 'dynamic_pointer_cast' and isinstance(v, T):
        return mk('app', ('dyncast', n.get('ta', ''), v), 'o')
    return v


@model('std::get')
def _(it, n, st):
    v = it.val(it.ev(n['args'][0], st), st)
    from .interp import Tup, Ref
    i = n.get('ta', '<0').lstrip('<').split(',')[0].rstrip('>').rstrip('UL')
    if isinstance(v, Tup) and i.isdigit():
        return v.vals[int(i)]
    if isinstance(v, T) and v.sort == 'o' and i.isdigit():
        return Ref(('fld', v, ('#%s' % i) if 'std::pair<' not in n['args'][0].get('t', '') else ('first', 'second')[int(i)]))
    return None


@model('std::tie', 'std::make_tuple', 'std::make_pair', 'std::forward_as_tuple')
def _(it, n, st):
    from .interp import Tup, Ref
    if n['n'] in ('tie', 'forward_as_tuple'):
        return Tup([Ref(it.lvalue(a, st)) for a in n['args']])
    vs = [it.val(it.ev(a, st), st) for a in n['args']]
    if n['n'] == 'make_pair':
        o = it.fresh('pair', 'o')
        st.heap[(o, 'first')], st.heap[(o, 'second')] = vs
        return o
    return Tup(vs)


@model('tuple::operator=')
def _(it, n, st):
    from .interp import Tup, Ref
    l = it.ev(n['obj'], st)
    r = it.val(it.ev(n['args'][0], st), st)
    if isinstance(l, Tup) and isinstance(r, Tup):
        for a, b in zip(l.vals, r.vals):
            if isinstance(a, Ref):
                it.wr(st, a.lv, b, n)
        return l
    if isinstance(l, Tup) and isinstance(r, T):
        for i, a in enumerate(l.vals):
            if isinstance(a, Ref):
                it.wr(st, a.lv, it.hread(st, r, '#%d' % i, 'double'), n)
        return l
    lv = it.lvalue(n['obj'], st)
    if lv[0] == 'tmp' and isinstance(lv[1], T) or (isinstance(l, T) and isinstance(r, Tup)):
        o = it.val(l, st)
        if isinstance(o, T) and isinstance(r, Tup):
            for i, b in enumerate(r.vals):
                it.wr(st, ('fld', o, '#%d' % i), b, n)
            return o
    if lv[0] != 'tmp':
        it.wr(st, lv, r, n)
        return r
    return None


@ctor('std::tuple')
def _(it, n, st):
    from .interp import Tup
    if n.get('ck') in ('copy', 'move'):
        return it.val(it.ev(n['args'][0], st), st)
    vs = [it.val(it.ev(a, st), st) for a in n['args']]
    if len(vs) == 1 and isinstance(vs[0], Tup):
        return vs[0]
    from .interp import ctype
    if len(vs) == 1 and isinstance(vs[0], T) and vs[0].sort == 'o' and ctype(n['args'][0].get('t', '')).replace('const ', '').startswith('std::pair<'):
        return Tup([it.hread(st, vs[0], m, 'double') for m in ('first', 'second')])
    return Tup(vs)


@ctor('std::pair')
def _(it, n, st):
    if n.get('ck') in ('copy', 'move') or len(n['args']) != 2:
        return it.copy_obj(it.val(it.ev(n['args'][0], st), st), st) if n['args'] else None
    o = it.fresh('pair', 'o')
    st.heap[(o, 'first')] = it.val(it.ev(n['args'][0], st), st)
    st.heap[(o, 'second')] = it.val(it.ev(n['args'][1], st), st)
    return o


# --------------------------------------------------------------- containers
def _size(it, st, o):
    from .interp import UNSIGNED
    if isinstance(o, T) and o.op == 'ite':
        return ite(o.a[0], _size(it, st, o.a[1]), _size(it, st, o.a[2]))
    s = st.heap.get((o, '#size'))
    if s is None:
        src = st.heap.get((o, '#copy'))
        if src is not None:
            from .interp import State
            s2 = State()
            s2.heap = src[1]
            return _size(it, s2, src[0])
        if st.heap.get((o, '#local')) is not None:
            return num(0)
        s = mk('app', ('size', o), 'i')
        UNSIGNED.add(s)
    return s


def _obj(it, n, st):
    o = it.objval(n['obj'], st)
    return o if isinstance(o, T) else None


@model('vector::size', 'array::size', 'list::size', 'map::size', 'set::size', 'deque::size', 'initializer_list::size', 'basic_string::size', 'unordered_map::size', 'unordered_set::size', 'valarray::size')
def _(it, n, st):
    from .interp import Tup
    o = it.objval(n['obj'], st)
    if isinstance(o, Tup):
        return num(len(o.vals))
    return _size(it, st, o) if isinstance(o, T) else None


@model('vector::empty', 'list::empty', 'map::empty', 'set::empty', 'deque::empty', 'basic_string::empty', 'unordered_map::empty', 'unordered_set::empty')
def _(it, n, st):
    o = _obj(it, n, st)
    return eq(_size(it, st, o), num(0)) if o is not None else None


@model('vector::operator[]', 'vector::at', 'array::operator[]', 'array::at', 'deque::operator[]', 'valarray::operator[]')
def _(it, n, st):
    from .interp import Ref
    o = it.objval(n['obj'], st)
    i = it.num_(it.val(it.ev(n['args'][0], st), st))
    it.effect('index', st, n, obj=o, idx=i)
    return Ref(('elem', o, i))


@model('unique_ptr::operator[]')
def _(it, n, st):
    from .interp import Ref
    o = it.val(it.ev(n['obj'], st), st)
    i = it.num_(it.val(it.ev(n['args'][0], st), st))
    return Ref(('elem', o, i))


@model('vector::front', 'list::front', 'deque::front')
def _(it, n, st):
    from .interp import Ref
    o = it.objval(n['obj'], st)
    it.effect('index', st, n, obj=o, idx=num(0))
    return Ref(('elem', o, num(0)))


@model('vector::back', 'list::back', 'deque::back')
def _(it, n, st):
    from .interp import Ref
    o = _obj(it, n, st)
    if o is None:
        return None
    i = sub(_size(it, st, o), num(1))
    it.effect('index', st, n, obj=o, idx=i)
    return Ref(('elem', o, i))


@model('vector::data', 'array::data')
def _(it, n, st):
    o = _obj(it, n, st)
    return mk('app', ('data', o), 'i') if o is not None else None


_CONT = ('vector', 'array', 'deque', 'list', 'map', 'set', 'unordered_map', 'unordered_set', 'basic_string', 'initializer_list')


@model(*['%s::%s' % (c, m) for c in _CONT for m in ('begin', 'cbegin')])
def _(it, n, st):
    o = _obj(it, n, st)
    return mkiter(o, num(0)) if o is not None else None


@model(*['%s::%s' % (c, m) for c in _CONT for m in ('end', 'cend')])
def _(it, n, st):
    o = _obj(it, n, st)
    return mkiter(o, _size(it, st, o)) if o is not None else None


@model('std::begin', 'std::cbegin')
def _(it, n, st):
    o = it.val(it.ev(n['args'][0], st), st)
    return mkiter(o, num(0)) if isinstance(o, T) else None


@model('std::end', 'std::cend')
def _(it, n, st):
    o = it.val(it.ev(n['args'][0], st), st)
    return mkiter(o, _size(it, st, o)) if isinstance(o, T) else None


_ITC = ('__normal_iterator', '_List_iterator', '_List_const_iterator', '_Deque_iterator', '_Rb_tree_iterator', '_Rb_tree_const_iterator', '_Node_iterator', '_Node_const_iterator')


def _iters(*ops):
    return ['%s::%s' % (c, o) for c in _ITC for o in ops]


def _ival(it, a, st):
    v = it.ev(a, st)
    from .interp import Ref
    while isinstance(v, Ref):
        v = it.rd(st, v.lv, '')
    return v


@model(*_iters('operator*', 'operator->', 'operator[]'))
def _(it, n, st):
    from .interp import Ref
    v = _ival(it, n['obj'], st)
    if isiter(v):
        i = v.a[2]
        if n['n'] == 'operator[]':
            i = add(i, it.num_(it.val(it.ev(n['args'][0], st), st)))
        it.effect('index', st, n, obj=v.a[1], idx=i)
        if n['n'] == 'operator->':
            return it.elem_read(st, v.a[1], i, 'o')
        return Ref(('elem', v.a[1], i))
    return None


def _iterval(it, a, st):
    return _ival(it, a, st)


@model(*_iters('operator++', 'operator--', 'operator+=', 'operator-='))
def _(it, n, st):
    v = _ival(it, n['obj'], st)
    if not isiter(v):
        return None
    if n['n'] in ('operator++', 'operator--'):
        d = num(1)
    else:
        d = it.num_(it.val(it.ev(n['args'][0], st), st))
    nv = mkiter(v.a[1], add(v.a[2], neg(d) if '-' in n['n'] else d))
    lv = it.lvalue(n['obj'], st)
    if lv[0] == 'var':
        it.wr(st, lv, nv, n)
    elif lv[0] == 'fld':
        st.heap[(lv[1], lv[2])] = nv
    elif lv[0] != 'tmp':
        return None
    return v if (n['n'] in ('operator++', 'operator--') and n['args']) else nv


@model(*_iters('operator=', 'operator+', 'operator-', 'operator==', 'operator!='))
def _(it, n, st):
    if n['n'] == 'operator=':
        v = it.val(it.ev(n['args'][0], st), st)
        lv = it.lvalue(n['obj'], st)
        if lv[0] == 'fld':
            st.heap[(lv[1], lv[2])] = v
        elif lv[0] != 'tmp':
            it.wr(st, lv, v, n)
        return v
    v = _ival(it, n['obj'], st)
    d = it.val(it.ev(n['args'][0], st), st)
    if n['n'][8:] in ('==', '!='):
        r = maps().iter_eq(it, st, v, d)
        if r is not None:
            return r if n['n'][8:] == '==' else bnot(r)
    return it.iter_op(n['n'][8:], v, d) if (isiter(v) or isiter(d)) else None


@model('__gnu_cxx::operator!=', '__gnu_cxx::operator==', '__gnu_cxx::operator<', '__gnu_cxx::operator>', '__gnu_cxx::operator<=', '__gnu_cxx::operator>=', '__gnu_cxx::operator-', '__gnu_cxx::operator+')
def _(it, n, st):
    a, b = (_ival(it, x, st) for x in n['args'])
    return it.iter_op(n['op'], a, b) if (isiter(a) or isiter(b)) else None


@model('std::next', 'std::prev')
def _(it, n, st):
    a = _ival(it, n['args'][0], st)
    d = it.num_(it.val(it.ev(n['args'][1], st), st)) if len(n['args']) > 1 and n['args'][1]['k'] != 'defarg' else num(1)
    return it.iter_op('+' if n['n'] == 'next' else '-', a, d) if isiter(a) else None


@model('std::distance')
def _(it, n, st):
    a, b = (_ival(it, x, st) for x in n['args'])
    return it.iter_op('-', b, a) if (isiter(a) or isiter(b)) else None


@model('std::advance')
def _(it, n, st):
    a = _ival(it, n['args'][0], st)
    d = it.val(it.ev(n['args'][1], st), st)
    if not isiter(a) or not isinstance(d, T):
        return None
    lv = it.lvalue(n['args'][0], st)
    it.wr(st, lv, it.iter_op('+', a, it.num_(d)), n)
    return num(0)


def _setsize(st, o, s):
    st.heap[(o, '#size')] = s


@model('vector::push_back', 'vector::emplace_back', 'list::push_back', 'list::emplace_back', 'deque::push_back', 'deque::emplace_back')
def _(it, n, st):
    o = _obj(it, n, st)
    if o is None:
        return None
    vs = [it.val(it.ev(a, st), st) for a in n['args']]
    s = _size(it, st, o)
    if len(vs) == 1:
        v = vs[0]
    else:
        v = mk('app', ('emplaced',) + tuple(it._t(x, st) for x in vs), 'o')
    l = list(st.heap.get((o, '[]'), []))
    l.append((TRUE, st.loops, s, v))
    st.heap[(o, '[]')] = l
    _setsize(st, o, add(s, num(1)))
    it.effect('push', st, n, obj=o, val=v, vals=vs)
    return num(0)


def _append(it, n, st, o, v):
    s = _size(it, st, o)
    l = list(st.heap.get((o, '[]'), []))
    l.append((TRUE, st.loops, s, v))
    st.heap[(o, '[]')] = l
    _setsize(st, o, add(s, num(1)))
    it.effect('push', st, n, obj=o, val=v, vals=[v])


@model('std::back_inserter')
def _(it, n, st):
    o = it.val(it.ev(n['args'][0], st), st)
    return mk('app', ('backins', o), 'o') if isinstance(o, T) else None


@model('back_insert_iterator::operator*', 'back_insert_iterator::operator++')
def _(it, n, st):
    o = _obj(it, n, st)
    return o if isinstance(o, T) and o.op == 'app' and o.a[0] == 'backins' else None


@model('back_insert_iterator::operator=')
def _(it, n, st):
    o = _obj(it, n, st)
    if not (isinstance(o, T) and o.op == 'app' and o.a[0] == 'backins'):
        return None
    v = it.val(it.ev(n['args'][-1], st), st)
    if isinstance(v, T) and v.op == 'app' and v.a[0] == 'backins':
        return None
    _append(it, n, st, o.a[1], v)
    return o


@model('vector::clear', 'list::clear', 'map::clear', 'set::clear', 'unordered_map::clear', 'unordered_set::clear', 'deque::clear')
def _(it, n, st):
    o = _obj(it, n, st)
    if o is None:
        return None
    if 'map' in n['q'] or 'set' in n['q']:
        st.heap[(o, '#map')] = maps().EMPTY
    st.heap[(o, '[]')] = []
    _setsize(st, o, num(0))
    it.effect('clear', st, n, obj=o)
    return num(0)


@model('vector::resize', 'vector::assign')
def _(it, n, st):
    o = _obj(it, n, st)
    if o is None:
        return None
    a = [it.val(it.ev(x, st), st) for x in n['args']]
    if n['n'] == 'assign' and (len(a) != 2 or not isinstance(a[0], T) or not is_num(a[0])):
        return None
    _setsize(st, o, it.num_(a[0]))
    if n['n'] == 'assign':
        st.heap[(o, '[]')] = []
        st.heap[(o, '#fill')] = a[1]
    it.effect('resize', st, n, obj=o, size=a[0])
    return num(0)


@model('vector::reserve')
def _(it, n, st):
    return num(0)


@ctor('std::vector')
def _(it, n, st):
    if n.get('ck') in ('copy', 'move'):
        return it.copy_obj(it.val(it.ev(n['args'][0], st), st), st)
    a = [it.ev(x, st) for x in n['args']]
    from .interp import Ref, sort_of
    o = it.fresh('vec', 'o')
    # allocator default argument is dropped
    ar = [x for x, y in zip(a, n['args']) if not (y.get('q', '').endswith('allocator') or 'allocator' in y.get('t', '')[:16])]
    if not ar:
        st.heap[(o, '#size')] = num(0)
        st.heap[(o, '[]')] = []
        return o
    ar = [it.rd(st, x.lv, '') if isinstance(x, Ref) and isiter(it.rd(st, x.lv, '')) else x for x in ar]
    if len(ar) == 2 and isiter(ar[0]) and isiter(ar[1]) and ar[0].a[1] is ar[1].a[1]:
        if const(ar[0].a[2]) == 0 and ar[1].a[2] is _size(it, st, ar[0].a[1]):
            return it.copy_obj(ar[0].a[1], st)
        st.heap[(o, '#size')] = sub(ar[1].a[2], ar[0].a[2])
        return o
    v0 = it.val(ar[0], st)
    if isinstance(v0, T) and v0.sort == 'i' and not n.get('list'):
        st.heap[(o, '#size')] = v0
        fill = it.val(ar[1], st) if len(ar) > 1 else None
        if fill is None:
            import re
            m = re.match(r'^(?:const )?std::vector<([^<>,]*)', n.get('t', ''))
            if m and sort_of(m.group(1)) in 'irb':
                fill = num(0)
        if fill is not None:
            st.heap[(o, '#fill')] = fill
        st.heap[(o, '[]')] = []
        return o
    if isinstance(v0, T) and (v0, '[]') in st.heap:
        return v0
    return mk('app', ('new:std::vector',) + tuple(it._t(it.val(x, st), st) for x in ar), 'o')


@model('std::fill')
def _(it, n, st):
    from .interp import Ref
    a, b = _iterval(it, n['args'][0], st), _iterval(it, n['args'][1], st)
    v = it.val(it.ev(n['args'][2], st), st)
    if isiter(a) and isiter(b) and const(a.a[2]) == 0 and a.a[1] is b.a[1] and b.a[2] is _size(it, st, a.a[1]):
        st.heap[(a.a[1], '[]')] = []
        st.heap[(a.a[1], '#fill')] = v
        it.effect('fill', st, n, obj=a.a[1], lo=a.a[2], hi=b.a[2], val=v)
        return num(0)
    return None


@model('std::numeric_limits::max', 'std::numeric_limits::min', 'std::numeric_limits::lowest', 'std::numeric_limits::quiet_NaN', 'std::numeric_limits::infinity', 'std::numeric_limits::epsilon')
def _(it, n, st):
    from .interp import sort_of
    return mk('app', ('limit', n['n'], n.get('t', '')), sort_of(n.get('t', 'double')))


@ctor('__gnu_cxx::__normal_iterator', 'std::_List_const_iterator', 'std::_Rb_tree_const_iterator', 'std::__detail::_Node_const_iterator')
def _(it, n, st):
    if len(n['args']) == 1:
        v = _ival(it, n['args'][0], st)
        if isinstance(v, T) and (isiter(v) or v.op == 'app' and v.a[0] == 'mit'):
            return v
    return None


@ctor('std::*')
def _(it, n, st):
    """smart pointers, iterators, functions: transparent single-argument construction"""
    q = n['q']
    if q in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr', 'std::function', 'std::optional', 'std::reference_wrapper', 'std::__shared_ptr') or n.get('ck') in ('copy', 'move'):
        if not n['args']:
            from .interp import NULL
            return NULL if q != 'std::optional' else it.fresh('none', 'o')
        v = it.ev(n['args'][0], st)
        from .interp import Ref, is_ptr
        return it.val(v, st) if isinstance(v, Ref) and v.lv[0] != 'elem' else v
    return None


@model('shared_ptr::operator=', 'unique_ptr::operator=', 'function::operator=', 'vector::operator=', 'array::operator=', 'optional::operator=', 'basic_string::operator=', 'map::operator=')
def _(it, n, st):
    v = it.val(it.ev(n['args'][0], st), st)
    if isinstance(v, T) and norm_q(n['q'], n['n']).split('::')[-2] in ('vector', 'array', 'map'):
        v = it.copy_obj(v, st)
    lv = it.lvalue(n['obj'], st)
    if lv[0] == 'tmp':
        return v
    it.wr(st, lv, v, n)
    return v


@model('shared_ptr::reset', 'unique_ptr::reset', '__shared_ptr::reset')
def _(it, n, st):
    from .interp import NULL
    v = it.val(it.ev(n['args'][0], st), st) if n['args'] else NULL
    lv = it.lvalue(n['obj'], st)
    if lv[0] != 'tmp':
        it.wr(st, lv, v, n)
    return num(0)


@model('function::operator()')
def _(it, n, st):
    f = it.val(it.ev(n['obj'], st), st)
    m = dict(n)
    return it.call_value(f, m, st)


def maps():
    from . import maps as m
    return m


@model('std::operator==', 'std::operator!=', 'std::__detail::operator==', 'std::__detail::operator!=')
def _(it, n, st):
    if len(n['args']) != 2:
        return None
    from .interp import NULL
    a, b = (it.val(it.ev(x, st), st) for x in n['args'])
    if isinstance(a, T) and isinstance(b, T):
        r = maps().iter_eq(it, st, a, b)
        if r is not None:
            return r if n['op'] == '==' else bnot(r)
        r = it.arith(n['op'], a, b, 'bool')
        return r
    return None


@model('std::complex::real', 'complex::real')
def _(it, n, st):
    return None


@model('std::copy')
def _(it, n, st):
    if n['n'] != 'copy':
        return None
    a, b, c = (_ival(it, x, st) for x in n['args'])
    if isinstance(a, T) and isinstance(b, T) and isinstance(c, T):
        if isiter(a) and isiter(b):
            cnt = it.iter_op('-', b, a)
        elif is_num(a) and is_num(b):
            cnt = sub(b, a)
        else:
            return None
        it.effect('copy', st, n, src=a, dst=c, count=cnt)
        return it.iter_op('+', c, cnt) if isiter(c) else add(c, cnt) if is_num(c) else num(0)
    return None


from . import maps as _maps  # noqa: E402,F401  (registers the associative-container models)
from . import algos as _algos  # noqa: E402,F401


# function objects of <functional>
def _functor(name, g, k):
    def h(it, n, st):
        if len(n['args']) != k:
            return None
        a = [it.val(it.ev(x, st), st) for x in n['args']]
        if not all(isinstance(x, T) and x.sort != 'o' for x in a):
            return None
        return g(it, *[it.num_(x) for x in a])
    for q in (name + '::operator()', 'std::' + name + '::operator()'):
        _M[q] = h


for _n, _g in (('bit_and', lambda it, a, b: app('band', (a, b), 'i')), ('bit_or', lambda it, a, b: app('bor', (a, b), 'i')), ('bit_xor', lambda it, a, b: app('bxor', (a, b), 'i')),
               ('plus', lambda it, a, b: add(a, b)), ('minus', lambda it, a, b: sub(a, b)), ('multiplies', lambda it, a, b: mul(a, b)), ('less', lambda it, a, b: lt(a, b)), ('greater', lambda it, a, b: gt(a, b)),
               ('less_equal', lambda it, a, b: le(a, b)), ('greater_equal', lambda it, a, b: ge(a, b)), ('equal_to', lambda it, a, b: eq(a, b)), ('not_equal_to', lambda it, a, b: bnot(eq(a, b)))):
    _functor(_n, _g, 2)
_functor('negate', lambda it, a: neg(a), 1)
