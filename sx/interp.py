"""Abstract evaluation of resolved function bodies into the term domain (gated value numbering).

Every statement is visited once per calling context (loops twice: to find what they modify, then with the modified
values generalised and their induction facts added).  Branches are joined with conditional values, loops are
summarised by quantified effects, calls are inlined when their body is part of the analysed tree and they are not
dynamically dispatched, and everything else stays an uninterpreted application.
"""
from .terms import *
from . import terms as TT

UNSIGNED = set()
_old_axioms = TT.axioms


def _axioms(ts):
    ax = _old_axioms(ts)
    seen = set()
    for t in ts:
        subterms(t, seen)
    for x in seen:
        if x in UNSIGNED:
            ax.append(ge(x, num(0)))
    return ax


TT.axioms = _axioms


def ctype(t):
    """strip const/ref"""
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for p in ('const ', 'volatile '):
            if t.startswith(p):
                t = t[len(p):]
                ch = True
        for p in (' const', '&&', '&'):
            if t.endswith(p):
                t = t[:-len(p)].strip()
                ch = True
    return t


INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'signed char', 'unsigned char', 'long long', 'unsigned long long', '__int128'}
FLTS = {'float', 'double', 'long double'}
from .facts import ENUM_NAMES as ENUMS
from .facts import walk


def sort_of(t):
    t = ctype(t)
    if t == 'bool':
        return 'b'
    if t in INTS or t in ENUMS:
        return 'i'
    if t in FLTS:
        return 'r'
    if t.endswith('*'):
        b = ctype(t[:-1])
        return 'i' if b in INTS or b in FLTS or b == 'bool' else 'o'
    return 'o'


def is_unsigned(t):
    t = ctype(t)
    return t.startswith('unsigned') and t in INTS


def is_ptr(t):
    t = ctype(t)
    return t.endswith('*')


SMART = ('std::shared_ptr<', 'std::unique_ptr<', 'std::weak_ptr<', 'std::__shared_ptr')


def is_smart(t):
    return ctype(t).startswith(SMART)


ITER_T = ('__gnu_cxx::__normal_iterator<', 'std::_List_iterator<', 'std::_List_const_iterator<', 'std::_Deque_iterator<', 'std::_Rb_tree_iterator<', 'std::_Rb_tree_const_iterator<', 'std::__detail::_Node_iterator<', 'std::__detail::_Node_const_iterator<')


class Ref:
    """reference / pointer to an lvalue"""
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv

    def __repr__(self):
        return 'Ref%r' % (self.lv,)

    def __eq__(self, o):
        return isinstance(o, Ref) and o.lv == self.lv

    def __hash__(self):
        return hash(self.lv)


class Lam:
    def __init__(self, node, frame, caps, this):
        self.node, self.frame, self.caps, self.this = node, frame, caps, this
        self.no = None


class Tup:
    def __init__(self, vals):
        self.vals = list(vals)


class State:
    __slots__ = ('env', 'heap', 'pc', 'writes', 'loops')

    def __init__(self):
        self.env, self.heap, self.pc, self.loops = {}, {}, [], ()

    def copy(self):
        s = State()
        s.env, s.heap, s.pc, s.loops = dict(self.env), dict(self.heap), list(self.pc), self.loops
        return s


class Effect:
    """kind: call | store | throw | ret ; pc: conditions on the way ; loops: enclosing loop contexts"""
    __slots__ = ('kind', 'pc', 'loops', 'd', 'node', 'fn', 'seq')

    def __init__(self, kind, pc, loops, d, node, fn, seq):
        self.kind, self.pc, self.loops, self.d, self.node, self.fn, self.seq = kind, list(pc), loops, d, node, fn, seq

    def __repr__(self):
        return 'Effect(%s %s)' % (self.kind, {k: v for k, v in self.d.items()})

    @property
    def line(self):
        return (self.node or {}).get('l')


class Loop:
    """one enclosing loop: id, node, list of (symbol, init, step or None), facts holding in the body"""
    def __init__(self, lid, node):
        self.lid, self.node, self.vars, self.facts = lid, node, [], []
        self.ranges = {}


class Depth(Exception):
    pass


def leaves_early(n):
    """the statement may leave an enclosing loop other than through its condition"""
    if isinstance(n, list):
        return any(leaves_early(x) for x in n)
    if not isinstance(n, dict):
        return False
    if n.get('k') in ('break', 'ret', 'throw', 'goto', 'try'):
        return True
    if n.get('k') == 'lambda':
        return False
    return any(leaves_early(x) for x in n.values() if isinstance(x, (dict, list)))


_written = {}


def written(body, vid):
    """may the statement change the variable or a part of it?"""
    k = (id(body), vid)
    if k in _written and _written[k][0] is body:
        return _written[k][1]

    def root(n):
        while isinstance(n, dict):
            if n.get('k') == 'ref':
                return n.get('id') == vid
            n = n.get('b') if n.get('k') == 'mem' else n.get('e') if n.get('k') == 'cast' else n.get('b', n.get('x')) if n.get('k') in ('idx', 'sub') else None
        return False
    r = False
    for n in walk(body):
        if not isinstance(n, dict):
            continue
        c = n.get('k')
        if c == 'asg':
            r = root(n['x'])
        elif c == 'un' and n.get('op') in ('++', '--', '&', 'p++', 'p--', 'post++', 'post--'):
            r = root(n['e'])
        elif c in ('call', 'ctor'):
            r = (n.get('obj') is not None and not n.get('cst') and root(n['obj'])) or any(m in 'rp' and root(a) for a, m in zip(n.get('args', ()), n.get('pm', '')))
        if r:
            break
    _written[k] = (body, r)
    return r


class Interp:
    def __init__(self, facts, inline=True, maxdepth=6, opaque=(), handlers=None, devirt=None, field_facts=None):
        self.F = facts
        self.inline, self.maxdepth = inline, maxdepth
        self.opaque = set(opaque)
        self.handlers = dict(handlers or {})
        self.all_loops = []
        self.tables, self.arrtypes = {}, {}
        self.devirt = devirt
        self.counter = 0
        self.effects = []
        self.depth = 0
        self.fnstack = []
        self.frames = 0
        self.unknown = []
        self.total = set()
        self.field_facts = field_facts
        self.steps = 0
        self.inlined = {}
        self.exact = set()      # loop counters that take every value of their stated range
        self.rec = 0          # >0 while a pass whose effects are discarded is running
        self.reads = []
        self.snap = None      # predicate (kind, data): keep a copy of the state in the effect
        self.lower = {}       # unknown index of an element appended by a loop -> smallest index it can have
        self.lams = {}        # lambda value term -> Lam

    # ---------------------------------------------------------------- helpers
    def fresh(self, base, sort='i'):
        self.counter += 1
        return sym('%s#%d' % (base, self.counter), sort)

    def unk(self, node, why, sort='r'):
        self.unknown.append((node.get('l'), why))
        return self.fresh('unk', sort)

    def effect(self, kind, st, node, **d):
        e = Effect(kind, st.pc, st.loops, d, node, self.fnstack[-1] if self.fnstack else None, len(self.effects))
        if self.snap is not None and self.snap(kind, d):
            d['st'] = st.copy()
        self.effects.append(e)
        return e

    def initial(self, obj, name, t):
        s = sort_of(t)
        x = mk('app', ('fld', name, obj), s)
        if is_unsigned(t):
            UNSIGNED.add(x)
        return x

    # ---------------------------------------------------------------- heap
    def hread(self, st, obj, name, t):
        if isinstance(obj, Ref):
            obj = self.rd(st, obj.lv, '')
        if isinstance(obj, Lam) or isinstance(obj, Tup):
            return self.fresh('fld', sort_of(t))
        if obj.op == 'ite':
            a, b = self.hread(st, obj.a[1], name, t), self.hread(st, obj.a[2], name, t)
            return self.join_vals(obj.a[0], a, b)
        k = (obj, name)
        if k in st.heap:
            return st.heap[k]
        src = st.heap.get((obj, '#copy'))
        if src is not None:
            o2, snap = src
            s2 = State()
            s2.heap = snap
            s2.env = st.env
            return self.hread(s2, o2, name, t)
        return self.initial(obj, name, t)

    def hwrite(self, st, obj, name, val):
        if isinstance(obj, T) and obj.op == 'ite':
            for c, o in ((obj.a[0], obj.a[1]), (bnot(obj.a[0]), obj.a[2])):
                old = self.hread(st, o, name, '') if (o, name) in st.heap else mk('app', ('fld', name, o), val.sort if isinstance(val, T) else 'o')
                self.hwrite(st, o, name, self.join_vals(c, val, old))
            return
        st.heap[(obj, name)] = val

    def join_vals(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, T) and isinstance(b, T):
            if (a.sort == 'o') != (b.sort == 'o'):
                return self.fresh('join', 'o')
            return ite(c, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
            return a
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.vals) == len(b.vals):
            return Tup([self.join_vals(c, x, y) for x, y in zip(a.vals, b.vals)])
        if isinstance(a, list) and isinstance(b, list):
            return self.join_lists(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and a == b:
            return a
        return self.fresh('join', 'o')

    def join_lists(self, c, a, b):
        n = 0
        while n < len(a) and n < len(b) and a[n] is b[n]:
            n += 1
        return a[:n] + [(band(c, g), l, i, v) for g, l, i, v in a[n:]] + [(band(bnot(c), g), l, i, v) for g, l, i, v in b[n:]]

    # ---------------------------------------------------------------- lvalues
    def rd(self, st, lv, t):
        k = lv[0]
        if k == 'var':
            if lv[1] in st.env:
                v = st.env[lv[1]]
                if isinstance(v, Ref):
                    return self.rd(st, v.lv, t)
                return v
            s = sort_of(t)
            x = sym('v%s' % (lv[1],), s)
            st.env[lv[1]] = x
            return x
        if k == 'fld':
            v = self.hread(st, lv[1], lv[2], t)
            if isinstance(v, Ref):
                return self.rd(st, v.lv, t)
            return v
        if k == 'elem':
            return self.elem_read(st, lv[1], lv[2], t)
        if k == 'mem':
            return self.mem_read(st, lv[1], t)
        if k == 'tmp':
            return lv[1]
        if k == 'mel':
            from . import maps
            return maps.get(maps.cur(st, lv[1]), lv[2], sort_of(t))
        raise KeyError(k)

    def wr(self, st, lv, val, node=None):
        k = lv[0]
        if k == 'var':
            old = st.env.get(lv[1])
            if isinstance(old, Ref):
                self.wr(st, old.lv, val, node)
                return
            st.env[lv[1]] = val
        elif k == 'fld':
            old = st.heap.get((lv[1], lv[2]))
            if isinstance(old, Ref):
                self.wr(st, old.lv, val, node)
                return
            self.hwrite(st, lv[1], lv[2], val)
            self.effect('store', st, node, lv=lv, val=val)
        elif k == 'elem':
            key = (lv[1], '[]')
            l = list(st.heap.get(key, []))
            l.append((TRUE, st.loops, lv[2], val))
            st.heap[key] = l
            self.effect('store', st, node, lv=lv, val=val)
        elif k == 'mel':
            from . import maps
            maps.put(self, st, lv[1], lv[2], self._t(val, st), node, 'assign')
        elif k == 'mem':
            self.effect('store', st, node, lv=lv, val=val)
            key = ('mem', '[]')
            l = list(st.heap.get(key, []))
            l.append((TRUE, st.loops, lv[1], val))
            st.heap[key] = l

    def _from_writes(self, st, l, idx, base, s):
        """value at idx given the ordered list of writes; None if the list contains summarised loops that may matter"""
        v = base
        for g, loops, i, val in l:
            if tuple(st.loops[:len(loops)]) != tuple(loops):
                if i in self.lower and const(idx) is not None and const(idx) < self.lower[i]:
                    continue
                return None
            if not isinstance(val, T) or not isinstance(i, T):
                return None if i is not idx else val
            if isinstance(v, T):
                v = ite(band(g, eq(i, idx)), val, v)
        return v

    def elem_read(self, st, obj, idx, t):
        s = sort_of(t)
        if isinstance(obj, Tup) and isinstance(idx, T) and const(idx) is not None:
            i = int(const(idx))
            if 0 <= i < len(obj.vals):
                return obj.vals[i]
        if not isinstance(obj, T):
            return self.fresh('elem', s)
        if obj.op == 'app' and obj.a[0] == 'glob' and isinstance(idx, T) and const(idx) is not None:
            e = self.tables.get(obj.a[1])
            if e is None:
                v = self.F.vars.get(obj.a[1])
                if v is not None and 'const' in v['v'].get('t', '') and (v['v'].get('init') or {}).get('k') == 'init':
                    e = v['v']['init']['e']
            i = int(const(idx))
            if e is not None and 0 <= i < len(e) and e[i]['k'] in ('int', 'float', 'bool', 'cast', 'un'):
                return self.ev(e[i], st)
        h = self.handlers.get('#elem')
        if h:
            r = h(self, st, obj, idx, t)
            if r is not None:
                return r
        l = st.heap.get((obj, '[]'))
        fill = st.heap.get((obj, '#fill'))
        if l is None and fill is None:
            src = st.heap.get((obj, '#copy'))
            if src is not None:
                s2 = State()
                s2.heap, s2.loops = src[1], st.loops
                return self.elem_read(s2, src[0], idx, t)
        base = fill if fill is not None else mk('app', ('elem', obj, idx), s)
        if is_unsigned(t):
            UNSIGNED.add(base)
        if l:
            v = self._from_writes(st, l, idx, base, s)
            if v is None:
                return mk('app', ('elem@%d' % len(l), obj, idx), s)
            return v
        return base

    def mem_read(self, st, addr, t):
        s = sort_of(t)
        l = st.heap.get(('mem', '[]'))
        base = mk('app', ('deref', addr), s)
        if l:
            v = self._from_writes(st, l, addr, base, s)
            if v is None:
                return mk('app', ('deref@%d' % len(l), addr), s)
            return v
        return base

    def addr_split(self, addr):
        """address polynomial -> (container, index) when it is data(container)+index"""
        ms = monos(addr)
        for m, c in ms.items():
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].a[0] == 'data':
                rest = dict(ms)
                del rest[m]
                return m[0][0].a[1], poly(rest)
        return None

    def lvalue(self, n, st):
        k = n['k']
        if k == 'ref':
            dk = n.get('dk')
            key = self.varkey(n)
            v = st.env.get(key)
            if isinstance(v, Ref) and not is_ptr(n.get('t', '')):
                return v.lv
            return ('var', key)
        if k == 'mem':
            if n.get('dk') == 'global':
                return ('var', ('g', n['q']))
            o = self.objval(n['b'], st)
            return ('fld', o, n['n'])
        if k == 'sub':
            b = self.ev(n['b'], st)
            i = self.num_(self.ev(n['i'], st))
            if isinstance(b, Ref):
                if b.lv[0] == 'elem':
                    return ('elem', b.lv[1], add(b.lv[2], i))
                b = self.rd(st, b.lv, '')
            if isinstance(b, T) and b.sort == 'i':
                sp = self.addr_split(add(b, i))
                if sp:
                    return ('elem', sp[0], sp[1])
                return ('mem', add(b, i))
            return ('elem', b, i)
        if k == 'un' and n['op'] == '*':
            b = self.decay(self.ev(n['e'], st), None, st)
            if isinstance(b, Ref):
                return b.lv
            if isinstance(b, T) and b.sort == 'i':
                sp = self.addr_split(b)
                if sp:
                    return ('elem', sp[0], sp[1])
                return ('mem', b)
            return ('tmp', b)
        if k == 'un' and n['op'] in ('++', '--') and not n.get('post'):
            self.ev(n, st)
            return self.lvalue(n['e'], st)
        if k == 'asg':
            self.ev(n, st)
            return self.lvalue(n['x'], st)
        if k == 'cond':
            return ('tmp', self.ev(n, st))
        if k == 'call':
            r = self.call(n, st, want_lv=True)
            if isinstance(r, Ref):
                return r.lv
            return ('tmp', r)
        if k == 'cast':
            return self.lvalue(n['e'], st)
        if k == 'bin' and n['op'] == ',':
            self.ev(n['x'], st)
            return self.lvalue(n['y'], st)
        return ('tmp', self.ev(n, st))

    def varkey(self, n):
        if n.get('dk') in ('global', 'slocal'):
            return ('g', n['q'])
        i = n['id']
        fr = self.frame
        while fr is not None:
            if (fr['no'], i) in fr['own']:
                return (fr['no'], i)
            fr = fr.get('parent')
        return (self.frame['no'], i)

    def declare(self, i):
        k = (self.frame['no'], i)
        self.frame['own'].add(k)
        return k

    def objval(self, n, st):
        """object identity denoted by an expression (pointer or lvalue)"""
        v = self.ev(n, st)
        return self.deref_obj(v, st)

    def deref_obj(self, v, st):
        while isinstance(v, Ref):
            v = self.rd(st, v.lv, '')
        return v

    def num_(self, v):
        if isinstance(v, T):
            if v.sort == 'b':
                return to_num(v)
            if is_num(v):
                return v
            return mk('app', ('asnum', v), 'r')
        return self.fresh('n', 'r')

    def bool_(self, v):
        if isinstance(v, T):
            if v.sort == 'o':
                return mk('app', ('nonnull', v), 'b') if v is not NULL else FALSE
            return to_bool(v)
        if isinstance(v, Ref):
            return TRUE
        return self.fresh('b', 'b')

    # ---------------------------------------------------------------- expressions
    def ev(self, n, st):
        self.steps += 1
        if self.steps > 400000:
            raise Depth('too many steps')
        if n is None:
            return num(0)
        m = getattr(self, 'e_' + n['k'], None)
        if m is None:
            return self.unk(n, n['k'], sort_of(n.get('t', '')) if n.get('t') else 'o')
        return m(n, st)

    def e_pystmt(self, n, st): return n['fn'](st)
    def e_pyexpr(self, n, st): return n['fn'](st)
    def e_int(self, n, st): return num(n['v'])
    def e_float(self, n, st): return num(Fraction(repr(float(n['v']))))          # the shortest literal with this value
    def e_bool(self, n, st): return boolc(n['v'])
    def e_str(self, n, st): return mk('app', ('str', n['v']), 'o')
    def e_null(self, n, st): return NULL
    def e_this(self, n, st): return self.frame['this']
    def e_zero(self, n, st):
        s = sort_of(n['t'])
        return num(0) if s in 'ir' else FALSE if s == 'b' else (NULL if is_ptr(n['t']) else self.fresh('zero', 'o'))

    def e_ref(self, n, st):
        dk = n.get('dk')
        if dk == 'enumc':
            return num(n['v'])
        if 'cv' in n and dk != 'parm':
            if self.varkey(n) not in st.env:
                return num(n['cv'])
        if dk == 'func':
            return mk('app', ('func', n['key']), 'o')
        key = self.varkey(n)
        if key not in st.env and dk == 'global' and n['q'] in self.F.vars and 'const' in self.F.vars[n['q']]['v'].get('t', ''):
            init = self.F.vars[n['q']]['v'].get('init')
            if init is not None and init['k'] in ('float', 'int', 'bin', 'un', 'cast') and sort_of(n['t']) != 'o':
                return self.ev(init, st)
        if key not in st.env and dk in ('global', 'slocal'):
            x = mk('app', ('glob', n['q']), sort_of(n['t']))
            return x
        v = st.env.get(key)
        if isinstance(v, Ref) and is_ptr(n['t']) and not n['t'].endswith('&'):
            return v
        return self.rd(st, ('var', key), n['t'])

    def e_mem(self, n, st):
        if n.get('dk') == 'method':
            return mk('app', ('method', n['key']), 'o')
        lv = self.lvalue(n, st)
        if lv[0] == 'fld':
            h = self.handlers.get('#field')
            if h:
                r = h(self, st, lv[1], n)
                if r is not None:
                    return r
        return self.rd(st, lv, n['t'])

    def e_sub(self, n, st):
        lv = self.lvalue(n, st)
        self.effect('read', st, n, lv=lv)
        return self.rd(st, lv, n['t'])

    def e_init(self, n, st):
        t = ctype(n['t'])
        es = [self.ev(x, st) for x in n['e']]
        if sort_of(t) != 'o':
            return es[0] if es else (num(0) if sort_of(t) != 'b' else FALSE)
        if t.startswith('std::initializer_list') or t.endswith(']'):
            return self.mkarray(st, es, n)
        rs = self.F.rec_q.get(strip_targs(t)) or []
        rs = [r for r in rs if r['t'] == t] or rs
        if rs:
            o = self.fresh('agg', 'o')
            r = rs[0]
            for f, v, e in zip(r['fields'], es, n['e']):
                st.heap[(o, f['n'])] = v
            for f in r['fields'][len(es):]:
                if 'init' in f:
                    st.heap[(o, f['n'])] = self.ev(f['init'], st)
                elif f['tk'] in ('int', 'float', 'enum'):
                    st.heap[(o, f['n'])] = num(0)
                elif f['tk'] == 'bool':
                    st.heap[(o, f['n'])] = FALSE
            return o
        if t.startswith('std::array') and len(es) == 1:
            return es[0]
        return self.mkarray(st, es, n)

    def mkarray(self, st, es, n):
        o = self.fresh('arr', 'o')
        st.heap[(o, '[]')] = [(TRUE, (), num(i), v) for i, v in enumerate(es)]
        st.heap[(o, '#size')] = num(len(es))
        if ctype(n.get('t', '')).endswith(']'):
            st.heap[(o, '#arr')] = self.arrtypes[o] = ctype(n['t'])
        if n.get('fill') or (ctype(n.get('t', '')).endswith(']') and not es):
            st.heap[(o, '#fill')] = num(0)
        return o

    def e_arrcopy(self, n, st):
        v = self.ev(n['e'], st)
        return self.copy_obj(v, st)

    def e_sizeof(self, n, st):
        return num(n['v']) if 'v' in n else self.fresh('sizeof', 'i')

    def e_un(self, n, st):
        op = n['op']
        if op in ('++', '--'):
            lv = self.lvalue(n['e'], st)
            old = self.rd(st, lv, n['e'].get('t', 'int'))
            if isinstance(old, Ref) and old.lv[0] == 'elem':
                new = Ref(('elem', old.lv[1], add(old.lv[2], num(1 if op == '++' else -1))))
            else:
                new = add(self.num_(old), num(1 if op == '++' else -1)) if isinstance(old, T) else old
            self.wr(st, lv, new, n)
            return old if n.get('post') else new
        if op == '*':
            lv = self.lvalue(n, st)
            self.effect('read', st, n, lv=lv)
            return self.rd(st, lv, n['t'])
        if op == '&':
            e = n['e']
            lv = self.lvalue(e, st)
            if lv[0] == 'elem':
                if isinstance(lv[1], T) and sort_of(e.get('t', '')) in 'irb':
                    return add(mk('app', ('data', lv[1]), 'i'), lv[2])
                return Ref(lv)
            if lv[0] == 'mem':
                return lv[1]
            v = self.rd(st, lv, e.get('t', ''))
            if isinstance(v, T) and v.sort == 'o' and not is_ptr(e.get('t', '')):
                return v          # pointer to object = its identity
            return Ref(lv)
        v = self.ev(n['e'], st)
        if op == '-': return neg(self.num_(v))
        if op == '+': return v
        if op == '!': return bnot(self.bool_(v))
        if op == '~': return mk('app', ('bitnot', self.num_(v)), 'i')
        return self.unk(n, 'unary ' + op)

    def arith(self, op, a, b, t):
        """a,b T; t result type"""
        s = sort_of(t)
        if op in ('+', '-', '*', '/', '%'):
            a, b = self.num_(a), self.num_(b)
        if op == '+': return add(a, b)
        if op == '-': return sub(a, b)
        if op == '*': return mul(a, b)
        if op == '/': return app('idiv', (a, b), 'i') if s == 'i' else div(a, b)
        if op == '%': return app('imod', (a, b), 'i')
        if op in ('&', '|', '^', '<<', '>>'):
            if isinstance(a, T) and a.sort == 'b' and isinstance(b, T) and b.sort == 'b' and op in '&|':
                return band(a, b) if op == '&' else bor(a, b)
            a, b = self.num_(a), self.num_(b)
            ca, cb = const(a), const(b)
            if ca is not None and cb is not None and ca.denominator == 1 and cb.denominator == 1:
                ca, cb = int(ca), int(cb)
                return num({'&': ca & cb, '|': ca | cb, '^': ca ^ cb, '<<': ca << max(cb, 0), '>>': ca >> max(cb, 0)}[op])
            if op == '|':
                if ca == 0: return b
                if cb == 0: return a
                parts = set()
                for x in (a, b):
                    if x.op == 'app' and x.a[0] == 'bor': parts.update(x.a[1:])
                    else: parts.add(x)
                if len(parts) == 1: return parts.pop()
                return mk('app', ('bor',) + tuple(sorted(parts, key=lambda z: z.sk)), 'i')
            if op == '&':
                if ca == 0 or cb == 0: return num(0)
                a, b = sorted((a, b), key=lambda z: z.sk)
                return mk('app', ('band', a, b), 'i')
            if op == '<<' and cb is not None:
                return scale(a, 2 ** int(cb))
            return mk('app', ({'^': 'bxor', '<<': 'shl', '>>': 'shr'}[op], a, b), 'i')
        if op in ('<', '<=', '>', '>='):
            a, b = self.num_(a), self.num_(b)
            return {'<': lt, '<=': le, '>': gt, '>=': ge}[op](a, b)
        if op in ('==', '!='):
            if isinstance(a, T) and isinstance(b, T):
                if a.sort == 'b' and is_num(b): a = to_num(a)
                if b.sort == 'b' and is_num(a): b = to_num(b)
                r = eq(a, b) if (is_num(a) == is_num(b)) else self.fresh('cmp', 'b')
                if NULL in (a, b) and a.sort == 'o' and b.sort == 'o':
                    o = b if a is NULL else a
                    r = TRUE if o is NULL else bnot(mk('app', ('nonnull', o), 'b'))
            elif isinstance(a, Ref) and isinstance(b, Ref) and a.lv[0] == b.lv[0] == 'elem' and a.lv[1] is b.lv[1]:
                r = eq(a.lv[2], b.lv[2])          # addresses of elements of one container
            elif any(isinstance(x, Ref) and x.lv[0] == 'elem' and isinstance(y, T) and y.op == 'app' and y.a[0] == 'elem' and y.a[1] is x.lv[1] for x, y in ((a, b), (b, a))):
                x, y = (a, b) if isinstance(a, Ref) else (b, a)
                r = eq(x.lv[2], y.a[2])
            elif isinstance(a, Ref) and isinstance(b, Ref):
                r = boolc(a == b) if a.lv[0] == 'var' or a == b else self.fresh('cmp', 'b')
            else:
                r = self.fresh('cmp', 'b')
            return r if op == '==' else bnot(r)
        return None

    def e_bin(self, n, st):
        op = n['op']
        if op == ',':
            self.ev(n['x'], st)
            return self.ev(n['y'], st)
        if op in ('&&', '||'):
            a = self.bool_(self.ev(n['x'], st))
            # right side evaluated under the condition that it is reached
            st2 = st.copy()
            st2.pc.append(a if op == '&&' else bnot(a))
            b = self.bool_(self.ev(n['y'], st2))
            self._absorb(st, st2, a if op == '&&' else bnot(a))
            return band(a, b) if op == '&&' else bor(a, b)
        a = self.ev(n['x'], st)
        b = self.ev(n['y'], st)
        if op in '+-':
            a, b = self.decay(a, None, st), self.decay(b, None, st)
        if isiter(a) or isiter(b):
            r = self.iter_op(op, a, b)
            if r is not None:
                return r
        if isinstance(a, Ref) and a.lv[0] == 'elem' and op in '+-' and isinstance(b, T):
            return Ref(('elem', a.lv[1], add(a.lv[2], b if op == '+' else neg(b))))
        if op in ('==', '!=', '<', '>', '<=', '>=') and isinstance(a, Ref) and isinstance(b, Ref) and a.lv[0] == b.lv[0] == 'elem' and a.lv[1] is b.lv[1]:
            return self.arith(op, a.lv[2], b.lv[2], 'bool')
        if isinstance(a, Ref) and op not in ('==', '!='): a = self.rd(st, a.lv, n['x'].get('t', ''))
        if isinstance(b, Ref) and op not in ('==', '!='): b = self.rd(st, b.lv, n['y'].get('t', ''))
        r = self.arith(op, a, b, n['t'])
        if r is None:
            return self.unk(n, 'op ' + op, sort_of(n['t']))
        return r

    def iter_op(self, op, a, b):
        if isiter(a) and isiter(b):
            if a.a[1] is not b.a[1]:
                return None
            return sub(a.a[2], b.a[2]) if op == '-' else self.arith(op, a.a[2], b.a[2], 'bool') if op in ('==', '!=', '<', '>', '<=', '>=') else None
        if isiter(a) and op in ('+', '-') and isinstance(b, T) and is_num(b):
            return mkiter(a.a[1], add(a.a[2], b if op == '+' else neg(b)))
        if isiter(b) and op == '+' and isinstance(a, T) and is_num(a):
            return mkiter(b.a[1], add(b.a[2], a))
        return None

    def _absorb(self, st, st2, cond):
        """merge side effects of a conditionally evaluated subexpression"""
        for k, v in st2.env.items():
            if k in st.env and st.env[k] is not v:
                st.env[k] = self.join_vals(cond, v, st.env[k])
            elif k not in st.env:
                st.env[k] = v
        for k, v in st2.heap.items():
            if st.heap.get(k) is not v:
                if k in st.heap:
                    st.heap[k] = self.join_vals(cond, v, st.heap[k])
                elif isinstance(v, T) and isinstance(k[0], T) and not k[1].startswith('#'):
                    st.heap[k] = self.join_vals(cond, v, mk('app', ('fld', k[1], k[0]), v.sort))
                elif isinstance(v, list):
                    st.heap[k] = self.join_lists(cond, v, [])
                else:
                    st.heap[k] = v

    def e_asg(self, n, st):
        op = n['op']
        if op == '=':
            v = self.ev(n['y'], st)
            lv = self.lvalue(n['x'], st)
            if isinstance(v, Ref) and not is_ptr(n['x'].get('t', '')):
                v = self.rd(st, v.lv, n['y'].get('t', ''))
            v = self.coerce(self.decay(v, n['x'].get('t', ''), st), n['x'].get('t', ''))
            self.wr(st, lv, v, n)
            return v
        r = self.ev(n['y'], st)
        lv = self.lvalue(n['x'], st)
        old = self.rd(st, lv, n['x'].get('t', ''))
        if isinstance(r, Ref): r = self.rd(st, r.lv, '')
        if not isinstance(old, T) or not isinstance(r, T):
            new = self.unk(n, 'compound on non-term')
        else:
            new = self.arith(op[:-1], old, r, n.get('ct') or n['t'])
            new = self.coerce(new, n['x'].get('t', ''))
        self.wr(st, lv, new, n)
        return new

    def decay(self, v, t, st):
        """array-to-pointer conversion of a numeric array"""
        if isinstance(v, T) and v.sort == 'o' and (v, '#arr') in st.heap and (t is None or is_ptr(t)) and sort_of(ctype(st.heap[(v, '#arr')]).split('[')[0]) in 'irb':
            return mk('app', ('data', v), 'i')
        return v

    def coerce(self, v, t):
        if not isinstance(v, T):
            return v
        s = sort_of(t)
        if s == 'i' and v.sort == 'r' and not is_ptr(t):
            return app('trunc', (v,), 'i')
        if s == 'b' and v.sort != 'b':
            return self.bool_(v)
        if s in 'ir' and v.sort == 'b':
            return to_num(v)
        return v

    def e_cond(self, n, st):
        c = self.bool_(self.ev(n['c'], st))
        sa, sb = st.copy(), st.copy()
        sa.pc.append(c)
        sb.pc.append(bnot(c))
        a = self.ev(n['a'], sa)
        b = self.ev(n['b'], sb)
        if n['a']['k'] == 'throw':
            st.pc.append(bnot(c)); self._take(st, sb); return b
        if n['b']['k'] == 'throw':
            st.pc.append(c); self._take(st, sa); return a
        self._absorb(st, sa, c)
        self._absorb(st, sb, bnot(c))
        if isinstance(a, Ref): a = self.rd(st, a.lv, n['t'])
        if isinstance(b, Ref): b = self.rd(st, b.lv, n['t'])
        return self.join_vals(c, a, b)

    def _take(self, st, o):
        st.env, st.heap = o.env, o.heap

    def e_cast(self, n, st):
        v = self.ev(n['e'], st)
        ck = n['ck']
        if ck in ('FloatingToIntegral',):
            return app('trunc', (self.num_(v),), 'i')
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            return self.bool_(v)
        if ck in ('IntegralToFloating', 'FloatingCast'):
            v = self.num_(v)
            return v
        if ck == 'IntegralCast':
            return self.num_(v) if isinstance(v, T) else v
        if ck == 'ToVoid':
            return num(0)
        if ck == 'Dynamic':
            o = self.deref_obj(v, st)
            return mk('app', ('dyncast', ctype(n['t']), o), 'o') if isinstance(o, T) else self.fresh('dyn', 'o')
        if ck in ('ConstructorConversion', 'UserDefinedConversion', 'NoOp', 'LValueToRValue', 'DerivedToBase', 'BaseToDerived', 'UncheckedDerivedToBase', 'BitCast', 'ArrayToPointerDecay'):
            return v
        if ck == 'NullToPointer':
            return NULL
        return v

    def e_new(self, n, st):
        if n.get('arr'):
            sz = self.num_(self.ev(n['n'], st)) if n.get('n') else num(0)
            if sort_of(n['t']) in 'irb':
                b = self.fresh('newarr', 'o')
                st.heap[(b, '#size')] = sz
                if n.get('init'):
                    st.heap[(b, '#fill')] = num(0)
                return mk('app', ('data', b), 'i')
            o = self.fresh('newarr', 'o')
            st.heap[(o, '#size')] = sz
            return o
        if n.get('init'):
            return self.ev(n['init'], st)
        return self.fresh('new', 'o')

    def e_del(self, n, st):
        v = self.ev(n['e'], st)
        self.effect('delete', st, n, val=v)
        return num(0)

    def e_throw(self, n, st):
        if n.get('e'):
            self.ev(n['e'], st)
        self.effect('throw', st, n)
        st.pc.append(FALSE)
        return num(0)

    def e_lambda(self, n, st):
        caps = {}
        for c in n['caps']:
            if c.get('this') or 'id' not in c:
                continue
            if c.get('init') is not None:
                caps[c['id']] = ('val', self.ev(c['init'], st))
            elif c['ref']:
                caps[c['id']] = ('ref', self.varkey({'id': c['id'], 'dk': 'var'}))
            else:
                k = self.varkey({'id': c['id'], 'dk': 'var'})
                v = self.rd(st, ('var', k), c.get('t', ''))
                if isinstance(st.env.get(k), Ref) and is_ptr(c.get('t', '')): v = st.env[k]
                caps[c['id']] = ('val', v)
        return Lam(n, self.frame, caps, self.frame['this'])

    def e_typeid(self, n, st):
        return mk('app', ('typeid', n.get('of', '?')), 'o') if 'of' in n else mk('app', ('typeidof', self._t(self.ev(n['e'], st))), 'o')

    def e_parenlist(self, n, st):
        r = [self.ev(x, st) for x in n['e']]
        return r[-1] if r else num(0)

    def _t(self, v, st=None):
        """term for a value, for use as an application argument"""
        if isinstance(v, T):
            return v
        if isinstance(v, Ref):
            if v.lv[0] == 'elem' and isinstance(v.lv[1], T):
                return mk('app', ('addr', v.lv[1], v.lv[2]), 'o')
            if st is not None:
                try:
                    return self._t(self.rd(st, v.lv, ''), st)
                except KeyError:
                    pass
            return mk('app', ('ref', str(v.lv)), 'o')
        if isinstance(v, Tup):
            return mk('app', ('tup',) + tuple(self._t(x, st) for x in v.vals), 'o')
        if isinstance(v, Lam):
            if v.no is None:
                self.lamno = getattr(self, 'lamno', 0) + 1
                v.no = self.lamno
            t = mk('app', ('lam', v.node.get('key', ''), v.node.get('l', 0), v.no), 'o')
            self.lams[t] = v
            return t
        return mk('app', ('val', str(type(v))), 'o')

    # ---------------------------------------------------------------- calls
    def args(self, n, st, raw=None):
        """argument values; reference parameters get lvalues (Ref)"""
        pm = n.get('pm', '')
        out = []
        for i, a in enumerate(n['args']):
            m = pm[i] if i < len(pm) else 'v'
            out.append(self.arg(a, m, st))
        return out

    def arg(self, a, m, st):
        if m in ('r', 'c', 'm') and a['k'] in ('ref', 'mem', 'sub', 'un') and not (a['k'] == 'un' and a['op'] not in ('*',)) and a.get('dk') not in ('enumc', 'func', 'method') and 'cv' not in a:
            lv = self.lvalue(a, st)
            if lv[0] == 'tmp':
                return lv[1]
            if a['k'] in ('sub', 'un'):
                self.effect('read', st, a, lv=lv)
            if m == 'c':
                v = self.rd(st, lv, a.get('t', ''))
                return v
            v = self.rd(st, lv, a.get('t', ''))
            if isinstance(v, T) and v.sort == 'o' and not is_ptr(a.get('t', '')) and not is_smart(a.get('t', '')):
                return v
            return Ref(lv)
        v = self.ev(a, st)
        if isinstance(v, T) and m in 'v' and sort_of(a.get('t', '')) == 'o' and False:
            pass
        return v

    def val(self, v, st, t=''):
        while isinstance(v, Ref):
            v = self.rd(st, v.lv, t)
        return v

    def e_call(self, n, st):
        r = self.call(n, st)
        if isinstance(r, Ref) and not is_ptr(n.get('t', '')):
            r = self.rd(st, r.lv, n.get('t', ''))
        return r

    def call(self, n, st, want_lv=False):
        q = n.get('q')
        if q is None:
            f = self.ev(n['fn'], st) if n.get('fn') else None
            return self.call_value(f, n, st)
        for hq in (q, n.get('n'), '#call'):
            h = self.handlers.get(hq)
            if h is not None:
                r = h(self, n, st)
                if r is not None:
                    return r
        from . import stdmodel
        h = stdmodel.lookup(q, n)
        if h is not None:
            r = h(self, n, st)
            if r is not None:
                return r
        obj = self.objval(n['obj'], st) if n.get('obj') is not None else None
        if isinstance(obj, Lam) and n.get('n') == 'operator()':
            return self.call_lambda(obj, [self.arg(a, (n.get('pm', '') + 'v' * 9)[i], st) for i, a in enumerate(n['args'])], st, n)
        f = self.target(n, obj, st)
        if f is not None and self.inline and q not in self.opaque and n.get('n') not in self.opaque and self.depth < self.maxdepth:
            av = self.args(n, st)
            return self.invoke(f, obj, av, st, n)
        return self.opaque_call(n, obj, st)

    def target(self, n, obj, st):
        f = self.F.funcs.get(n.get('key'))
        if n.get('virt') and not n.get('qual'):
            if self.devirt:
                g = self.devirt(self, n, obj, st)
                if g is not None:
                    return g
            dyn = st.heap.get((obj, '#class')) if isinstance(obj, T) else None
            if dyn is not None:
                g = self.find_override(dyn, n)
                if g is not None:
                    return g
            return None
        return f

    def find_override(self, clskey, n):
        """method of class clskey (or nearest base) overriding n's callee"""
        r = self.F.records.get(clskey)
        seen = 0
        while r is not None and seen < 8:
            for m in r['methods']:
                if m['key'] == n['key']:
                    return self.F.funcs.get(m['key'])
                if m['n'] == n['n'] and not m.get('pure'):
                    g = self.F.funcs.get(m['key'])
                    if g is not None and self.overrides(g, n['key']):
                        return g
            r2 = None
            for b in r['bases']:
                if b.get('key') in self.F.records:
                    r2 = self.F.records[b['key']]
                    break
            r = r2
            seen += 1
        return None

    def overrides(self, f, key, d=0):
        if key in f.get('over', ()):
            return True
        if d > 5:
            return False
        for k in f.get('over', ()):
            g = self.F.funcs.get(k)
            if g is not None and self.overrides(g, key, d + 1):
                return True
            # pure virtual in between: look into records
            for r in self.F.records.values():
                for m in r['methods']:
                    if m['key'] == k and key in m.get('over', ()):
                        return True
        return False

    def opaque_call(self, n, obj, st):
        av = [self.val(a, st) if not isinstance(a, Ref) else a for a in self.args(n, st)]
        at = [self._t(self.val(a, st), st) for a in av]
        name = n.get('q') or '?'
        s = sort_of(n.get('t', ''))
        base = (obj,) if isinstance(obj, T) else ()
        pure = (n.get('cst') or (obj is None and n.get('k') == 'call')) and not any(m in 'rp' for m in n.get('pm', ''))
        ver = ()
        if not pure:
            cnt = sum(1 for e in self.effects if e.kind == 'call' and e.d.get('q') == name and not e.d.get('pure'))
            ver = ('@%d' % cnt,) if not n.get('cst') else ()
        r = mk('app', ('call:' + name,) + ver + base + tuple(at), s)
        if is_unsigned(n.get('t', '')):
            UNSIGNED.add(r)
        self.effect('call', st, n, q=name, n=n.get('n'), obj=obj, args=av, argt=at, ret=r, pure=bool(pure))
        if not pure and not n.get('cst') and isinstance(obj, T) and name.startswith('std::') and n.get('n') not in KEEPING:
            c = strip_targs(name).split('::')
            if len(c) > 1 and c[-2] in CONTAINERS:
                # an unmodelled change of a container: nothing is known about its content
                was = stdmodel_size(self, st, obj)
                for k in ('#size', '[]', '#map', '#fill'):
                    st.heap.pop((obj, k), None)
                if c[-2].endswith(('map', 'set')):
                    st.heap[(obj, '#map')] = self.fresh('any', 'o')
                else:
                    st.heap[(obj, '[]')] = [(TRUE, ('unknown',), self.fresh('anyidx', 'i'), self.fresh('any', 'o'))]
                if n.get('n') == 'erase' and len(at) == 1 and isiter(at[0]) and not c[-2].endswith(('map', 'set')):
                    z = sub(was, num(1))          # exactly one element goes
                else:
                    z = self.fresh('phi', 'i')
                UNSIGNED.add(z)
                st.heap[(obj, '#size')] = z
        if not pure:
            for a, m in zip(av, n.get('pm', '') + 'v' * 20):
                if isinstance(a, Ref) and m in 'rp':
                    old = self.rd(st, a.lv, '')
                    ns = old.sort if isinstance(old, T) else 'o'
                    self.wr(st, a.lv, mk('app', ('out', r, len(self.effects)), ns), n)
        t = n.get('t', '')
        return r

    def call_value(self, f, n, st):
        f = self.val(f, st) if f is not None else None
        pm = n.get('pm', '')
        av = [self.ev(a, st) for a in n['args']]
        if isinstance(f, Lam):
            return self.call_lambda(f, av, st, n)
        if isinstance(f, T) and f.op == 'app' and f.a[0] == 'func':
            g = self.F.funcs.get(f.a[1])
            if g is not None and self.depth < self.maxdepth:
                return self.invoke(g, None, av, st, n)
        while isinstance(f, T) and (f, '#copy') in st.heap:
            f = st.heap[(f, '#copy')][0]          # a copied callable calls the same thing
        at = [self._t(self.val(a, st), st) for a in av]
        s = sort_of(n.get('t', ''))
        r = mk('app', ('apply', self._t(f, st) if f is not None else '?') + tuple(at), s)
        self.effect('call', st, n, q='apply', n='apply', obj=f, args=av, argt=at, ret=r, pure=True)
        return r

    def call_lambda(self, lam, av, st, n):
        if self.depth >= self.maxdepth + 3:
            return self.fresh('lam', sort_of(n.get('t', '')))
        fr = {'no': self.newframe(), 'own': set(), 'this': lam.this, 'parent': lam.frame}
        for i, (m, v) in lam.caps.items():
            if m == 'val':
                fr['own'].add((fr['no'], i))
                st.env[(fr['no'], i)] = v
        return self.run(lam.node['params'], lam.node['body'], fr, av, st, n, lam.node)

    def newframe(self):
        self.frames += 1
        return self.frames

    def invoke(self, f, this, av, st, n):
        fr = {'no': self.newframe(), 'own': set(), 'this': this if this is not None else self.fresh('nothis', 'o'), 'parent': None}
        self.inlined[f['key']] = f
        return self.run(f['params'], f['body'], fr, av, st, n, f)

    def bind_params(self, params, fr, av, st):
        for i, p in enumerate(params):
            k = (fr['no'], p['id'])
            fr['own'].add(k)
            if i < len(av):
                v = av[i]
            elif p.get('def') is not None:
                v = self.ev(p['def'], st)
            else:
                v = self.fresh(p['n'] or 'p', sort_of(p['t']))
            if isinstance(v, Ref) and not p['t'].endswith('&') and not is_ptr(p['t']):
                v = self.rd(st, v.lv, p['t'])
            if isinstance(v, T) and not p['t'].endswith('&'):
                v = self.coerce(self.decay(v, p['t'], st), p['t'])
                if v.sort == 'o' and sort_of(p['t']) == 'o' and not is_ptr(p['t']) and not is_smart(p['t']):
                    v = self.copy_obj(v, st)
            st.env[k] = v

    def run(self, params, body, fr, av, st, n, f):
        self.depth += 1
        old = getattr(self, 'frame', None)
        self.bind_params(params, dict(fr) if False else fr, av, st)
        self.frame = fr
        self.fnstack.append(f)
        try:
            base = len(st.pc)
            out = self.block(body, st.copy())
            rets = out['ret'] + ([(out['next'], None)] if out['next'] is not None else [])
            rets = [(s, v) for s, v in rets if FALSE not in s.pc[base:]]
            if not rets:
                st.pc.append(FALSE)
                return self.fresh('noret', sort_of(f.get('ret', 'int') if isinstance(f, dict) else 'int'))
            v = self.merge_into(st, rets, base)
            return v if v is not None else num(0)
        finally:
            self.fnstack.pop()
            self.frame = old
            self.depth -= 1

    def merge_into(self, st, rets, base):
        """merge several (state, value) exits into st; st.pc keeps its first `base` conditions"""
        m, val = self.merge(rets, base)
        st.env, st.heap, st.pc = m.env, m.heap, m.pc
        return val

    def merge(self, rets, base):
        if not rets:
            raise ValueError('nothing to merge')
        if len(rets) == 1:
            s, v = rets[0]
            return s, v
        # common prefix
        k = base
        while all(len(s.pc) > k for s, _ in rets) and all(s.pc[k] is rets[0][0].pc[k] for s, _ in rets):
            k += 1
        conds = [band(*[q for q in s.pc[k:] if q not in self.total]) for s, _ in rets]
        m = rets[-1][0].copy()
        val = rets[-1][1]
        for (s, v), c in reversed(list(zip(rets[:-1], conds[:-1]))):
            for key in set(m.env) | set(s.env):
                a, b = s.env.get(key), m.env.get(key)
                if a is b:
                    continue
                if a is None or b is None:
                    m.env[key] = a if a is not None else b
                else:
                    m.env[key] = self.join_vals(c, a, b)
            for key in set(m.heap) | set(s.heap):
                a, b = s.heap.get(key), m.heap.get(key)
                if a is b:
                    continue
                if a is None or b is None:
                    o = a if a is not None else b
                    if isinstance(o, T) and isinstance(key[0], T) and isinstance(key[1], str):
                        if key[1].startswith('#'):
                            init = mk('app', ('size', key[0]), 'i') if key[1] == '#size' else o
                            if key[1] == '#size': UNSIGNED.add(init)
                        else:
                            init = mk('app', ('fld', key[1], key[0]), o.sort)
                        m.heap[key] = self.join_vals(c, a if a is not None else init, b if b is not None else init)
                    elif isinstance(o, list):
                        m.heap[key] = self.join_lists(c, a or [], b or [])
                    else:
                        m.heap[key] = o
                else:
                    m.heap[key] = self.join_vals(c, a, b)
            if v is not None and val is not None:
                if isinstance(v, Ref) or isinstance(val, Ref):
                    if v != val:
                        v2 = self.rd(s, v.lv, '') if isinstance(v, Ref) else v
                        val2 = self.rd(m, val.lv, '') if isinstance(val, Ref) else val
                        val = self.join_vals(c, v2, val2)
                else:
                    val = self.join_vals(c, v, val)
            elif val is None:
                val = v
        m.pc = rets[0][0].pc[:k] + ([bor(*conds)] if bor(*conds) is not TRUE else [])
        return m, val

    # ---------------------------------------------------------------- construction
    def copy_obj(self, v, st):
        if not isinstance(v, T) or v.sort != 'o' or v is NULL or isiter(v) or (v.op == 'app' and v.a[0] in ('func', 'str', 'method')):
            return v
        o = self.fresh('copy', 'o')
        st.heap[(o, '#copy')] = (v, dict(st.heap))
        c = st.heap.get((v, '#class'))
        if c is not None:
            st.heap[(o, '#class')] = c
        return o

    def e_ctor(self, n, st):
        q = n['q']
        for hq in (q + '#ctor', q.split('::')[-1] + '#ctor'):
            h = self.handlers.get(hq)
            if h is not None:
                r = h(self, n, st)
                if r is not None:
                    return r
        from . import stdmodel
        h = stdmodel.lookup_ctor(q, n)
        if h is not None:
            r = h(self, n, st)
            if r is not None:
                return r
        f = self.F.funcs.get(n['key'])
        if n.get('ck') in ('copy', 'move') and (f is None or f.get('implicit') or f.get('defaulted')):
            v = self.ev(n['args'][0], st)
            v = self.val(v, st)
            return self.copy_obj(v, st)
        if f is None or self.depth >= self.maxdepth or q in self.opaque:
            av = [self._t(self.val(self.ev(a, st), st), st) for a in n['args']]
            if n.get('ck') == 'default' and f is None:
                o = self.fresh('obj', 'o')
                self.default_fields(q, n, o, st)
                return o
            r = mk('app', ('new:' + q,) + tuple(av), 'o')
            self.effect('call', st, n, q=q, n=q.split('::')[-1], obj=None, args=av, argt=av, ret=r, pure=True, ctor=True)
            return r
        av = []
        fp = f['params']
        for i, a in enumerate(n['args']):
            t = fp[i]['t'] if i < len(fp) else ''
            m = 'r' if t.endswith('&') and not t.startswith('const ') and not t.endswith('&&') else 'c' if t.endswith('&') else 'v'
            av.append(self.arg(a, m, st))
        return self.construct(f, av, st, n)

    def default_fields(self, q, n, o, st):
        rs = self.F.rec_q.get(q) or []
        t = ctype(n.get('t', ''))
        rs = [r for r in rs if r['t'] == t] or rs
        if rs:
            st.heap[(o, '#class')] = rs[0]['key']
            for fd in rs[0]['fields']:
                if fd.get('init') is not None:
                    of = getattr(self, 'frame', None)
                    self.frame = {'no': self.newframe(), 'own': set(), 'this': o, 'parent': None}
                    st.heap[(o, fd['n'])] = self.ev(fd['init'], st)
                    self.frame = of

    def construct(self, f, av, st, n, obj=None):
        o = obj if obj is not None else self.fresh('obj', 'o')
        fr = {'no': self.newframe(), 'own': set(), 'this': o, 'parent': None}
        old = getattr(self, 'frame', None)
        self.inlined[f['key']] = f
        self.depth += 1
        self.fnstack.append(f)
        try:
            self.bind_params(f['params'], fr, av, st)
            self.frame = fr
            if obj is None:
                st.heap[(o, '#class')] = f.get('clskey')
            for i in f.get('inits', ()):
                if 'field' in i:
                    e = i['e']
                    ft = self.field_type(f, i['field'])
                    if ft and ft.endswith('&') and e is not None and e['k'] in ('ref', 'mem'):
                        v = self.ev(e, st)
                        st.heap[(o, i['field'])] = v
                    else:
                        v = self.ev(e, st)
                        if isinstance(v, Ref) and not (ft and is_ptr(ft)):
                            v = self.rd(st, v.lv, ft or '')
                        if ft:
                            v = self.coerce(v, ft)
                        st.heap[(o, i['field'])] = v
                elif i.get('deleg') or 'base' in i:
                    e = i['e']
                    if e is not None and e['k'] == 'ctor':
                        g = self.F.funcs.get(e['key'])
                        if g is not None:
                            bv = []
                            for j, a in enumerate(e['args']):
                                t = g['params'][j]['t'] if j < len(g['params']) else ''
                                m = 'r' if t.endswith('&') and not t.startswith('const ') and not t.endswith('&&') else 'c' if t.endswith('&') else 'v'
                                bv.append(self.arg(a, m, st))
                            self.construct(g, bv, st, e, obj=o)
            out = self.block(f['body'], st.copy()) if f.get('body') else None
            if out:
                exits = [(s, None) for s, v in out['ret']] + ([(out['next'], None)] if out['next'] is not None else [])
                base = len(st.pc)
                exits = [(s, v) for s, v in exits if FALSE not in s.pc[base:]]
                if exits:
                    self.merge_into(st, exits, base)
                else:
                    st.pc.append(FALSE)
            if obj is None and '#constructed' in self.handlers:
                self.handlers['#constructed'](self, f, o, st, n)
            return o
        finally:
            self.fnstack.pop()
            self.depth -= 1
            self.frame = old

    def field_type(self, f, name):
        r = self.F.records.get(f.get('clskey'))
        if r:
            for fd in r['fields']:
                if fd['n'] == name:
                    return fd['t']
        return None

    # ---------------------------------------------------------------- statements
    def block(self, n, st):
        """returns {'next': State|None, 'ret': [(State, val)], 'brk': [State], 'cont': [State]}"""
        out = {'next': st, 'ret': [], 'brk': [], 'cont': []}
        if n is None:
            return out
        m = getattr(self, 's_' + n['k'], None)
        if m is None:
            # expression statement
            self.ev(n, st)
            if FALSE in st.pc:
                out['next'] = None
            return out
        return m(n, st)

    def s_block(self, n, st):
        out = {'next': st, 'ret': [], 'brk': [], 'cont': []}
        for s in n['s']:
            if out['next'] is None:
                break
            o = self.block(s, out['next'])
            out['ret'] += o['ret']
            out['brk'] += o['brk']
            out['cont'] += o['cont']
            out['next'] = o['next']
        return out

    def s_nop(self, n, st):
        return {'next': st, 'ret': [], 'brk': [], 'cont': []}

    def s_label(self, n, st):
        return self.block(n['s'], st)

    def s_decl(self, n, st):
        for v in n['vars']:
            self.decl(v, st)
        nx = None if FALSE in st.pc else st
        return {'next': nx, 'ret': [], 'brk': [], 'cont': []}

    def decl(self, v, st):
        k = self.declare(v['id'])
        t = v['t']
        if v.get('static') and t.startswith('const ') and v.get('init') is not None and v['init']['k'] == 'init':
            self.tables[v['n']] = v['init']['e']
        if v.get('init') is None:
            if sort_of(t) == 'o' and not is_ptr(t):
                o = self.fresh(v['n'], 'o')
                st.heap[(o, '#local')] = TRUE
                if ctype(t).endswith(']'):
                    st.heap[(o, '#arr')] = self.arrtypes[o] = ctype(t)
                st.env[k] = o
            else:
                st.env[k] = self.fresh('uninit_' + v['n'], sort_of(t))
            return
        if t.endswith('&') :
            init = v['init']
            lv = self.lvalue(init, st) if init['k'] in ('ref', 'mem', 'sub', 'un', 'call', 'cast') else ('tmp', self.ev(init, st))
            if lv[0] == 'tmp':
                st.env[k] = lv[1]
            else:
                if init['k'] in ('sub', 'un'):
                    self.effect('read', st, init, lv=lv)
                cur = self.rd(st, lv, ctype(t))
                if isinstance(cur, T) and cur.sort == 'o' and not is_ptr(ctype(t)) and not is_smart(t) and lv[0] != 'var':
                    # reference to an object: identity is enough
                    st.env[k] = cur if lv[0] != 'elem' else Ref(lv)
                else:
                    st.env[k] = Ref(lv) if lv != ('var', k) else cur
            return
        val = self.ev(v['init'], st)
        if isinstance(val, Ref) and not is_ptr(t):
            val = self.rd(st, val.lv, t)
        val = self.coerce(self.decay(val, t, st), t)
        st.env[k] = val
        if v.get('binds'):
            self.bind(v, val, st)
        return

    def bind(self, v, val, st):
        for i, b in enumerate(v['binds']):
            k = self.declare(b['id'])
            if isinstance(val, Tup) and i < len(val.vals):
                st.env[k] = val.vals[i]
            else:
                o = self._t(val, st)
                name = self.bind_name(v, i)
                if v['t'].endswith('&') and not v['t'].startswith('const'):
                    st.env[k] = Ref(('fld', o, name))
                else:
                    st.env[k] = self.hread(st, o, name, b['t'])

    def bind_name(self, v, i):
        t = ctype(v['t'])
        if t.startswith('std::tuple'):
            return '#%d' % i
        rs = [r for r in self.F.rec_q.get(strip_targs(t), []) if r['t'] == t] or self.F.rec_q.get(strip_targs(t), [])
        if rs and i < len(rs[0]['fields']):
            return rs[0]['fields'][i]['n']
        return 'first' if i == 0 else 'second' if i == 1 else '#%d' % i

    def s_if(self, n, st):
        if n.get('init'):
            self.block(n['init'], st)
        if n.get('cv'):
            self.block(n['cv'], st)
        c = self.bool_(self.val(self.ev(n['c'], st), st))
        outs = []
        if c is not FALSE:
            sa = st.copy() if c is not TRUE else st
            if c is not TRUE: sa.pc.append(c)
            outs.append(self.block(n['a'], sa))
        if c is not TRUE:
            sb = st.copy() if c is not FALSE else st
            if c is not FALSE: sb.pc.append(bnot(c))
            outs.append(self.block(n['b'], sb) if n.get('b') else {'next': sb, 'ret': [], 'brk': [], 'cont': []})
        return self.join_outs(outs, len(st.pc))

    def join_outs(self, outs, base):
        r = {'ret': [], 'brk': [], 'cont': []}
        nx = []
        for o in outs:
            for k in r:
                r[k] += o[k]
            if o['next'] is not None and FALSE not in o['next'].pc[-1:]:
                nx.append((o['next'], None))
        r['next'] = self.merge(nx, base)[0] if nx else None
        return r

    def s_ret(self, n, st):
        v = None
        if n.get('e') is not None:
            e = n['e']
            v = self.ev(e, st) if e['k'] not in ('call', 'mem', 'sub', 'un', 'ref') else self.ret_lv(e, st)
        if v is not None and isinstance(v, T) and self.fnstack and isinstance(self.fnstack[-1], dict) and 'ret' in self.fnstack[-1] and not isinstance(v, Ref):
            v = self.coerce(v, self.fnstack[-1]['ret'])
        if FALSE in st.pc:
            return {'next': None, 'ret': [], 'brk': [], 'cont': []}
        return {'next': None, 'ret': [(st, v)], 'brk': [], 'cont': []}

    def ret_lv(self, e, st):
        f = self.fnstack[-1]
        rt = f.get('ret', '') if isinstance(f, dict) else ''
        if rt.endswith('&') and e['k'] in ('mem', 'sub', 'un', 'ref', 'call') and (e['k'] != 'un' or e['op'] == '*'):
            lv = self.lvalue(e, st)
            if lv[0] == 'tmp':
                return lv[1]
            cur = self.rd(st, lv, e.get('t', ''))
            if isinstance(cur, T) and cur.sort == 'o' and not is_smart(e.get('t', '')) and lv[0] != 'elem':
                return cur
            return Ref(lv)
        v = self.ev(e, st)
        if isinstance(v, Ref) and not is_ptr(e.get('t', '')):
            v = self.rd(st, v.lv, e.get('t', ''))
        return v

    def s_break(self, n, st):
        return {'next': None, 'ret': [], 'brk': [st], 'cont': []}

    def s_cont(self, n, st):
        return {'next': None, 'ret': [], 'brk': [], 'cont': [st]}

    def s_throw(self, n, st):
        self.e_throw(n, st)
        return {'next': None, 'ret': [], 'brk': [], 'cont': []}

    def s_try(self, n, st):
        st0 = st.copy()
        mark = len(self.effects)
        o = self.block(n['b'], st)
        outs = [o]
        if n.get('catches'):
            for c in n['catches']:
                s = st0.copy()
                s.pc.append(self.fresh('caught', 'b'))
                if c.get('var'):
                    s.env[self.declare(c['var']['id'])] = self.fresh('exc', 'o')
                outs.append(self.block(c['b'], s))
        return self.join_outs(outs, len(st0.pc))

    def s_switch(self, n, st):
        if n.get('init'):
            self.block(n['init'], st)
        if n.get('cv'):
            self.block(n['cv'], st)
        c = self.val(self.ev(n['c'], st), st)
        # flatten into [(labels, stmts)]
        items = []
        body = n['b']['s'] if n['b']['k'] == 'block' else [n['b']]
        for s in body:
            labels = []
            while s is not None and s['k'] in ('case', 'default'):
                labels.append(s.get('v') if s['k'] == 'case' else 'default')
                s = s['s']
            items.append((labels, s))
        consts = [l for ls, _ in items for l in ls if l != 'default']
        cv = {id(l): eq(self.num_(c), self.num_(self.ev(l, st))) for l in consts}
        none = band(*[bnot(x) for x in cv.values()])
        base = len(st.pc)
        r = {'ret': [], 'brk': [], 'cont': []}
        exits = []
        cur = None
        has_default = any('default' in ls for ls, _ in items)
        for labels, s in items:
            if labels:
                conds = [none if l == 'default' else cv[id(l)] for l in labels]
                e = st.copy()
                e.pc.append(bor(*conds))
                entry = [e] if bor(*conds) is not FALSE else []
                if cur is not None:
                    entry.append(cur)
                cur = self.merge([(x, None) for x in entry], base)[0] if entry else None
            if cur is None or s is None:
                continue
            o = self.block(s, cur)
            r['ret'] += o['ret']
            r['cont'] += o['cont']
            exits += o['brk']
            cur = o['next']
        if cur is not None:
            exits.append(cur)
        if not has_default:
            e = st.copy()
            e.pc.append(none)
            exits.append(e)
        exits = [x for x in exits if FALSE not in x.pc]
        r['next'] = self.merge([(x, None) for x in exits], base)[0] if exits else None
        return r

    # ---- loops
    def s_for(self, n, st):
        if n.get('init') is not None:
            o = self.block(n['init'], st)
            st = o['next']
        return self.loop(n, st, n.get('c'), n.get('inc'), n['b'], cv=n.get('cv'))

    def s_while(self, n, st):
        return self.loop(n, st, n['c'], None, n['b'], cv=n.get('cv'))

    def s_do(self, n, st):
        return self.loop(n, st, n['c'], None, n['b'], post=True)

    def s_rfor(self, n, st):
        if n.get('init'):
            self.block(n['init'], st)
        coll = self.val(self.ev(n['range'], st), st)
        return self.loop(n, st, None, None, n['b'], rng=coll)

    def changed(self, before, after_states):
        ek, hk = set(), set()
        for s in after_states:
            for k, v in s.env.items():
                if k in before.env and before.env[k] is not v:
                    ek.add(k)
            for k, v in s.heap.items():
                if before.heap.get(k) is not v and (k in before.heap or True):
                    hk.add(k)
        return ek, hk

    def only_grown(self, effects):
        """containers to which these effects do nothing but append"""
        r, bad = set(), set()
        for e in effects:
            o = e.d.get('obj')
            if e.kind == 'push':
                r.add(o)
                continue
            if e.kind in ('read', 'index'):
                continue
            if isinstance(o, T):
                bad.add(o)
            lv = e.d.get('lv')
            if lv is not None and len(lv) > 1 and isinstance(lv[1], T):
                bad.add(lv[1])
            for a in e.d.get('argt', ()):
                if isinstance(a, T):
                    bad |= set(subterms(a))
        return r - bad

    def loop(self, n, st, cond, inc, body, cv=None, post=False, rng=None):
        base_pc = len(st.pc)
        self.counter += 1
        lid = self.counter
        # ---- pass 1: find modified state
        mark_e, mark_u, mark_c = len(self.effects), len(self.unknown), self.counter
        st0 = st.copy()
        s1 = st.copy()
        self.rec += 1
        self.loop_body(n, s1, cond, inc, body, cv, post, rng, Loop(lid, n), first=True)
        outs1 = self._lo
        self.rec -= 1
        ek, hk = self.changed(st0, outs1)
        grown = self.only_grown(self.effects[mark_e:])
        del self.effects[mark_e:]
        del self.unknown[mark_u:]
        # ---- pass 2: generalise
        s2 = st.copy()
        L = Loop(lid, n)
        gen = {}
        havoc_h = []
        for k in sorted(ek, key=str):
            v = st0.env[k]
            if isinstance(v, T) and v.sort in 'irb':
                # sort of the generalised value: join of before/after sorts
                srt = v.sort
                for o in outs1:
                    w = o.env.get(k)
                    if isinstance(w, T) and w.sort == 'r' and srt == 'i':
                        srt = 'r'
                x = self.fresh('phi', srt)
                if v in UNSIGNED: UNSIGNED.add(x)
                gen[k] = (x, v)
                s2.env[k] = x
            elif isinstance(v, Ref) and v.lv[0] == 'elem':
                x = self.fresh('it', 'i')
                gen[k] = (x, v.lv[2])
                s2.env[k] = Ref(('elem', v.lv[1], x))
            elif isiter(v):
                x = self.fresh('it', 'i')
                gen[k] = (x, v.a[2])
                s2.env[k] = mkiter(v.a[1], x)
            elif isinstance(v, Tup) or isinstance(v, T):
                s2.env[k] = self.fresh('phi', 'o')
        for k in hk:
            if k in st0.heap:
                v = st0.heap[k]
                if isinstance(v, T) and v.sort in 'irb':
                    x = self.fresh('phi', v.sort)
                    gen[k] = (x, v)
                    s2.heap[k] = x
                elif isiter(v):
                    x = self.fresh('it', 'i')
                    gen[k] = (x, v.a[2])
                    s2.heap[k] = mkiter(v.a[1], x)
                elif isinstance(v, T):
                    s2.heap[k] = self.fresh('phi', 'o')
                elif isinstance(v, list):
                    ai = self.fresh('anyidx', 'i')
                    s2.heap[k] = v + [(TRUE, st.loops + ('loop', lid), ai, self.fresh('any', 'o'))]
                    z = st0.heap.get((k[0], '#size'))
                    if k[0] in grown and isinstance(z, T) and const(z) is not None:
                        self.lower[ai] = const(z)          # the loop only appends
            else:
                w = [o.heap.get(k) for o in outs1 if k in o.heap]
                fresh_ = isinstance(k[0], T) and any(y.op == 'sym' and (y.a[0] == 'idx@%d' % lid or '#' in str(y.a[0]) and int(str(y.a[0]).split('#')[1]) > mark_c) for y in subterms(k[0]))
                if fresh_:
                    pass                    # a member of an object of one iteration
                elif w and isinstance(w[0], T) and isinstance(k[0], T) and isinstance(k[1], str) and not k[1].startswith('#'):
                    init = mk('app', ('fld', k[1], k[0]), w[0].sort)
                    x = self.fresh('phi', w[0].sort)
                    gen[k] = (x, init)
                    s2.heap[k] = x
                elif k[1] == '#size' and isinstance(k[0], T):
                    init = mk('app', ('size', k[0]), 'i')
                    x = self.fresh('phi', 'i')
                    gen[k] = (x, init)
                    s2.heap[k] = x
        # step of each generalised variable
        mark_e2 = len(self.effects)
        probe = s2.copy()
        self.rec += 1
        self.loop_body(n, probe, cond, inc, body, cv, post, rng, Loop(lid, n), first=True)
        self.rec -= 1
        del self.effects[mark_e2:]
        del self.unknown[mark_u:]
        ends = self._back
        steps = {}
        for k, (x, v0) in gen.items():
            ds = []
            for e in ends:
                w = e.env.get(k) if k in e.env else e.heap.get(k)
                if isinstance(w, Ref):
                    w = w.lv[2] if w.lv[0] == 'elem' else None
                elif isiter(w):
                    w = w.a[2]
                if not isinstance(w, T) or not is_num(w) or not is_num(x):
                    ds = None
                    break
                leaf = leaves(w)
                for l in leaf:
                    ds.append(sub(l, x))
            steps[k] = ds
        # every variable with a constant step is expressed through one iteration counter
        cstep = {}
        for k, ds in steps.items():
            cs = set(const(d) for d in ds) if ds else set()
            if len(cs) == 1 and None not in cs:
                cstep[k] = cs.pop()
        prim = None
        if rng is not None:
            prim = (None, mk('sym', ('idx@%d' % lid,), 'i'), num(0), 1)
        else:
            csyms = set()
            for c in self._condterms:
                csyms |= subterms(c)
            cand = [k for k, c in cstep.items() if abs(c) == 1 and gen[k][0].sort == 'i' and is_num(gen[k][1]) and gen[k][1].sort == 'i']
            cand.sort(key=lambda k: (gen[k][0] not in csyms, const(gen[k][1]) is None, cstep[k] < 0))
            if cand:
                k = cand[0]
                prim = (k, gen[k][0], gen[k][1], int(cstep[k]))
                if not leaves_early(body):
                    self.exact.add(prim[1])
        solved = {}

        def setk(k, v):
            cur = s2.env.get(k) if k in s2.env else s2.heap.get(k)
            if isinstance(cur, Ref):
                v = Ref(('elem', cur.lv[1], v))
            elif isiter(cur):
                v = mkiter(cur.a[1], v)
            if k in s2.env: s2.env[k] = v
            else: s2.heap[k] = v

        for k, (x, v0) in list(gen.items()):
            ds = steps[k]
            if ds is not None and ds:
                cs = [const(d) for d in ds]
                if prim is not None and k != prim[0] and k in cstep and is_num(v0):
                    v = add(v0, scale(sub(prim[1], prim[2]), cstep[k] * prim[3]))
                    setk(k, v)
                    solved[x] = v
                    del gen[k]
                    continue
                if is_num(v0) and all(self.nonneg(d, s2) for d in ds):
                    L.facts.append(ge(x, v0))
                elif is_num(v0) and all(c is not None and c <= 0 for c in cs):
                    L.facts.append(le(x, v0))
                L.vars.append((x, v0, cs[0] if len(set(cs)) == 1 else None))
                if len(set(cs)) == 1 and cs[0] is not None and abs(cs[0]) > 1 and cs[0].denominator == 1 and x.sort == 'i':
                    # x = v0 + step * k
                    kk = self.fresh('k', 'i')
                    L.facts.append(eq(x, add(v0, scale(kk, cs[0]))))
                    L.facts.append(ge(kk, num(0)))
            else:
                L.vars.append((x, v0, None))
        # additive accumulators whose increment depends on the iteration counter only: prefix sums
        if prim is not None:
            others = {g[0] for kk2, g in gen.items() if prim[0] is None or kk2 != prim[0]}
            for k, (x, v0) in list(gen.items()):
                if (prim[0] is not None and k == prim[0]) or not is_num(x) or not is_num(v0) or not ends:
                    continue
                w = self.merged_back(ends, k)
                incr = strip_acc(w, x) if w is not None else None
                if incr is None:
                    continue
                incr = subst(incr, solved)
                sub_ = subterms(incr)
                if (sub_ & others) or any(y.op == 'sym' and y.sort in 'irb' and '#' in str(y.a[0]) and int(str(y.a[0]).split('#')[1]) > mark_c and y is not prim[1] for y in sub_):
                    continue
                if prim[1] not in sub_:
                    # the same increment at every iteration
                    v = add(v0, mul(incr, scale(sub(prim[1], prim[2]), prim[3])))
                    setk(k, v)
                    L.vars[:] = [y for y in L.vars if y[0] is not x]
                    L.facts[:] = [y for y in L.facts if x not in subterms(y)]
                    solved[x] = v
                    del gen[k]
                    continue
                if prim[3] != 1:
                    continue
                bodyt = canon_loop(incr, {prim[1]: (prim[2], None)})
                sm = mk('app', ('SUM', bodyt, sub(prim[1], prim[2])), 'i' if incr.sort == 'i' else 'r')
                if self.nonneg(incr, s2):
                    UNSIGNED.add(sm)
                L.vars[:] = [y for y in L.vars if y[0] is not x]
                L.facts[:] = [y for y in L.facts if x not in subterms(y)]
                setk(k, add(v0, sm))
                del gen[k]
        s2.pc = s2.pc + L.facts
        s2.loops = st.loops + (L,)
        L.base = len(s2.pc)
        L.mark = mark_c
        res = self.loop_body(n, s2, cond, inc, body, cv, post, rng, L)
        rets, brks, ends, exit_state = res['ret'], res['brk'], self._back, res['exit']
        L.step = {}
        for k, (x, v0) in gen.items():
            w = self.merged_back(ends, k) if ends else None
            if w is not None:
                L.step[x] = (v0, w)
        self.all_loops.append(L)
        # ---- after the loop
        after = []
        # normal exit: generalised state with the negated condition
        if exit_state is not None:
            ex = exit_state.copy()
            ex.loops = st.loops
            # accumulators summarised as sums over the loop
            for k, (x, v0) in gen.items():
                pass
            ex = self.summarise(ex, st0, gen, ends, L, n, brks, cond)
            after.append((ex, None))
        for b in brks:
            b2 = b.copy()
            b2.loops = st.loops
            after.append((b2, None))
        out = {'ret': rets, 'brk': [], 'cont': [], 'next': None}
        # containers the loop writes first: their content after the loop is not the content before it
        for k in hk:
            if k[1] == '[]' and k not in st0.heap:
                for s, v in after + rets:
                    s.heap[k] = list(s.heap.get(k, [])) + [(TRUE, st.loops + ('loop', lid), self.fresh('anyidx', 'i'), self.fresh('any', 'o'))]
        for s, v in rets:
            s.loops = st.loops
        if after:
            if len(after) > 1:
                # exits through break happen at some iteration: keep exits apart by a fresh selector
                sel = []
                for s, v in after:
                    c = self.fresh('exit', 'b')
                    sel.append(c)
                base = base_pc
                m = after[-1][0].copy()
                for (s, v), c in list(zip(after, sel))[:-1]:
                    s.pc = s.pc[:base] + [c] + s.pc[base:]
                after[-1][0].pc = after[-1][0].pc[:base] + [bnot(bor(*sel[:-1]))] + after[-1][0].pc[base:]
                merged, _ = self.merge(after, base)
                out['next'] = merged
            else:
                out['next'] = after[0][0]
        if not rets and out['next'] is not None:
            # some exit is always taken: its conditions select nothing
            pc = out['next'].pc
            keep = pc[:base_pc]
            for q in pc[base_pc:]:
                if any(y.op == 'sym' and '#' in str(y.a[0]) and int(str(y.a[0]).split('#')[1]) > mark_c for y in subterms(q)):
                    self.total.add(q)
                elif len(subterms(q)) < 200 and entails([], q):
                    continue
                keep.append(q)
            out['next'].pc = keep
        if rets and out['next'] is not None:
            # a return inside the loop: mark the fall-through as "no iteration returned"
            c = self.fresh('found', 'b')
            for s, v in rets:
                s.pc = s.pc[:base_pc] + [c] + s.pc[base_pc:]
            out['next'].pc = out['next'].pc[:base_pc] + [bnot(c)] + out['next'].pc[base_pc:]
        return out

    def merged_back(self, ends, k):
        """value of location k merged over the back-edge states"""
        ws = []
        for e in ends:
            w = e.env.get(k) if k in e.env else e.heap.get(k)
            if isinstance(w, Ref):
                w = w.lv[2] if w.lv[0] == 'elem' else None
            elif isiter(w):
                w = w.a[2]
            if not isinstance(w, T) or not is_num(w):
                return None
            ws.append((e, w))
        kk = 0
        pcs = [e.pc for e, _ in ws]
        while all(len(p) > kk for p in pcs) and all(p[kk] is pcs[0][kk] for p in pcs):
            kk += 1
        w = ws[-1][1]
        for e, v in reversed(ws[:-1]):
            w = ite(band(*e.pc[kk:]), v, w)
        return w

    def nonneg(self, d, st):
        c = const(d)
        if c is not None:
            return c >= 0
        return d in UNSIGNED or (d.op == 'app' and d.a[0] == 'size')

    def ordered(self, c, L, s):
        """x != hi for a unit-step counter that starts on the right side of hi is x < hi (or x > hi)"""
        if c.op != 'not' or c.a[0].op != 'eq' or not isinstance(c.a[0].a[0], T):
            return c
        p = c.a[0].a[0]
        for x, v0, step in L.vars:
            if step not in (1, -1) or not isinstance(v0, T) or not is_num(v0):
                continue
            k = monos(p).get(((x, 1),)) if is_num(p) else None
            if k not in (1, -1):
                continue
            hi = scale(sub(p, scale(x, k)), -k)
            if x in subterms(hi) or any(y in subterms(hi) for y, _, _ in L.vars):
                continue
            pc = [q for q in s.pc if x not in subterms(q)]
            # (a counter on the wrong side would run through the whole type: taken not to happen)
            if step == 1 and not entails(pc, gt(v0, hi)):
                return lt(x, hi)
            if step == -1 and not entails(pc, lt(v0, hi)):
                return gt(x, hi)
        return c

    def loop_body(self, n, s, cond, inc, body, cv, post, rng, L, first=False):
        """one symbolic iteration. sets self._lo (all states seen at the end) and self._back (back-edge states)"""
        exit_state = None
        ct = []
        if rng is not None:
            idx = mk('sym', ('idx@%d' % L.lid,), 'i')
            coll = rng if isinstance(rng, T) else self._t(rng, s)
            size = s.heap.get((coll, '#size'))
            if size is None:
                size = mk('app', ('size', coll), 'i')
                UNSIGNED.add(size)
            exit_state = s.copy()
            L.vars.append((idx, num(0), Fraction(1)))
            L.ranges[idx] = (num(0), size)
            L.facts += [ge(idx, num(0)), lt(idx, size)]
            s.pc += [ge(idx, num(0)), lt(idx, size)]
            v = n['var']
            k = self.declare(v['id'])
            t = v['t']
            h = self.handlers.get('#range')
            r = h(self, s, coll, idx, v) if h else None
            if r is not None:
                s.env[k] = r
            elif isinstance(rng, Tup):
                s.env[k] = self.fresh(v['n'], sort_of(t))
            elif t.endswith('&'):
                cur = self.elem_read(s, coll, idx, ctype(t))
                s.env[k] = Ref(('elem', coll, idx)) if not (isinstance(cur, T) and cur.sort == 'o' and not is_smart(t) and not is_ptr(ctype(t))) else cur
            else:
                cur = self.elem_read(s, coll, idx, t)
                if isinstance(cur, T) and cur.sort == 'o' and not is_smart(t) and not is_ptr(ctype(t)) and written(body, v['id']):
                    cur = self.copy_obj(cur, s)       # the body changes its own copy of the element
                s.env[k] = cur
            if v.get('binds'):
                val = s.env[k]
                if isinstance(val, Ref): val = self.rd(s, val.lv, '')
                self.bind(v, val, s)
        elif cond is not None and not post:
            if cv is not None:
                self.block(cv, s)
            c = self.bool_(self.val(self.ev(cond, s), s))
            c = self.ordered(c, L, s)
            ct = [c]
            exit_state = s.copy()
            if c is TRUE:
                exit_state = None
            else:
                exit_state.pc.append(bnot(c))
                s.pc.append(c)
                L.facts.append(c)
                L.cond = c
        o = self.block(body, s)
        back = list(o['cont']) + ([o['next']] if o['next'] is not None else [])
        back = [b for b in back if FALSE not in b.pc]
        if back and inc is not None:
            nb = []
            for b in back:
                self.ev(inc, b)
                nb.append(b)
            back = nb
        if post and cond is not None and back:
            m = self.merge([(b, None) for b in back], len(s.pc))[0] if len(back) > 1 else back[0]
            c = self.bool_(self.val(self.ev(cond, m), m))
            exit_state = m.copy()
            exit_state.pc.append(bnot(c))
            m.pc.append(c)
            back = [m]
        self._condterms = ct
        self._back = back
        self._lo = back + list(o['brk']) + [x for x, _ in o['ret']] + ([exit_state] if exit_state is not None else [])
        return {'ret': o['ret'], 'brk': o['brk'], 'exit': exit_state}

    def summarise(self, ex, st0, gen, ends, L, n, brks, cond):
        """closed form of additive accumulators: acc = acc0 + SUM_loop(guarded increment)"""
        self.existence(ex, gen, ends, L, brks, cond, L.mark)
        if brks:
            return self.exit_values(ex, st0, gen, L, cond)
        for k, (x, v0) in gen.items():
            if not is_num(x) or not is_num(v0):
                continue
            ws = []
            ok = True
            for e in ends:
                w = e.env.get(k) if k in e.env else e.heap.get(k)
                if not isinstance(w, T) or not is_num(w):
                    ok = False
                    break
                ws.append((e, w))
            if not ok or not ws:
                continue
            # merge increments over the back-edge states
            m = None
            if len(ws) == 1:
                w = ws[0][1]
            else:
                kk = 0
                pcs = [e.pc for e, _ in ws]
                while all(len(p) > kk for p in pcs) and all(p[kk] is pcs[0][kk] for p in pcs):
                    kk += 1
                w = ws[-1][1]
                for e, v in reversed(ws[:-1]):
                    w = ite(band(*e.pc[kk:]), v, w)
            inc = strip_acc(w, x)
            others = {g[0] for kk2, g in gen.items() if g[0] is not x}
            iv = self.induction(L, gen, ends, cond)
            if iv is None:
                continue
            if inc is None:
                fo = strip_fold(w, x)
                if fo is None or x in iv or any(o in subterms(y) and o not in iv for o in others for y in fo[1:]):
                    continue
                kind, g, e_ = fo
                s = mk('app', (kind, v0, canon_loop(e_, iv), canon_loop(g, iv)) + tuple(t for v in iv for t in canon_rng(v, iv)), x.sort)
                if k in ex.env: ex.env[k] = s
                elif k in ex.heap: ex.heap[k] = s
                continue
            bad = [o for o in others if o in subterms(inc) and o not in iv]
            if bad or x in iv:
                continue
            body = canon_loop(inc, iv)
            rngs = tuple(canon_rng(v, iv) for v in iv)
            s = mk('app', ('SUM', body) + tuple(t for r in rngs for t in r), 'i' if inc.sort == 'i' else 'r')
            newv = add(v0, s)
            if k in ex.env: ex.env[k] = newv
            elif k in ex.heap: ex.heap[k] = newv
        return self.exit_values(ex, st0, gen, L, cond)

    def existence(self, ex, gen, ends, L, brks, cond, mark):
        """a flag raised in some iterations and never lowered: flag || EXISTS_loop(condition); breaks only where it is raised"""
        for k, (x, v0) in gen.items():
            if x.sort != 'b' or not isinstance(v0, T) or v0.sort != 'b':
                continue
            iv = self.induction(L, gen, ends, cond)
            if not iv or len(iv) != 1:
                continue
            c, (lo, hi) = list(iv.items())[0]
            inside = [ge(c, lo), lt(c, hi)]
            others = {g[0] for kk, g in gen.items() if g[0] not in iv}
            up = []
            for e, last in [(e, False) for e in ends] + [(e, True) for e in brks]:
                w = e.env.get(k) if k in e.env else e.heap.get(k)
                if not isinstance(w, T) or w.sort != 'b' or subst(w, {x: TRUE}) is not TRUE:
                    up = None
                    break
                w0 = subst(w, {x: FALSE})
                if last and w0 is not TRUE:
                    up = None
                    break
                lits = [subst(q, {x: FALSE}) for q in e.pc[L.base:] if q not in self.total]
                up.append(band(*([q for q in lits if not entails(inside, q)] + [w0])))
            if not up:
                continue
            body = bor(*up)
            if body is FALSE or any(o in subterms(body) for o in others) or any(q.op == 'sym' and q not in iv and '#' in str(q.a[0]) and int(str(q.a[0]).split('#')[1]) > mark for q in subterms(body)):
                continue
            r = bor(v0, mk('app', ('EXISTS', canon_loop(body, iv), sub(hi, lo)), 'b'))
            for e in [ex] + list(brks):
                if k in e.env: e.env[k] = r
                elif k in e.heap: e.heap[k] = r

    def exit_values(self, ex, st0, gen, L, cond):
        """loop counters with unit step and a loop-invariant linear bound get their exact exit value"""
        env = {}
        for idx, (lo, hi) in L.ranges.items():
            env[idx] = hi
        syms = {x for x, _ in gen.values()}
        if len(L.vars) and not L.ranges:
            for x, v0, step in L.vars:
                if step not in (1, -1) or x.sort != 'i' or not is_num(v0):
                    continue
                for f in L.facts:
                    hi = None
                    if f.op == 'lt' and int_valued(f.a[0]) and f is self._lastcond(L):
                        c = monos(f.a[0]).get(((x, 1),))
                        if c == step:
                            rest = scale(sub(f.a[0], scale(x, c)), -step)
                            if not (subterms(rest) & syms):
                                hi = rest
                    if hi is None:
                        continue
                    if step == 1:
                        env[x] = hi if entails(list(st0.pc), ge(hi, v0)) else tmax(v0, hi)
                    else:
                        env[x] = tmin(v0, hi)
        if env:
            ex.pc = [p for p in (subst(p, env) for p in ex.pc) if p is not TRUE]
            for d in (ex.env, ex.heap):
                for k, v in list(d.items()):
                    if isinstance(v, T):
                        if any(x in subterms(v) for x in env):
                            d[k] = subst(v, env)
                    elif isinstance(v, Ref) and v.lv[0] == 'elem' and isinstance(v.lv[2], T) and any(x in subterms(v.lv[2]) for x in env):
                        d[k] = Ref(('elem', v.lv[1], subst(v.lv[2], env)))
        return ex

    def _lastcond(self, L):
        c = getattr(L, 'cond', None)
        return c

    def induction(self, L, gen, ends, cond):
        """{symbol: (lo, hi)} of the loop's induction variables with known range, or None"""
        iv = {}
        for idx, (lo, hi) in L.ranges.items():
            iv[idx] = (lo, hi)
        for x, v0, step in L.vars:
            if step == 1 and x not in iv:
                hi = None
                for f in L.facts:
                    # x - hi < 0
                    if f.op == 'lt' and int_valued(f.a[0]):
                        ms = monos(f.a[0])
                        c = ms.get(((x, 1),))
                        if c == 1:
                            h = neg(sub(f.a[0], x))
                            if x not in subterms(h):
                                hi = h
                if hi is not None:
                    iv[x] = (v0, hi)
            elif step == -1 and x not in iv and x.sort == 'i' and is_num(v0):
                # counting down visits the same set of values
                lo = None
                for f in L.facts:
                    if f.op == 'lt' and int_valued(f.a[0]) and monos(f.a[0]).get(((x, 1),)) == -1:
                        h = add(f.a[0], x)
                        if x not in subterms(h):
                            lo = h
                if lo is not None:
                    iv[x] = (add(lo, num(1)), add(v0, num(1)))
        return iv or None


def strip_targs(t):
    out, d = '', 0
    for ch in t:
        if ch == '<': d += 1
        elif ch == '>': d -= 1
        elif d == 0: out += ch
    return out


def leaves(t):
    """unconditional leaves of a term whose top level is conditional"""
    if t.op == 'ite':
        return leaves(t.a[1]) + leaves(t.a[2])
    if t.op == 'poly':
        it = split_ites([t])
        if it is not None:
            return leaves(replace_cond(t, it, True)) + leaves(replace_cond(t, it, False))
    return [t]


def strip_acc(w, x):
    """w = x + inc with inc free of x: return inc (distributing over conditional values)"""
    if w.op == 'ite':
        a, b = strip_acc(w.a[1], x), strip_acc(w.a[2], x)
        if a is None or b is None or x in subterms(w.a[0]):
            return None
        return ite(w.a[0], a, b)
    d = sub(w, x)
    if x in subterms(d):
        # x inside a nested conditional: expand the first one
        it = split_ites([w])
        if it is None or x in subterms(it):
            return None
        a, b = strip_acc(replace_cond(w, it, True), x), strip_acc(replace_cond(w, it, False), x)
        if a is None or b is None:
            return None
        return ite(it, a, b)
    return d


def strip_fold(w, x):
    """w = g ? min/max(x, e) : x with g, e free of x: (MINF|MAXF, g, e)"""
    try:
        lv = [(l, v[0]) for l, v in cases([], (w,)) if lits_feasible(l)]
    except Giveup:
        return None
    es = {v for l, v in lv if v is not x}
    if len(es) != 1 or len(lv) > 32:
        return None
    e = es.pop()
    if x in subterms(e):
        return None
    g = []
    for l, v in lv:
        if v is e:
            r = [y for y in l if x not in subterms(y)]
            g.append(band(*r) if r else TRUE)
    g = bor(*g) if len(g) > 1 else g[0]
    for kind, f in (('MINF', tmin), ('MAXF', tmax)):
        if equal(w, ite(g, f(x, e), x), [])[0]:
            return kind, g, e
    return None


_cn = [0]


def canon_loop(t, iv):
    """rename induction variables to canonical bound variables, shifted to start at their lower bound"""
    env = {}
    for i, (x, (lo, hi)) in enumerate(iv.items()):
        d = depth_of_bound(t)
        env[x] = add(mk('sym', ('$%d.%d' % (d, i),), 'i'), lo) if const(lo) is None or const(lo) != 0 else mk('sym', ('$%d.%d' % (d, i),), 'i')
    return subst(t, env)


def depth_of_bound(t):
    d = 0
    for x in subterms(t):
        if x.op == 'sym' and str(x.a[0]).startswith('$'):
            d = max(d, int(str(x.a[0])[1:].split('.')[0]) + 1)
    return d


def canon_rng(v, iv):
    lo, hi = iv[v]
    return (sub(hi, lo),)


NULL = mk('app', ('null',), 'o')


# ------------------------------------------------------------------ entry point
class Summary:
    """value-numbering summary of one function"""
    def __init__(self, it, f, this, params, ret, rets, st, throws):
        self.it, self.f, self.this, self.params, self.ret, self.rets, self.st, self.throws = it, f, this, params, ret, rets, st, throws
        self.effects = it.effects[getattr(it, 'mark', 0):]
        self.unknown = it.unknown


def summarise(facts, f, args=None, this=None, st=None, **kw):
    it = kw.pop('interp', None) or Interp(facts, **kw)
    st = st or State()
    it.mark = len(it.effects)
    this = this if this is not None else sym('this', 'o')
    if f.get('clskey') and (this, '#class') not in st.heap and not f.get('fk', '').endswith('ctor'):
        pass
    fr = {'no': it.newframe(), 'own': set(), 'this': this, 'parent': None}
    params = {}
    av = []
    for i, p in enumerate(f['params']):
        if args and (p['n'] in args or i in args):
            v = args.get(p['n'], args.get(i))
        else:
            nm = p['n'] or 'p%d' % i
            if any(q['n'] == nm for q in f['params'][:i] + f['params'][i + 1:]):
                nm += '$%d' % i          # expanded parameter pack
            v = sym(nm, sort_of(p['t']))
            if ctype(p['t']).startswith(ITER_T):
                v = mkiter(sym('*' + (p['n'] or 'p%d' % i), 'o'), num(0))
            if is_unsigned(p['t']):
                UNSIGNED.add(v)
        params[p['n']] = v
        params[i] = v
        av.append(v)
    it.frame = fr
    it.fnstack.append(f)
    for p, v in zip(f['params'], av):
        k = (fr['no'], p['id'])
        fr['own'].add(k)
        st.env[k] = v
    if f.get('fk') in ('ctor', 'copyctor', 'movector'):
        it.fnstack.pop()
        it.construct(f, av, st, {'k': 'ctor', 'l': f['l']}, obj=this)
        return Summary(it, f, this, params, this, [(st, this)], st, [])
    out = it.block(f['body'], st)
    rets = [(s, v) for s, v in out['ret'] if FALSE not in s.pc]
    if out['next'] is not None and FALSE not in out['next'].pc:
        rets.append((out['next'], None))
    throws = [e for e in it.effects[it.mark:] if e.kind == 'throw']
    if rets:
        m, v = it.merge([(s, (it.rd(s, v.lv, f['ret']) if isinstance(v, Ref) and not f['ret'].endswith('&') and not is_ptr(f['ret']) else v)) for s, v in rets], 0)
    else:
        m, v = None, None
    return Summary(it, f, this, params, v, rets, m, throws)


def stdmodel_size(it, st, o):
    from .stdmodel import _size
    return _size(it, st, o)


KEEPING = {'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'front', 'back', 'data', 'at', 'operator[]', 'find', 'lower_bound', 'upper_bound', 'equal_range', 'count', 'size', 'reserve', 'rehash', 'shrink_to_fit'}
CONTAINERS = {'vector', 'list', 'deque', 'forward_list', 'map', 'multimap', 'set', 'multiset', 'unordered_map', 'unordered_set', 'unordered_multimap', 'unordered_multiset'}


class Obj:
    """an object built by one of its constructors with symbolic arguments; methods are summarised on that state, so that
    rules speak about constructor arguments and never about private member names"""
    def __init__(self, facts, cls, args=None, nparams=None, pick=None, **kw):
        self.F = facts
        cs = [f for f in facts.fn(cls.split('::')[-1] + '::' + cls.split('::')[-1]) if f.get('fk') == 'ctor'] if '<' not in cls else []
        if not cs:
            cs = [f for f in facts.funcs.values() if f.get('fk') == 'ctor' and not f.get('dep') and strip_targs(f.get('cls') or '').split('::')[-1] == cls.split('::')[-1]]
        if nparams is not None:
            cs = [f for f in cs if len(f['params']) == nparams]
        if pick:
            cs = [f for f in cs if pick(f)]
        self.ctor = cs[0] if cs else None
        self.ctors = cs
        self.this = sym('this', 'o')
        general = kw.pop('general', True)
        self.kw = kw
        self.it = Interp(facts, **kw)
        self.ok = self.ctor is not None
        if self.ok:
            s = summarise(facts, self.ctor, args=args, this=self.this, interp=self.it)
            self.st = s.st
            self.params = s.params
            # later calls see containers in any state, not only as constructed
            if general:
                for (ob, fl), v in list(self.st.heap.items()):
                    if ob is self.this and isinstance(v, T) and const(self.st.heap.get((v, '#size'), num(1))) == 0:
                        for a in ('#size', '[]', '#map', '#fill'):
                            self.st.heap.pop((v, a), None)
            self.ctor_effects = s.effects
            self.clskey = self.ctor.get('clskey')
            self.st.heap[(self.this, '#class')] = self.clskey

    def method(self, name, np=None):
        ms = [f for f in self.F.funcs.values() if f['n'] == name and f.get('clskey') == self.clskey and (np is None or len(f['params']) == np)]
        if not ms:
            # inherited
            r = self.F.records.get(self.clskey)
            seen = set()
            todo = [r] if r else []
            while todo and not ms:
                r = todo.pop(0)
                for b in r['bases']:
                    k = b.get('key')
                    if k and k not in seen:
                        seen.add(k)
                        if k in self.F.records:
                            todo.append(self.F.records[k])
                        ms = ms or [f for f in self.F.funcs.values() if f['n'] == name and f.get('clskey') == k and (np is None or len(f['params']) == np)]
        return ms[0] if ms else None

    def call(self, name, args=None, np=None, st=None, f=None):
        f = f or self.method(name, np)
        if f is None:
            raise LookupError(name)
        return summarise(self.F, f, args=args, this=self.this, st=(st or self.st).copy(), interp=self.it)
