"""Abstract interpretation of the Python configuration package with symbolic values.

Values are immutable tuples; lists, dictionaries, sets and instances live in a heap.  Branches on unknown conditions fork the
abstract state and record the condition; a loop over an unknown sequence is summarised by one generic iteration, whose appends,
stores and calls become segments ('each', k, source, alternatives) that stand for all iterations."""
import ast, os
from .facts import REPO

CONF = os.path.join('SEImplementation', 'python', 'sourcextractor', 'config')
MAXSTATES = 4000


class TooMany(Exception):
    pass


def c(v):
    return ('const', v)


NONE, TRUE, FALSE = c(None), c(True), c(False)


def is_const(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == 'const'


class Obj:
    __slots__ = ('kind', 'cls', 'attrs', 'items', 'open', 'owner')

    def __init__(self, kind, cls=None):
        self.kind, self.cls, self.attrs, self.items, self.open, self.owner = kind, cls, {}, [], None, None

    def copy(self):
        o = Obj(self.kind, self.cls)
        o.attrs, o.items, o.open, o.owner = dict(self.attrs), list(self.items), self.open, self.owner
        return o


class St:
    def __init__(self):
        self.heap, self.pc, self.eff, self.exc, self.ret, self.flow, self.known, self.trying = {}, [], [], None, None, None, {}, 0

    def copy(self):
        s = St()
        s.heap = {k: o.copy() for k, o in self.heap.items()}
        s.pc, s.eff, s.exc, s.ret, s.flow, s.known, s.trying = list(self.pc), list(self.eff), self.exc, self.ret, self.flow, dict(self.known), self.trying
        return s


class Fn:
    def __init__(self, node, mod, cls=None, env=None):
        self.node, self.mod, self.cls, self.env = node, mod, cls, env
        self.static = self.classm = self.prop = False
        for d in getattr(node, 'decorator_list', []):
            if isinstance(d, ast.Name):
                self.static |= d.id == 'staticmethod'
                self.classm |= d.id == 'classmethod'
                self.prop |= d.id == 'property'

    @property
    def name(self):
        return getattr(self.node, 'name', '<lambda>')

    @property
    def loc(self):
        return '%s:%d %s' % (self.mod.path, self.node.lineno, (self.cls + '.' if self.cls else '') + self.name)


class Module:
    def __init__(self, path, name, tree):
        self.path, self.name, self.tree = path, name, tree
        self.funcs, self.classes, self.imports, self.assigns = {}, {}, {}, {}


class Prog:
    def __init__(self, root=None, conf=CONF):
        root = root or REPO
        self.mods, self.classes, self.fns = {}, {}, {}
        d = os.path.join(root, conf)
        for f in sorted(os.listdir(d)):
            if not f.endswith('.py'):
                continue
            p = os.path.join(conf, f)
            m = Module(p, f[:-3], ast.parse(open(os.path.join(root, p), encoding='utf-8').read()))
            self.mods[m.name] = m
            self.scan(m, m.tree.body)
        self.tus = [m.path for m in self.mods.values()]
        self.errors, self.err_tus = 0, []
        self.funcs = {f.loc: f for f in self.fns.values()}

    def scan(self, m, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                m.funcs[n.name] = Fn(n, m)
                self.fns[(m.name, n.name)] = m.funcs[n.name]
            elif isinstance(n, ast.ClassDef):
                ms = {}
                consts = {}
                for x in n.body:
                    if isinstance(x, ast.FunctionDef):
                        ms[x.name] = Fn(x, m, n.name)
                        self.fns[(m.name, n.name + '.' + x.name)] = ms[x.name]
                    elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                        consts[x.targets[0].id] = x.value
                m.classes[n.name] = self.classes[n.name] = {'name': n.name, 'mod': m, 'bases': [ast.unparse(b) for b in n.bases], 'methods': ms, 'consts': consts, 'node': n}
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    m.imports[a.asname or a.name] = (n.level, n.module or '', a.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    m.imports[a.asname or a.name.split('.')[0]] = (0, a.name if a.asname else a.name.split('.')[0], None)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        m.assigns[t.id] = n.value
            elif isinstance(n, (ast.Try, ast.If)):
                self.scan(m, n.body)

    def cls(self, name):
        return self.classes.get(name)

    def mro(self, name):
        out, todo = [], [name]
        while todo:
            x = todo.pop(0)
            if x in out:
                continue
            out.append(x)
            k = self.classes.get(x)
            if k:
                todo = list(k['bases']) + todo
        return out

    def method(self, cls, name, after=None):
        m = self.mro(cls)
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else []
        for x in m:
            k = self.classes.get(x)
            if k and name in k['methods']:
                return k['methods'][name]
        return None


class Interp:
    """opaque: names of functions ('Class', 'Class.method', 'function') that are kept as symbolic calls"""

    def __init__(self, prog, opaque=(), depth=12):
        self.p, self.opaque, self.depth = prog, set(opaque), depth
        self.rec = 2
        self.n = 0
        self.stack = []
        self.active = []
        self.hook = None
        self.forked = 0
        self.lams = {}

    def fresh(self, s):
        self.n += 1
        return '%s#%d' % (s, self.n)

    # ------------------------------------------------------------ heap
    def new(self, st, kind, cls=None, items=()):
        i = self.fresh(kind)
        o = st.heap[i] = Obj(kind, cls)
        o.items = list(items)
        return ('obj', i)

    def obj(self, v, st):
        return st.heap.get(v[1]) if isinstance(v, tuple) and v[0] == 'obj' else None

    def freeze(self, v, st, seen=()):
        """heap value as an immutable term"""
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == 'obj':
            o = st.heap.get(v[1])
            if o is None or v[1] in seen:
                return v
            s = seen + (v[1],)
            if o.kind in ('list', 'set', 'dict'):
                return (o.kind,) + ((('prev', o.open),) if o.open else ()) + tuple(self.freeze(x, st, s) for x in o.items)
            return ('inst', o.cls, tuple(sorted((k, self.freeze(x, st, s)) for k, x in o.attrs.items())))
        return tuple(self.freeze(x, st, seen) if isinstance(x, tuple) else x for x in v)

    # ------------------------------------------------------------ conditions
    def decide(self, cond, st):
        """[(state, bool)] for a condition term"""
        neg = False
        while cond[0] == 'not':
            cond, neg = cond[1], not neg
        r = self.truth(cond, st)
        if r is not None:
            return [(st, r != neg)]
        self.forked += 1
        if self.forked > MAXSTATES:
            raise TooMany()
        out = []
        for b in (True, False):
            s = st.copy()
            s.pc.append((cond, b))
            s.known[cond] = b
            out.append((s, b != neg))
        return out

    def truth(self, cond, st):
        if cond in st.known:
            return st.known[cond]
        if self.hook is not None:
            h = self.hook(cond)
            if h is not None:
                return h
        k = cond[0]
        if k == 'const':
            return bool(cond[1])
        if k in ('class', 'func', 'lam', 'bound', 'ext'):
            return True
        if k == 'tuple':
            return bool(cond[1])
        if k == 'obj':
            o = self.obj(cond, st)
            if o.kind in ('list', 'set', 'dict'):
                if not o.items and not o.open:
                    return False
                if any(x[0] in ('one', 'set') for x in o.items):
                    return True
                if len(o.items) == 1 and o.items[0][0] == 'all':
                    return self.truth(('bool', o.items[0][1]), st)
                return None
            return True
        if k == 'new':
            return True
        if k == 'is':
            a, b = cond[1:]
            if a == b:
                return True
            for x, y in ((a, b), (b, a)):
                if y == NONE:
                    if x[0] in ('obj', 'class', 'func', 'lam', 'bound', 'tuple', 'new', 'range', 'rep', 'idx', 'fmt') or is_const(x):
                        return x == NONE
                    # something known to be an instance of a type, or true, is not None
                    if st.known.get(x) is True or st.known.get(('bool', x)) is True:
                        return False
                    for q, b2 in st.known.items():
                        if b2 and q[0] == 'isinstance' and q[1] == x:
                            return False
                        if b2 and q[0] == 'is' and q[1] == x and q[2] != NONE:
                            return False
            return None
        if k == 'isinstance':
            x, t = cond[1], cond[2]
            if x == NONE or st.known.get(('is', x, NONE)) is True:
                return False
            xt = self.typeof(x, st)
            if xt is not None:
                return self.subclass(xt, t)
            for q, b in st.known.items():
                if b and q[0] == 'isinstance' and q[1] == x:
                    s = self.subclass(q[2], t)
                    if s:
                        return True
                    if not self.subclass(t, q[2]):
                        return False
                if not b and q[0] == 'isinstance' and q[1] == x and self.subclass(t, q[2]):
                    return False
            return None
        if k in ('==', '<', '<=', 'in'):
            a, b = cond[1], cond[2]
            if k == '==' and a == b and not self.mut(a):
                return True
            if k == 'in':
                return self.contains(a, b, st)
            if is_const(a) and is_const(b):
                try:
                    return {'==': a[1] == b[1], '<': None, '<=': None}[k] if k == '==' else (a[1] < b[1] if k == '<' else a[1] <= b[1])
                except TypeError:
                    return None
            if k == '==' and a[0] == 'tuple' and b[0] == 'tuple' and len(a[1]) != len(b[1]):
                return False
            if k == '==':
                # distinct lengths of known collections
                return None
            return None
        if k == 'bool':
            return self.truth(cond[1], st) if cond[1] is not cond else None
        if k == 'issubclass':
            if cond[1][0] == 'class' and cond[2][0] in ('class', 'ext'):
                return self.subclass(cond[1][1], cond[2][1])
            if cond[1][0] == 'type':
                return self.truth(('isinstance', cond[1][1], cond[2][1]), st) if cond[2][0] in ('class', 'ext') else None
            return None
        if k == 'list':
            return None if cond[1:] and all(x[0] != 'one' for x in cond[1:]) else bool(cond[1:])
        if k == 'is_' or k == 'hasattr':
            if k == 'hasattr' and cond[1][0] == 'lam':
                return cond[2] == c('__call__') or None
            if k == 'hasattr' and is_const(cond[1]):
                return hasattr(cond[1][1], cond[2][1]) if is_const(cond[2]) else None
            o = self.obj(cond[1], st)
            if o is not None and o.kind == 'inst' and is_const(cond[2]):
                if cond[2][1] in o.attrs or self.p.method(o.cls, cond[2][1]):
                    return True
                if self.lacks(o, cond[2][1]):
                    return False
            return None
        return None

    def mut(self, v):
        return False

    def typeof(self, v, st):
        if is_const(v):
            return type(v[1]).__name__
        if v[0] == 'obj':
            o = self.obj(v, st)
            return o.cls if o.kind == 'inst' else o.kind
        if v[0] == 'new':
            return v[1]
        if v[0] in ('tuple', 'list', 'dict', 'set', 'range'):
            return v[0]
        if v[0] == 'rep':
            return 'list'
        if v[0] == 'lam':
            return 'function'
        return None

    def subclass(self, a, b):
        if a == b or b == 'object':
            return True
        if b in self.p.mro(a):
            return True
        return False

    def differ(self, a, b, st):
        """the two values are certainly different as keys"""
        if is_const(a) and is_const(b):
            return a != b
        fixed = ('class', 'ext', 'enum', 'func', 'const')
        if a[0] in fixed and b[0] in fixed and 'ext' not in (a[0], b[0]):
            return a != b
        if {a[0], b[0]} == {'class', 'ext'} or a[0] == b[0] == 'ext':
            return a != b
        if a == b:
            return False
        if st.known.get(('==', a, b)) is False or st.known.get(('==', b, a)) is False:
            return True
        if self.hook is not None and (self.hook(('==', a, b)) is False or self.hook(('==', b, a)) is False):
            return True
        return False

    def contains(self, key, coll, st):
        o = self.obj(coll, st)
        if o is None:
            if coll[0] == 'tuple':
                if any(x == key for x in coll[1]):
                    return True
                if is_const(key) and all(is_const(x) for x in coll[1]):
                    return False
            if coll[0] == 'keys':
                return self.contains(key, coll[1], st)
            return None
        sure = not o.open
        for x in o.items:
            k = x[1] if x[0] in ('set', 'one') else None
            if k == key:
                return True
            if k is None or not self.differ(k, key, st):
                sure = False
        return False if sure else None

    # ------------------------------------------------------------ calls
    def call(self, fn, args, kw, st, node=None):
        """[(state, value)]; fn is a value"""
        k = fn[0]
        if k == 'func':
            return self.invoke(self.p.fns[fn[1]], list(args), dict(kw), st, fn)
        if k == 'bound':
            return self.invoke(self.p.fns[fn[2]], [fn[1]] + list(args), dict(kw), st, fn)
        if k == 'lam':
            f, env = self.lams[fn[1]]
            return self.invoke(f, list(args), dict(kw), st, fn, env)
        if k == 'class':
            return self.construct(fn[1], list(args), dict(kw), st)
        if k == 'meth':
            return self.builtin_method(fn[1], fn[2], list(args), dict(kw), st)
        if k == 'ext':
            return self.external(fn[1], list(args), dict(kw), st)
        if k == 'attr' and fn[2] == '__iter__' and not args:
            return [(st, fn[1])]
        o = self.obj(fn, st)
        if o is not None and o.kind == 'inst':
            f = self.p.method(o.cls, '__call__')
            if f is not None:
                return self.invoke(f, [fn] + list(args), dict(kw), st, None)
        a = tuple(args)
        st.eff.append(('call', fn, a, tuple(sorted(kw.items()))))
        t = ('call', fn, tuple(self.freeze(x, st) for x in a), tuple(sorted((n, self.freeze(x, st)) for n, x in kw.items())))
        return [(st, t)]

    def bindargs(self, f, args, kw, st, env):
        """parameters of f bound to arguments: dict, or None when the call does not fit"""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out, args = {}, list(args)
        for n in names:
            if args:
                out[n] = args.pop(0)
        if args:
            if not a.vararg:
                return 'too many arguments'
            out[a.vararg.arg] = ('tuple', tuple(args))
        elif a.vararg:
            out[a.vararg.arg] = ('tuple', ())
        rest = {}
        star = kw.pop('**', None)
        for n, v in kw.items():
            if n in names or n in [x.arg for x in a.kwonlyargs]:
                if n in out:
                    return 'two values for ' + n
                out[n] = v
            elif a.kwarg:
                rest[n] = v
            else:
                return 'unexpected argument ' + n
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defs.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        missing = []
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                if n in defs:
                    out[n] = ('default', n)
                else:
                    return 'no value for ' + n
        if a.kwarg:
            d = self.new(st, 'dict', items=[('set', c(n), v) for n, v in rest.items()])
            if star is not None:
                st.heap[d[1]].open = ('kwargs', star)
                st.heap[d[1]].items = list(self.obj(star, st).items) + st.heap[d[1]].items if self.obj(star, st) else st.heap[d[1]].items
                if self.obj(star, st) is not None:
                    st.heap[d[1]].open = self.obj(star, st).open
            out[a.kwarg.arg] = d
        elif star is not None:
            o = self.obj(star, st)
            if o is not None and (o.items or o.open):
                for x in o.items:
                    if x[0] == 'set' and is_const(x[1]):
                        if x[1][1] not in names:
                            return 'unexpected argument %s' % x[1][1]
                        out[x[1][1]] = x[2]
                if o.open:
                    out['**'] = o.open
        return out, defs

    def invoke(self, f, args, kw, st, fv, env=None):
        nm = (f.cls + '.' if f.cls else '') + f.name
        star = kw.get('**')
        if nm in self.opaque or f.name in self.opaque or len(self.stack) > self.depth or self.stack.count(f) >= self.rec:
            o = self.obj(args[0], st) if args and f.cls else None
            if o is not None and o.kind == 'inst':
                args = [('self', o.cls, args[0][1])] + list(args[1:])
            st.eff.append(('call', ('fn', nm), tuple(args), tuple(sorted(kw.items()))))
            return [(st, ('call', ('fn', nm), tuple(self.freeze(x, st) for x in args), tuple(sorted((n, self.freeze(x, st)) for n, x in kw.items()))))]
        b = self.bindargs(f, args, kw, st, env)
        if isinstance(b, str):
            st.exc = ('TypeError', c(b))
            return [(st, None)]
        b, defs = b
        loc = {'@fn': f, '@parent': env}
        res = [(st, None)]
        for n, v in b.items():
            if isinstance(v, tuple) and v[0] == 'default':
                nxt = []
                for s, _ in res:
                    nxt += self.ev(defs[n], s, {'@fn': f, '@parent': env})
                assert len(nxt) == 1
                b[n] = nxt[0][1]
                res = [(nxt[0][0], None)]
        st = res[0][0]
        loc.update(b)
        self.stack.append(f)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, st, loc)
            out = []
            for s in self.block(f.node.body, [(st, loc)]):
                s0, _ = s
                v = s0.ret if s0.flow == 'return' else NONE
                s0.flow, s0.ret = None, None
                out.append((s0, v))
            return out
        finally:
            self.stack.pop()

    def construct(self, name, args, kw, st):
        if name in self.opaque:
            f = self.p.method(name, '__init__')
            b = self.bindargs(f, [('self',)] + args, dict(kw), st, None) if f else None
            if isinstance(b, str):
                st.exc = ('TypeError', c(b))
                return [(st, None)]
            d = {n: v for n, v in (b[0] if b else {}).items() if v != ('self',) and not (isinstance(v, tuple) and v[0] == 'default')}
            t = ('new', name, tuple(sorted((n, self.freeze(v, st) if n != '**' else v) for n, v in d.items())))
            st.eff.append(t)
            return [(st, t)]
        k = self.p.cls(name)
        o = self.new(st, 'inst', name)
        f = self.p.method(name, '__init__')
        if f is None:
            return [(st, o)]
        out = []
        for s, _ in self.invoke(f, [o] + args, kw, st, None):
            out.append((s, o))
        return out

    # ------------------------------------------------------------ builtins
    def external(self, name, args, kw, st):
        short = name.split('.')[-1]
        h = getattr(self, 'x_' + short, None)
        if h is not None and (name == short or name in ('os.path.abspath', 'collections.OrderedDict', 'collections.defaultdict')) or short in ('OrderedDict', 'defaultdict') and h:
            r = h(args, kw, st)
            if r is not None:
                return r
        if name == short and short in ('ValueError', 'TypeError', 'KeyError', 'Exception', 'RuntimeError', 'IndexError', 'AttributeError', 'NotImplementedError', 'AssertionError', 'StopIteration'):
            return [(st, ('exc', short))]
        fa = tuple(self.freeze(x, st) for x in args)
        t = ('call', ('ext', name), fa, tuple(sorted((n, self.freeze(v, st)) for n, v in kw.items())))
        st.eff.append(t)
        return [(st, t)]

    def length(self, v, st):
        o = self.obj(v, st)
        if o is not None and o.kind in ('list', 'set', 'dict'):
            if o.open:
                return ('len', self.freeze(v, st))
            n, parts = 0, []
            for x in o.items:
                if x[0] in ('one', 'set'):
                    n += 1
                elif x[0] == 'all':
                    parts.append(self.length(x[1], st))
                elif x[0] == 'rep':
                    parts.append(x[2])
                elif x[0] == 'each' and all(len(i) == 1 for g, i in x[3]):
                    parts.append(self.srclen(x[2], st))
                else:
                    return ('len', self.freeze(v, st))
            if o.kind != 'list' and len(o.items) > 1:
                return ('len', self.freeze(v, st))
            for q in parts:
                if is_const(q):
                    n += q[1]
            parts = [q for q in parts if not is_const(q)]
            if not parts:
                return c(n)
            r = parts[0]
            for q in parts[1:]:
                r = ('op', '+', r, q)
            return r if n == 0 else ('op', '+', r, c(n))
        if o is not None and o.kind == 'inst':
            return None
        if v[0] == 'list':
            if all(x[0] == 'one' for x in v[1:]):
                return c(len(v) - 1)
            if len(v) == 2 and v[1][0] == 'rep':
                return v[1][2]
            if len(v) == 2 and v[1][0] == 'all':
                return self.length(v[1][1], st)
            if len(v) == 2 and v[1][0] == 'each' and all(len(i) == 1 for g, i in v[1][3]):
                return self.srclen(v[1][2], st)
        if v[0] == 'range':
            return v[1]
        if v[0] == 'tuple':
            return c(len(v[1]))
        if v[0] == 'zip':
            return self.srclen(v, st)
        return ('len', v)

    def srclen(self, src, st):
        if src[0] == 'zip':
            ls = []
            for x in src[1]:
                n = self.length(x, st)
                if n not in ls:
                    ls.append(n)
            # equal under the path condition
            out = [ls[0]]
            for x in ls[1:]:
                if not any(st.known.get(('==', x, y)) or st.known.get(('==', y, x)) for y in out):
                    out.append(x)
            return out[0] if len(out) == 1 else ('min', tuple(out))
        if src[0] == 'enumerate':
            return self.length(src[1], st)
        return self.length(src, st)

    def x_len(self, args, kw, st):
        v = args[0]
        o = self.obj(v, st)
        if o is not None and o.kind == 'inst':
            f = self.p.method(o.cls, '__len__')
            return self.invoke(f, [v], {}, st, None) if f else None
        return [(st, self.length(v, st))]

    def x_isinstance(self, args, kw, st):
        t = args[1]
        ts = t[1] if t[0] == 'tuple' else (t,)
        out, todo = [], [st]
        for x in ts:
            nxt = []
            for s in todo:
                for s2, b in self.decide(('isinstance', args[0], x[1] if x[0] in ('class', 'ext') else x), s):
                    (out if b else nxt).append((s2, TRUE) if b else s2)
            todo = nxt
        return out + [(s, FALSE) for s in todo]

    def x_issubclass(self, args, kw, st):
        return [(s, c(b)) for s, b in self.decide(('issubclass', args[0], args[1]), st)]

    def x_hasattr(self, args, kw, st):
        return [(s, c(b)) for s, b in self.decide(('hasattr', args[0], args[1]), st)]

    def x_callable(self, args, kw, st):
        return [(s, c(b)) for s, b in self.decide(('hasattr', args[0], c('__call__')), st)]

    def x_type(self, args, kw, st):
        t = self.typeof(args[0], st)
        if t is not None:
            return [(st, ('class', t) if t in self.p.classes else ('ext', t))]
        return [(st, ('type', args[0]))]

    def x_super(self, args, kw, st):
        f = self.stack[-1]
        return [(st, ('super', f.cls if not args else args[0][1], args[1] if len(args) > 1 else None))]

    def x_list(self, args, kw, st):
        if not args:
            return [(st, self.new(st, 'list'))]
        return self.tolist(args[0], st)

    def tolist(self, v, st):
        items = self.segments(v, st)
        if items is None:
            o = self.obj(v, st)
            if o is not None and o.kind == 'inst':
                f = self.p.method(o.cls, '__iter__')
                out = []
                for s, r in (self.invoke(f, [v], {}, st, None) if f else [(st, ('call', ('ext', 'iter'), (v,), ()))]):
                    if s.exc:
                        out.append((s, None))
                    else:
                        out += self.tolist(r, s)
                return out
            items = [('all', v)]
        return [(st, self.new(st, 'list', items=items))]

    def x_tuple(self, args, kw, st):
        return self.x_list(args, kw, st)

    def x_sorted(self, args, kw, st):
        return None

    def x_iter(self, args, kw, st):
        o = self.obj(args[0], st)
        if o is not None and o.kind == 'inst':
            f = self.p.method(o.cls, '__iter__')
            return self.invoke(f, [args[0]], {}, st, None) if f else None
        return [(st, args[0])]

    def x_set(self, args, kw, st):
        return [(st, self.new(st, 'set', items=(self.segments(args[0], st) or [('all', args[0])]) if args else []))]

    def x_dict(self, args, kw, st):
        items = []
        if args:
            o = self.obj(args[0], st)
            if o is not None and o.kind == 'dict' and not o.open:
                items = list(o.items)
            elif o is not None and o.kind == 'list' and all(x[0] == 'one' and x[1][0] == 'tuple' for x in o.items):
                items = [('set',) + x[1][1] for x in o.items]
            else:
                items = [('update', self.freeze(args[0], st))]
        d = self.new(st, 'dict', items=items + [('set', c(n), v) for n, v in kw.items() if n != '**'])
        return [(st, d)]

    def x_OrderedDict(self, args, kw, st):
        return self.x_dict(args, kw, st)

    def x_defaultdict(self, args, kw, st):
        d = self.new(st, 'dict')
        st.heap[d[1]].attrs['@factory'] = args[0] if args else NONE
        return [(st, d)]

    def x_range(self, args, kw, st):
        if len(args) == 1:
            if is_const(args[0]) and isinstance(args[0][1], int) and args[0][1] < 8:
                return [(st, ('tuple', tuple(c(i) for i in range(args[0][1]))))]
            return [(st, ('range', args[0]))]
        if len(args) == 2 and args[0] == c(0):
            return [(st, ('range', args[1]))]
        return None

    def x_zip(self, args, kw, st):
        return [(st, ('zip', tuple(self.freeze(a, st) for a in args)))]

    def x_reversed(self, args, kw, st):
        it = self.segments(args[0], st) if len(args) == 1 else None
        if it is None or any(x[0] != 'one' for x in it):
            return None
        return [(st, self.new(st, 'list', items=it[::-1]))]

    def x_enumerate(self, args, kw, st):
        it = self.segments(args[0], st) if len(args) == 1 and not kw and (args[0][0] in ('obj', 'tuple', 'list')) else None
        if it is not None and all(x[0] == 'one' for x in it):
            return [(st, self.new(st, 'list', items=[('one', ('tuple', (c(i), x[1]))) for i, x in enumerate(it)]))]
        return [(st, ('enumerate', self.freeze(args[0], st)))] if len(args) == 1 else None

    def x_sum(self, args, kw, st):
        v = args[0]
        o = self.obj(v, st)
        return [(st, ('sum', self.freeze(v, st)))]

    def x_bool(self, args, kw, st):
        return [(s, c(b)) for s, b in self.decide(args[0], st)]

    def x_str(self, args, kw, st):
        o = self.obj(args[0], st) if args else None
        if o is not None and o.kind == 'inst':
            f = self.p.method(o.cls, '__str__') or self.p.method(o.cls, '__repr__')
            if f is not None:
                return self.invoke(f, [args[0]], {}, st, None)
        return [(st, ('str', self.freeze(args[0], st)))]

    def x_float(self, args, kw, st):
        if is_const(args[0]) and isinstance(args[0][1], (int, float)):
            return [(st, c(float(args[0][1])))]
        return [(st, ('float', self.freeze(args[0], st)))]

    def x_abspath(self, args, kw, st):
        return [(st, ('abspath', self.freeze(args[0], st)))]

    def x_getattr(self, args, kw, st):
        if is_const(args[1]):
            o = self.obj(args[0], st)
            if len(args) == 3 and o is not None and o.kind == 'inst':
                if self.lacks(o, args[1][1]):
                    return [(st, args[2])]
                if args[1][1] not in o.attrs and not self.p.method(o.cls, args[1][1]):
                    return [(st, ('getattr', self.freeze(args[0], st), args[1], self.freeze(args[2], st)))]
            return self.attr(args[0], args[1][1], st)
        return [(st, ('getattr', self.freeze(args[0], st), args[1]))]

    def x_setattr(self, args, kw, st):
        o = self.obj(args[0], st)
        if o is not None and is_const(args[1]):
            o.attrs[args[1][1]] = args[2]
        else:
            st.eff.append(('setattr', self.freeze(args[0], st), args[1], args[2]))
        return [(st, NONE)]

    def x_next(self, args, kw, st):
        v = args[0]
        if v[0] == 'gen':
            k, src, alts = v[1]
            hits = [(g, i[0]) for g, i in alts if len(i) == 1]
            s2 = st.copy()
            out = []
            for g, x in hits:
                s = st.copy()
                s.pc.append((('first', k, src, g), True))
                out.append((s, self.rename(x, k, ('first', src, g))))
            if len(args) > 1:
                s2.pc.append((('none', k, src, tuple(g for g, _ in hits)), True))
                out.append((s2, args[1]))
            else:
                s2.exc = ('StopIteration', None)
                s2.pc.append((('none', k, src, tuple(g for g, _ in hits)), True))
                out.append((s2, None))
            return out
        o = self.obj(v, st)
        if o is not None and o.kind == 'list' and not o.open:
            if o.items and o.items[0][0] == 'one':
                return [(st, o.items[0][1])]
            if not o.items:
                if len(args) > 1:
                    return [(st, args[1])]
                st.exc = ('StopIteration', None)
                return [(st, None)]
        return None

    def x_print(self, args, kw, st):
        st.eff.append(('print', tuple(self.freeze(a, st) for a in args)))
        return [(st, NONE)]

    def rename(self, v, k, n):
        if v == ('idx', k):
            return ('idx', n)
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] == 'elem' and v[2] == k:
                return ('elem', v[1], n)
            return tuple(self.rename(x, k, n) for x in v)
        return v

    def retag(self, s, e, i, j):
        """the state with object i called j"""
        def f(v):
            if isinstance(v, tuple):
                if len(v) == 2 and v == ('obj', i):
                    return ('obj', j)
                return tuple(f(x) for x in v)
            return v
        s.heap[j] = s.heap.pop(i)
        for o in s.heap.values():
            o.items = [f(x) for x in o.items]
            o.attrs = {a: f(v) for a, v in o.attrs.items()}
        s.eff = [f(x) for x in s.eff]
        s.pc = [f(x) for x in s.pc]
        s.known = {f(q): b for q, b in s.known.items()}
        return s, {a: f(v) if isinstance(v, tuple) else v for a, v in e.items()}

    def segments(self, v, st):
        o = self.obj(v, st)
        if o is not None and o.kind in ('list', 'set') and not o.open:
            return list(o.items)
        if v[0] == 'tuple':
            return [('one', x) for x in v[1]]
        if v[0] == 'list':
            return list(v[1:])
        if v[0] == 'gen':
            return [('each',) + v[1]]
        if v[0] in ('call', 'attr', 'sym', 'elem', 'item', 'range'):
            return [('all', v)]
        if v[0] == 'items' or v[0] == 'keys' or v[0] == 'values':
            o = self.obj(v[1], st)
            if o is not None and not o.open and all(x[0] in ('set', 'each') for x in o.items):
                f = {'items': lambda a, b: ('tuple', (a, b)), 'keys': lambda a, b: a, 'values': lambda a, b: b}[v[0]]
                out = []
                for x in o.items:
                    if x[0] == 'set':
                        out.append(('one', f(x[1], x[2])))
                    else:
                        return None
                return out
        return None

    def builtin_method(self, recv, name, args, kw, st):
        o = self.obj(recv, st)
        if o is not None and o.kind == 'list':
            if name == 'append':
                o.items.append(('one', args[0]))
                return [(st, NONE)]
            if name == 'extend':
                seg = self.segments(args[0], st)
                out = self.tolist(args[0], st)
                for s, v in out:
                    if not s.exc:
                        s.heap[recv[1]].items += s.heap[v[1]].items
                return [(s, NONE) for s, v in out]
            if name == 'copy':
                return [(st, self.new(st, 'list', items=o.items))] if not o.open else [(st, ('call', ('fn', 'copy'), (self.freeze(recv, st),), ()))]
            if name == 'clear':
                o.items, o.open = [], None
                return [(st, NONE)]
        if o is not None and o.kind == 'set' and name == 'add':
            o.items.append(('one', args[0]))
            return [(st, NONE)]
        if o is not None and o.kind == 'set' and name == 'update':
            o.items += self.segments(args[0], st) or [('all', args[0])]
            return [(st, NONE)]
        if o is not None and o.kind == 'dict':
            if name in ('keys', 'items', 'values'):
                return [(st, (name, recv))]
            if name == 'update':
                for a in args:
                    d = self.obj(a, st)
                    if d is not None and d.kind == 'dict' and not d.open:
                        o.items += list(d.items)
                    else:
                        o.items.append(('update', self.freeze(a, st)))
                o.items += [('set', c(n), v) for n, v in kw.items()]
                return [(st, NONE)]
            if name in ('pop', 'get', 'setdefault'):
                out = []
                for s, b in self.decide(('in', args[0], recv), st):
                    d = s.heap[recv[1]]
                    if b:
                        v = self.lookup(recv, args[0], s)
                        if name == 'pop':
                            n0 = len(d.items)
                            d.items = [x for x in d.items if not (x[0] == 'set' and x[1] == args[0])]
                            if len(d.items) == n0:
                                d.items.append(('del', args[0]))
                            s.known.pop(('in', args[0], recv), None)
                            s.known[('in', args[0], recv)] = False
                        out.append((s, v))
                    elif name == 'setdefault':
                        d.items.append(('set', args[0], args[1] if len(args) > 1 else NONE))
                        s.known.pop(('in', args[0], recv), None)
                        out.append((s, args[1] if len(args) > 1 else NONE))
                    elif name == 'pop' and len(args) == 1:
                        s.exc = ('KeyError', None)
                        out.append((s, None))
                    else:
                        out.append((s, args[1] if len(args) > 1 else NONE))
                return out
            if name == 'copy':
                d = self.new(st, 'dict', items=o.items)
                st.heap[d[1]].open = o.open
                return [(st, d)]
        if name == '__iter__':
            return [(st, recv)]
        if recv[0] == 'const' and isinstance(recv[1], str) and name == 'format':
            return [(st, ('fmt', recv, tuple(self.freeze(a, st) for a in args), tuple(sorted((n, self.freeze(v, st)) for n, v in kw.items()))))]
        if name == 'append' and len(args) == 1:
            st.eff.append(('append', self.freeze(recv, st), args[0]))
            return [(st, NONE)]
        if name in ('keys', 'items', 'values') and not args:
            return [(st, (name, recv))]
        st.eff.append(('call', ('meth', self.freeze(recv, st), name), tuple(args), tuple(sorted(kw.items()))))
        return [(st, ('call', ('meth', self.freeze(recv, st), name), tuple(self.freeze(a, st) for a in args), tuple(sorted((n, self.freeze(v, st)) for n, v in kw.items()))))]

    def inrange(self, d, key, st):
        """the subscript is certain not to raise"""
        o = self.obj(d, st)
        if o is not None and o.kind == 'dict':
            return any(x[0] == 'set' and x[1] == key for x in o.items)
        if not is_const(key):
            return False
        if not isinstance(key[1], int):
            return False
        if o is not None and o.kind == 'list':
            return not o.open and all(x[0] == 'one' for x in o.items) and -len(o.items) <= key[1] < len(o.items)
        return d[0] == 'tuple' and -len(d[1]) <= key[1] < len(d[1])

    def lookup(self, d, key, st):
        o = self.obj(d, st)
        if o is not None and o.kind == 'dict':
            for x in reversed(o.items):
                if x[0] == 'set' and x[1] == key:
                    return x[2]
                if x[0] == 'set' and self.differ(x[1], key, st):
                    continue
                break
            else:
                if o.open:
                    return ('item', ('prev', o.open), key)
            return ('item', self.freeze(d, st), key)
        if o is not None and o.kind == 'list' and is_const(key) and isinstance(key[1], int):
            it = o.items
            if not o.open and all(x[0] == 'one' for x in it) and -len(it) <= key[1] < len(it):
                return it[key[1]][1]
            if not o.open and key[1] >= 0 and all(x[0] == 'one' for x in it[:key[1] + 1]) and len(it) > key[1]:
                return it[key[1]][1]
            if len(it) == 1 and it[0][0] == 'all':
                return ('item', it[0][1], key)
        if d[0] == 'tuple' and is_const(key) and isinstance(key[1], int) and -len(d[1]) <= key[1] < len(d[1]):
            return d[1][key[1]]
        if d[0] == 'items' and False:
            return None
        return ('item', self.freeze(d, st), self.freeze(key, st))

    # ------------------------------------------------------------ names and attributes
    def name(self, n, env, st):
        e = env
        while e is not None:
            if n in e:
                return e[n]
            p = e.get('@parent')
            if p is None:
                break
            e = p
        return self.globalname(n, env['@fn'].mod, st)

    def globalname(self, n, m, st):
        if n in m.funcs:
            return ('func', (m.name, n))
        if n in m.classes:
            return ('class', n)
        if n in m.imports:
            lvl, mod, nm = m.imports[n]
            if lvl == 1 and mod in self.p.mods and nm:
                return self.globalname(nm, self.p.mods[mod], st)
            if nm is None:
                return ('ext', mod)
            return ('ext', (mod + '.' if mod else '') + nm)
        if n in m.assigns:
            return ('global', m.name, n)
        return ('ext', n)

    def mangle(self, a, env):
        if a.startswith('__') and not a.endswith('__'):
            e = env
            while e is not None:
                if e['@fn'].cls:
                    return '_%s%s' % (e['@fn'].cls.lstrip('_'), a)
                e = e.get('@parent')
        return a

    def lacks(self, o, a):
        """the instance has no attribute of that name: every class it is made of is known, or the name is private to its class"""
        if a in o.attrs or self.p.method(o.cls, a) or (a.startswith('__') and a.endswith('__')):
            return False
        mro = self.p.mro(o.cls)
        if any(a in self.p.classes[k]['consts'] for k in mro if k in self.p.classes):
            return False
        if any(self.p.method(o.cls, m) for m in ('__getattr__', '__getattribute__')):
            return False
        if any(a.startswith('_' + k + '__') for k in mro):
            return True
        return all(k in self.p.classes or k == 'object' for k in mro)

    def attr(self, v, a, st):
        o = self.obj(v, st)
        if o is not None and o.kind == 'inst':
            if a in o.attrs:
                return [(st, o.attrs[a])]
            f = self.p.method(o.cls, a)
            if f is not None:
                if f.prop:
                    return self.invoke(f, [v], {}, st, None)
                k = [x for x in self.p.fns if self.p.fns[x] is f][0]
                return [(st, ('func', k) if f.static else ('bound', v, k))]
            if a == '__class__':
                return [(st, ('class', o.cls))]
            if self.lacks(o, a):
                st.exc = ('AttributeError', c(a))
                return [(st, ('unk', 'noattr'))]
            return [(st, ('attr', ('self', o.cls, v[1]), a))]
        if o is not None or v[0] in ('tuple', 'list', 'items', 'keys', 'values'):
            return [(st, ('meth', v, a))]
        if v[0] == 'super':
            cls, self_ = v[1], v[2]
            f = self.p.method(cls if self_ is None or self.obj(self_, st) is None else self.obj(self_, st).cls, a, after=cls)
            if f is not None:
                return [(st, ('bound', self_, [x for x in self.p.fns if self.p.fns[x] is f][0]))]
            so = self.obj(self_, st) if self_ is not None else None
            return [(st, ('superext', ('self', so.cls, self_[1]) if so is not None else self_, a))]
        if v[0] == 'class':
            k = self.p.cls(v[1])
            f = self.p.method(v[1], a)
            if f is not None:
                return [(st, ('func', [x for x in self.p.fns if self.p.fns[x] is f][0]))]
            if k and a in k['consts']:
                return [(st, ('enum', v[1], a))]
            if a == '__name__':
                return [(st, c(v[1]))]
            return [(st, ('clsattr', v[1], a))]
        if v[0] == 'ext':
            return [(st, ('ext', v[1] + '.' + a))]
        if v[0] == 'global':
            return [(st, ('attr', v, a))]
        if v[0] == 'new':
            d = dict(v[2])
            return [(st, ('attr', v, a))]
        if is_const(v) and isinstance(v[1], str):
            return [(st, ('meth', v, a))]
        return [(st, ('attr', v, a))]

    # ------------------------------------------------------------ expressions
    def evs(self, nodes, st, env):
        """[(state, [values])]"""
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in res:
                if s.exc:
                    nxt.append((s, vs))
                    continue
                if isinstance(n, ast.Starred):
                    for s2, v in self.ev(n.value, s, env):
                        seg = self.segments(v, s2) if v else None
                        nxt.append((s2, vs + ([x[1] for x in seg] if seg is not None and all(x[0] == 'one' for x in seg) else [('star', v)])))
                else:
                    for s2, v in self.ev(n, s, env):
                        nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def ev(self, n, st, env):
        if st.exc:
            return [(st, None)]
        h = getattr(self, 'e_' + type(n).__name__, None)
        if h is None:
            return [(st, ('unk', self.fresh(type(n).__name__)))]
        return h(n, st, env)

    def e_Constant(self, n, st, env):
        return [(st, c(n.value))]

    def e_Name(self, n, st, env):
        return [(st, self.name(n.id, env, st))]

    def e_Attribute(self, n, st, env):
        out = []
        for s, v in self.ev(n.value, st, env):
            if s.exc:
                out.append((s, None))
            else:
                if v[0] == 'super' and v[2] is None:
                    e = env
                    while 'self' not in e and e.get('@parent'):
                        e = e['@parent']
                    v = ('super', v[1], e.get(e['@fn'].node.args.args[0].arg))
                out += self.attr(v, self.mangle(n.attr, env), s)
        return out

    def e_Tuple(self, n, st, env):
        return [(s, ('tuple', tuple(v)) if not s.exc else None) for s, v in self.evs(n.elts, st, env)]

    def e_List(self, n, st, env):
        out = []
        for s, vs in self.evs(n.elts, st, env):
            out.append((s, None) if s.exc else (s, self.new(s, 'list', items=[('all', v[1]) if v[0] == 'star' else ('one', v) for v in vs])))
        return out

    def e_Set(self, n, st, env):
        return [(s, None if s.exc else self.new(s, 'set', items=[('one', v) for v in vs])) for s, vs in self.evs(n.elts, st, env)]

    def e_Dict(self, n, st, env):
        out = []
        if any(k is None for k in n.keys):
            return [(st, ('unk', self.fresh('dict')))]
        for s, vs in self.evs([x for p in zip(n.keys, n.values) for x in p], st, env):
            out.append((s, None) if s.exc else (s, self.new(s, 'dict', items=[('set', vs[i], vs[i + 1]) for i in range(0, len(vs), 2)])))
        return out

    def e_Lambda(self, n, st, env):
        i = self.fresh('lam')
        f = Fn(n, env['@fn'].mod, env['@fn'].cls)
        self.lams[i] = (f, env)
        return [(st, ('lam', i))]

    def e_JoinedStr(self, n, st, env):
        out = []
        parts = [v.value if isinstance(v, ast.FormattedValue) else v for v in n.values]
        return [(s, None if s.exc else ('fmt', c('f'), tuple(self.freeze(v, s) for v in vs), ())) for s, vs in self.evs(parts, st, env)]

    def e_IfExp(self, n, st, env):
        out = []
        for s, b in self.cond(n.test, st, env):
            out += [(s, None)] if s.exc else self.ev(n.body if b else n.orelse, s, env)
        return out

    def e_BoolOp(self, n, st, env):
        isor = isinstance(n.op, ast.Or)
        res, out = [(st, None)], []
        for i, x in enumerate(n.values):
            nxt = []
            for s, _ in res:
                for s2, v in self.ev(x, s, env):
                    if s2.exc or i == len(n.values) - 1:
                        out.append((s2, v))
                        continue
                    for s3, b in self.decide(v, s2):
                        (out if b == isor else nxt).append((s3, v))
            res = nxt
        return out

    def e_UnaryOp(self, n, st, env):
        if isinstance(n.op, ast.Not):
            return [(s, None if s.exc else c(not b)) for s, b in self.cond(n.operand, st, env)]
        out = []
        for s, v in self.ev(n.operand, st, env):
            if s.exc:
                out.append((s, None))
            elif is_const(v) and isinstance(n.op, ast.USub) and isinstance(v[1], (int, float)):
                out.append((s, c(-v[1])))
            else:
                out.append((s, ('op', type(n.op).__name__, v)))
        return out

    OPS = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'Mod': '%', 'Pow': '**', 'FloorDiv': '//', 'BitOr': '|', 'BitAnd': '&'}

    def e_BinOp(self, n, st, env):
        out = []
        for s, (a, b) in [(s, v) if len(v) == 2 else (s, (None, None)) for s, v in self.evs([n.left, n.right], st, env)]:
            if s.exc:
                out.append((s, None))
                continue
            out.append((s, self.binop(self.OPS.get(type(n.op).__name__, '?'), a, b, s)))
        return out

    def binop(self, op, a, b, s):
        oa, ob = self.obj(a, s), self.obj(b, s)
        if op == '*':
            for x, y, ox in ((a, b, oa), (b, a, ob)):
                if ox is not None and ox.kind == 'list' and not ox.open and len(ox.items) == 1 and ox.items[0][0] == 'one':
                    return self.new(s, 'list', items=[('rep', ox.items[0][1], y)])
        if op == '+':
            la, lb = self.segments(a, s) if oa is not None or a[0] in ('list', 'call', 'attr') else None, self.segments(b, s) if ob is not None or b[0] in ('list', 'call', 'attr') else None
            if la is not None and lb is not None and (oa is not None or ob is not None or a[0] == 'list' or b[0] == 'list'):
                return self.new(s, 'list', items=la + lb)
            if a[0] == 'tuple' and b[0] == 'tuple':
                return ('tuple', a[1] + b[1])
        if is_const(a) and is_const(b):
            try:
                return c({'+': lambda: a[1] + b[1], '-': lambda: a[1] - b[1], '*': lambda: a[1] * b[1], '/': lambda: a[1] / b[1], '%': lambda: a[1] % b[1], '**': lambda: a[1] ** b[1], '//': lambda: a[1] // b[1]}[op]())
            except Exception:
                pass
        return ('op', op, self.freeze(a, s), self.freeze(b, s))

    def e_Compare(self, n, st, env):
        if len(n.ops) > 1:
            # a < b < c
            parts = []
            l = n.left
            for o, r in zip(n.ops, n.comparators):
                parts.append(ast.Compare(left=l, ops=[o], comparators=[r]))
                l = r
            return self.e_BoolOp(ast.BoolOp(op=ast.And(), values=parts), st, env)
        out = []
        for s, v in self.evs([n.left, n.comparators[0]], st, env):
            if s.exc:
                out.append((s, None))
                continue
            a, b = v
            o = type(n.ops[0]).__name__
            neg = o in ('NotEq', 'IsNot', 'NotIn', 'Gt', 'GtE')
            if o in ('Is', 'IsNot'):
                t = ('is', a, b) if b == NONE or a != NONE else ('is', b, a)
            elif o in ('Eq', 'NotEq'):
                a, b = self.freeze(a, s), self.freeze(b, s)
                t = ('==',) + tuple(sorted((a, b), key=repr))
                if b == NONE or a == NONE:
                    t = ('is', a if b == NONE else b, NONE)
                # type(x) == T
                for x, y in ((a, b), (b, a)):
                    if x[0] == 'type':
                        t = ('isinstance', x[1], y[1] if y[0] in ('class', 'ext') else y)
            elif o in ('In', 'NotIn'):
                t = ('in', a, b if self.obj(b, s) is not None else self.freeze(b, s))
                if b[0] == 'keys':
                    t = ('in', a, b[1])
            elif o in ('Lt', 'GtE'):
                t = ('<', a, b)
            elif o == 'LtE' or o == 'Gt':
                t = ('<=', a, b)
            else:
                t = ('cmp', o, a, b)
            for s2, r in self.decide(t, s):
                out.append((s2, c(r != neg)))
        return out

    def cond(self, n, st, env):
        out = []
        for s, v in self.ev(n, st, env):
            if s.exc:
                out.append((s, None))
            else:
                o = self.obj(v, s)
                if o is not None and o.kind == 'inst' and self.p.method(o.cls, '__len__') and not self.p.method(o.cls, '__bool__'):
                    for s2, l in self.invoke(self.p.method(o.cls, '__len__'), [v], {}, s, None):
                        out += self.decide(('not', ('==', c(0), l)) if not is_const(l) else c(bool(l[1])), s2) if not s2.exc else [(s2, None)]
                else:
                    out += self.decide(v, s)
        return out

    def e_Subscript(self, n, st, env):
        out = []
        if isinstance(n.slice, ast.Slice):
            for s, v in self.ev(n.value, st, env):
                if s.exc:
                    out.append((s, None))
                    continue
                bounds = [self.ev(x, s, env)[0][1] if x is not None else NONE for x in (n.slice.lower, n.slice.upper, n.slice.step)]
                out.append((s, ('slice', self.freeze(v, s)) + tuple(bounds)))
            return out
        for s, v in self.evs([n.value, n.slice], st, env):
            if s.exc:
                out.append((s, None))
                continue
            d, k = v
            o = self.obj(d, s)
            if o is not None and o.kind == 'inst':
                f = self.p.method(o.cls, '__getitem__')
                if f:
                    out += self.invoke(f, [d, k], {}, s, None)
                    continue
            if o is not None and o.kind == 'dict':
                fac = o.attrs.get('@factory')
                kn = ('in', k, d)
                if fac is not None and fac != NONE:
                    for s2, b in self.decide(kn, s):
                        if b:
                            out.append((s2, self.lookup(d, k, s2)))
                        else:
                            for s3, nv in self.call(fac, [], {}, s2):
                                s3.heap[d[1]].items.append(('set', k, nv))
                                s3.known.pop(kn, None)
                                out.append((s3, nv))
                    continue
                r = self.truth(kn, s)
                if r is False:
                    s.exc = ('KeyError', k)
                    out.append((s, None))
                    continue
            if s.trying and not self.inrange(d, k, s):
                t = ('raises', self.freeze(d, s), k)
                for s2, b in self.decide(t, s):
                    if b:
                        s2.exc = ('?item', None)
                        out.append((s2, None))
                    else:
                        out.append((s2, self.lookup(d, k, s2)))
                continue
            out.append((s, self.lookup(d, k, s)))
        return out

    def e_Call(self, n, st, env):
        out = []
        for s, fv in self.ev(n.func, st, env):
            if s.exc:
                out.append((s, None))
                continue
            for s2, vs in self.evs(n.args, s, env):
                if s2.exc:
                    out.append((s2, None))
                    continue
                kws = [k for k in n.keywords]
                for s3, kvs in self.evs([k.value for k in kws], s2, env):
                    if s3.exc:
                        out.append((s3, None))
                        continue
                    kw, bad = {}, False
                    for k, v in zip(kws, kvs):
                        if k.arg is None:
                            o = self.obj(v, s3)
                            if o is not None and not o.open and all(x[0] == 'set' and is_const(x[1]) for x in o.items):
                                for x in o.items:
                                    if x[1][1] in kw:
                                        bad = True
                                    kw[x[1][1]] = x[2]
                            else:
                                kw['**'] = v
                        else:
                            bad |= k.arg in kw
                            kw[k.arg] = v
                    if bad:
                        s3.exc = ('TypeError', c('two values for an argument'))
                        out.append((s3, None))
                        continue
                    if fv[0] == 'superext':
                        s3.eff.append(('super', fv[1], fv[2], tuple(vs), tuple(sorted(kw.items()))))
                        out.append((s3, ('call', ('meth', fv[1], 'super.' + fv[2]), tuple(self.freeze(x, s3) for x in vs), ())))
                        continue
                    if fv[0] == 'clsattr' or (fv[0] == 'ext' and fv[1].endswith('.__init__')):
                        so = self.obj(vs[0], s3) if vs else None
                        s3.eff.append(('super', ('self', so.cls, vs[0][1]) if so is not None else vs[0] if vs else None, fv[-1], tuple(vs[1:]), tuple(sorted(kw.items()))))
                        out.append((s3, NONE))
                        continue
                    out += self.call(fv, vs, kw, s3, n)
        return out

    def e_ListComp(self, n, st, env):
        return self.comp(n, st, env, 'list')

    def e_GeneratorExp(self, n, st, env):
        out = []
        for s, v in self.comp(n, st, env, 'list'):
            o = self.obj(v, s) if v else None
            if o is not None and not o.open and len(o.items) == 1 and o.items[0][0] == 'each':
                out.append((s, ('gen', o.items[0][1:])))
            else:
                out.append((s, v))
        return out

    def e_SetComp(self, n, st, env):
        return self.comp(n, st, env, 'set')

    def e_DictComp(self, n, st, env):
        return self.comp(n, st, env, 'dict')

    def comp(self, n, st, env, kind):
        """a comprehension is the loop that builds it"""
        name = self.fresh('@comp')
        acc = self.new(st, kind)
        env2 = {'@fn': env['@fn'], '@parent': env, name: acc}
        if kind == 'dict':
            body = [ast.Assign(targets=[ast.Subscript(value=ast.Name(id=name, ctx=ast.Load()), slice=n.key, ctx=ast.Store())], value=n.value)]
        else:
            body = [ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=name, ctx=ast.Load()), attr='append' if kind == 'list' else 'add', ctx=ast.Load()), args=[n.elt], keywords=[]))]
        for g in reversed(n.generators):
            for t in reversed(g.ifs):
                body = [ast.If(test=t, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
        for b in body:
            ast.fix_missing_locations(ast.copy_location(b, n))
        out = []
        for s, e in self.block(body, [(st, env2)]):
            out.append((s, None if s.exc else acc))
        return out

    # ------------------------------------------------------------ statements
    def block(self, body, states):
        for n in body:
            nxt = []
            for s, e in states:
                if s.exc or s.flow:
                    nxt.append((s, e))
                else:
                    nxt += self.stmt(n, s, e)
            states = nxt
            if len(states) > MAXSTATES:
                raise TooMany()
        return states

    def stmt(self, n, st, env):
        h = getattr(self, 's_' + type(n).__name__, None)
        if h is None:
            st.eff.append(('unk', type(n).__name__))
            return [(st, env)]
        return h(n, st, env)

    def s_Expr(self, n, st, env):
        return [(s, env) for s, v in self.ev(n.value, st, env)]

    def s_Pass(self, n, st, env):
        return [(st, env)]

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass

    def s_FunctionDef(self, n, st, env):
        i = self.fresh('lam')
        self.lams[i] = (Fn(n, env['@fn'].mod, env['@fn'].cls), env)
        env[n.name] = ('lam', i)
        return [(st, env)]

    def s_Return(self, n, st, env):
        out = []
        for s, v in (self.ev(n.value, st, env) if n.value is not None else [(st, NONE)]):
            if not s.exc:
                s.flow, s.ret = 'return', v
            out.append((s, env))
        return out

    def s_Break(self, n, st, env):
        st.flow = 'break'
        return [(st, env)]

    def s_Continue(self, n, st, env):
        st.flow = 'continue'
        return [(st, env)]

    def s_Raise(self, n, st, env):
        if n.exc is None:
            st.exc = ('?', None)
            return [(st, env)]
        out = []
        for s, v in self.ev(n.exc, st, env):
            if not s.exc:
                s.exc = (v[1] if v[0] == 'exc' else (v[1] if v[0] == 'ext' else '?'), None)
            out.append((s, env))
        return out

    def s_Assert(self, n, st, env):
        out = []
        for s, b in self.cond(n.test, st, env):
            if not s.exc and not b:
                s.exc = ('AssertionError', None)
            out.append((s, env))
        return out

    def s_Delete(self, n, st, env):
        out = [(st, env)]
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                d, k = self.ev(t.value, st, env)[0][1], self.ev(t.slice, st, env)[0][1]
                o = self.obj(d, st)
                if o is not None and o.kind == 'dict':
                    o.items = [x for x in o.items if not (x[0] == 'set' and x[1] == k)] + [('del', k)]
                    st.known[('in', k, d)] = False
        return out

    def s_If(self, n, st, env):
        out = []
        for s, b in self.cond(n.test, st, env):
            if s.exc:
                out.append((s, env))
                continue
            out += self.block(n.body if b else n.orelse, [(s, self.cenv(env))])
        return out

    def cenv(self, env):
        return dict(env)

    def assign(self, t, v, st, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
            return [(st, env)]
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = None
            if v[0] == 'tuple' and len(v[1]) == len(t.elts):
                vs = v[1]
            else:
                seg = self.segments(v, st)
                if seg is not None and all(x[0] == 'one' for x in seg) and len(seg) == len(t.elts):
                    vs = [x[1] for x in seg]
            if vs is None:
                vs = [('item', self.freeze(v, st), c(i)) for i in range(len(t.elts))]
            res = [(st, env)]
            for x, y in zip(t.elts, vs):
                res = [r for s, e in res for r in self.assign(x, y, s, e)]
            return res
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st, env):
                if not s.exc:
                    ob = self.obj(o, s)
                    a = self.mangle(t.attr, env)
                    if ob is not None:
                        ob.attrs[a] = v
                    else:
                        s.eff.append(('setattr', self.freeze(o, s), c(a), v))
                out.append((s, env))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, vs in self.evs([t.value, t.slice], st, env):
                if not s.exc:
                    o = self.obj(vs[0], s)
                    if o is not None and o.kind == 'dict':
                        if not o.open:
                            o.items = [x for x in o.items if not (x[0] == 'set' and x[1] == vs[1])]
                        o.items.append(('set', vs[1], v))
                        s.known.pop(('in', vs[1], vs[0]), None)
                        for k in [k for k in s.known if k[0] == 'in' and k[2] == vs[0] and s.known[k] is False]:
                            s.known.pop(k)
                    else:
                        s.eff.append(('setitem', self.freeze(vs[0], s), vs[1], v))
                out.append((s, env))
            return out
        st.eff.append(('unk', 'assign'))
        return [(st, env)]

    def s_Assign(self, n, st, env):
        out = []
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.BinOp) and isinstance(n.value.op, ast.Add) and isinstance(n.value.left, ast.Name) and n.value.left.id == n.targets[0].id:
            o = self.obj(env.get(n.targets[0].id) or ('?',), st)
            if o is not None and o.kind == 'list':
                return self.s_AugAssign(ast.copy_location(ast.AugAssign(target=n.targets[0], op=n.value.op, value=n.value.right), n), st, env)
        for s, v in self.ev(n.value, st, env):
            if s.exc:
                out.append((s, env))
                continue
            res = [(s, self.cenv(env))]
            for t in n.targets:
                res = [r for s2, e in res for r in self.assign(t, v, s2, e)]
            out += res
        return out

    def s_AnnAssign(self, n, st, env):
        return self.s_Assign(ast.Assign(targets=[n.target], value=n.value), st, env) if n.value is not None else [(st, env)]

    def s_AugAssign(self, n, st, env):
        out = []
        tl = ast.fix_missing_locations(ast.copy_location(ast.parse(ast.unparse(n.target), mode='eval').body, n))
        for s, vs in self.evs([tl, n.value], st, env):
            if s.exc:
                out.append((s, env))
                continue
            a, b = vs
            o = self.obj(a, s)
            if o is not None and o.kind == 'list' and isinstance(n.op, ast.Add):
                for s2, _ in self.builtin_method(a, 'extend', [b], {}, s):
                    out.append((s2, env))
                continue
            if o is not None and o.kind == 'set' and isinstance(n.op, ast.BitOr):
                self.builtin_method(a, 'update', [b], {}, s)
                out.append((s, env))
                continue
            out += self.assign(n.target, self.binop(self.OPS.get(type(n.op).__name__, '?'), a, b, s), s, self.cenv(env))
        return out

    def s_With(self, n, st, env):
        return self.block(n.body, [(st, env)])

    def s_Try(self, n, st, env):
        st.trying += 1
        res = self.block(n.body, [(st, env)])
        out = []
        for s, e in res:
            s.trying -= 1
            if s.exc is None:
                if s.flow is None and n.orelse:
                    out += self.block(n.orelse, [(s, e)])
                else:
                    out.append((s, e))
                continue
            t = s.exc[0]
            done = False
            for h in n.handlers:
                names = ['Exception'] if h.type is None else ([ast.unparse(h.type)] if not isinstance(h.type, ast.Tuple) else [ast.unparse(x) for x in h.type.elts])
                if t == '?' or (t == '?item' and {'KeyError', 'IndexError', 'TypeError', 'LookupError'} & set(names)) or t in names or 'Exception' in names or 'BaseException' in names:
                    s.exc = None
                    if h.name:
                        e = dict(e)
                        e[h.name] = ('unk', self.fresh('exc'))
                    out += self.block(h.body, [(s, e)])
                    done = True
                    break
            if not done:
                out.append((s, e))
        if n.finalbody:
            fin = []
            for s, e in out:
                x, fl, rv = s.exc, s.flow, s.ret
                s.exc, s.flow = None, None
                for s2, e2 in self.block(n.finalbody, [(s, e)]):
                    if s2.exc is None and s2.flow is None:
                        s2.exc, s2.flow, s2.ret = x, fl, rv
                    fin.append((s2, e2))
            out = fin
        return out

    def s_While(self, n, st, env):
        st.eff.append(('unk', 'while'))
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                env[x.id] = ('unk', self.fresh('while'))
        return [(st, env)]

    def elem(self, v, k, st):
        """element k of a sequence term"""
        o = self.obj(v, st)
        seg = None
        if o is not None and o.kind in ('list', 'set') and not o.open:
            seg = o.items
        elif v[0] == 'list':
            seg = list(v[1:])
        if seg is not None and len(seg) == 1:
            x = seg[0]
            if x[0] == 'rep':
                return x[1]
            if x[0] == 'all':
                return self.elem(x[1], k, st)
            if x[0] == 'each' and len(x[3]) == 1 and len(x[3][0][1]) == 1 and x[3][0][1][0][0] == 'one':
                return self.rename(x[3][0][1][0][1], x[1], k)
        if v[0] == 'range':
            return ('idx', k)
        if v[0] == 'zip':
            return ('tuple', tuple(self.elem(x, k, st) for x in v[1]))
        if v[0] == 'enumerate':
            return ('tuple', (('idx', k), self.elem(v[1], k, st)))
        if v[0] == 'items' and self.obj(v[1], st) is None:
            return ('tuple', (('elem', ('keys', v[1]), k), ('item', v[1], ('elem', ('keys', v[1]), k))))
        return ('elem', self.freeze(v, st), k)

    def s_For(self, n, st, env):
        out = []
        for s, it in self.ev(n.iter, st, env):
            if s.exc:
                out.append((s, env))
                continue
            o = self.obj(it, s)
            if o is not None and o.kind == 'inst':
                f = self.p.method(o.cls, '__iter__')
                if f is not None:
                    for s2, v in self.invoke(f, [it], {}, s, None):
                        out += [(s2, env)] if s2.exc else self.loop(n, v, s2, env)
                    continue
            out += self.loop(n, it, s, env)
        return out

    def loop(self, n, it, st, env):
        o = self.obj(it, st)
        if o is not None and o.kind == 'inst':
            f = self.p.method(o.cls, '__iter__')
            if f is not None:
                out = []
                for s2, v in self.invoke(f, [it], {}, st, None):
                    out += [(s2, env)] if s2.exc else self.loop(n, v, s2, env)
                return out
        if o is not None and o.kind == 'dict':
            it = ('keys', it)
        seg = self.segments(it, st)
        if seg is not None and not (len(seg) == 1 and seg[0][0] in ('all', 'rep') and it[0] != 'obj') or (it[0] in ('keys', 'items', 'values') and self.obj(it[1], st) is not None and not self.obj(it[1], st).open):
            if seg is None:
                d = self.obj(it[1], st)
                f = {'items': lambda a, b: ('tuple', (a, b)), 'keys': lambda a, b: a, 'values': lambda a, b: b}[it[0]]
                seg = []
                for x in d.items:
                    if x[0] == 'set':
                        seg.append(('one', f(x[1], x[2])))
                    elif x[0] == 'each' and len(x[3]) == 1 and len(x[3][0][1]) == 1 and x[3][0][1][0][0] == 'set':
                        e = x[3][0][1][0]
                        seg.append(('each', x[1], x[2], ((x[3][0][0], (('one', f(e[1], e[2])),)),)))
                    else:
                        seg = None
                        break
            if seg is not None:
                # run over the segments one after the other
                states = [(st, self.cenv(env))]
                for x in seg:
                    nxt = []
                    for s, e in states:
                        if s.exc or s.flow:
                            nxt.append((s, e))
                            continue
                        if x[0] == 'one':
                            for s2, e2 in self.assign(n.target, x[1], s, self.cenv(e)):
                                for s3, e3 in self.block(n.body, [(s2, e2)]):
                                    if s3.flow == 'continue':
                                        s3.flow = None
                                    nxt.append((s3, e3))
                        elif x[0] == 'all':
                            nxt += self.generic(n, x[1], None, (), s, e)
                        elif x[0] == 'rep':
                            nxt += self.generic(n, ('list', x), None, (), s, e)
                        elif x[0] == 'each':
                            alts = [(g, i[0][1]) for g, i in x[3] if len(i) == 1 and i[0][0] == 'one']
                            if len(alts) != len([1 for g, i in x[3] if i]):
                                nxt += self.generic(n, ('list', x), None, (), s, e)
                            else:
                                nxt += self.generic(n, x[2], x[1], alts, s, e)
                        else:
                            nxt += self.generic(n, ('list', x), None, (), s, e)
                    states = nxt
                res = []
                for s, e in states:
                    if s.flow == 'break':
                        s.flow = None
                    res.append((s, e))
                return res
        return self.generic(n, self.freeze(it, st) if it[0] in ('zip', 'enumerate') else it, None, (), st, env)

    def generic(self, n, src, k0, alts, st, env):
        """one generic iteration over src; alts: (guard, value) of the element when the source is itself a summarised list (over index k0)"""
        own = k0 is not None and k0 not in self.active and any(o.owner == k0 for o in st.heap.values())
        k = k0 if own else self.fresh('k')
        if k0 is not None and not own:
            alts = [(self.rename(g, k0, k), self.rename(v, k0, k)) for g, v in alts]
        elif own:
            alts = list(alts)
        else:
            alts = [((), self.elem(src, k, st))]
        stored = {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}

        def run(mutated, vs=(), ats=()):
            res = []
            for g, v in alts:
                s = st.copy()
                s.pc, s.eff = [], []
                for cnd, b in g:
                    s.known[cnd] = b
                    s.pc.append((cnd, b))
                for i in mutated:
                    ob = s.heap[i]
                    ob.open = ('%s' % i, k)
                    ob.items = []
                    for q in [q for q in s.known if q[0] == 'in' and q[2] == ('obj', i)]:
                        s.known.pop(q)
                e = dict(env)
                for x in vs:
                    e[x] = ('prev', (x, k))
                for i, a in ats:
                    s.heap[i].attrs[a] = ('prev', ('%s.%s' % (i, a), k))
                for s2, e2 in self.assign(n.target, v, s, e):
                    res += self.block(n.body, [(s2, e2)])
            return res

        def changed(res):
            m = set()
            for s, e in res:
                for i, ob in st.heap.items():
                    b = s.heap[i]
                    if own and ob.owner == k:
                        continue
                    if b.items != ob.items and b.kind in ('list', 'dict', 'set'):
                        m.add(i)
            return m
        self.active.append(k)
        try:
            res = run(())
            m = changed(res)
            target = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
            # what an iteration changes is not known at the start of the next one
            vs = {x for x in stored - target if x in env and any(e.get(x) != env[x] for s, e in res)}
            ats = {(i, a) for s, e in res for i, ob in st.heap.items() if not (own and ob.owner == k) for a, v in s.heap[i].attrs.items() if a in ob.attrs and ob.attrs[a] != v}
            if m or vs or ats:
                res = run(m, vs, ats)
        finally:
            self.active.pop()
        out = []
        done = [(s, e) for s, e in res if s.exc is None and s.flow in (None, 'continue')]
        for s, e in res:
            if s.exc is not None or s.flow == 'return':
                t = st.copy()
                t.pc.append((('exists', k, self.freeze(src, st), tuple(s.pc)), True))
                t.eff = t.eff + [('each', k, self.freeze(src, st), (((), tuple(s.eff)),))] if s.eff else t.eff
                t.exc, t.flow, t.ret = s.exc, s.flow, s.ret
                # objects created in the iteration stay reachable from what it returns
                for i, ob in s.heap.items():
                    if i not in t.heap:
                        t.heap[i] = ob
                out.append((t, env))
        # objects created before the alternatives part, with different contents in each
        for a in range(1, len(done)):
            s, e = done[a]
            for i in [i for i in s.heap if i not in st.heap]:
                if any(i in t.heap and (t.heap[i].items != s.heap[i].items or t.heap[i].attrs != s.heap[i].attrs) for t, _ in done[:a]):
                    j = self.fresh(str(i).split('#')[0])
                    done[a] = s, e = self.retag(s, e, i, j)
        fin = st.copy()
        broke = [s for s, e in res if s.flow == 'break']
        if broke:
            fin.eff.append(('unk', 'break'))
        for s, e in done:
            for i, ob in s.heap.items():
                if i not in fin.heap:
                    fin.heap[i] = ob.copy()
                    if ob.owner is None:
                        fin.heap[i].owner = k
        if own:
            for i, ob in st.heap.items():
                if ob.owner == k:
                    vs = [s.heap[i] for s, e in done]
                    if vs and all(x.items == vs[0].items and x.attrs == vs[0].attrs and x.open == vs[0].open for x in vs):
                        fin.heap[i] = vs[0].copy()
                    elif vs:
                        fin.heap[i].open = ('unk', k)
        fsrc = self.freeze(src, st)
        for i in m:
            al = tuple((tuple(s.pc), tuple(s.heap[i].items)) for s, e in done)
            if al and all(a[1] == al[0][1] for a in al):
                al = (((), al[0][1]),)
            if any(a[1] for a in al):
                fin.heap[i].items.append(('each', k, fsrc, al))
        for i, ob in st.heap.items():
            if own and ob.owner == k:
                continue
            for a in {a for s, e in done for a in s.heap[i].attrs}:
                vals = {s.heap[i].attrs.get(a) for s, e in done}
                if vals != {ob.attrs.get(a)}:
                    fin.heap[i].attrs[a] = ('after', k, fsrc, tuple((tuple(s.pc), s.heap[i].attrs.get(a)) for s, e in done))
        al = tuple((tuple(s.pc), tuple(s.eff)) for s, e in done)
        if any(a[1] for a in al):
            if all(a[1] == al[0][1] for a in al):
                al = (((), al[0][1]),)
            fin.eff.append(('each', k, fsrc, al))
        e2 = dict(env)
        for x in stored:
            if x in env and not res or x in env and all(e.get(x) == env[x] for s, e in done) and done:
                continue
            e2[x] = ('after', k, fsrc, tuple((tuple(s.pc), e.get(x)) for s, e in done))
        if done or not res:
            states = [(fin, e2)]
            if n.orelse:
                states = self.block(n.orelse, states)
            out += states
        elif not broke and any(s.exc is not None or s.flow == 'return' for s, e in res):
            # every iteration leaves the loop: it completes only when there is none
            fin.pc.append((('empty', fsrc), True))
            out.append((fin, e2))
        else:
            out.append((fin, e2))
        return out


# ---------------------------------------------------------------- entry points
def run(prog, code, assume=None, opaque=(), names=None, mod='measurement_config', depth=12, hook=None, rec=2):
    """abstractly execute a snippet (the body of a function) in the scope of a module: [(state, returned value)]
    names: free variables bound to symbols; assume: {condition term: bool}"""
    it = Interp(prog, opaque, depth)
    it.hook = hook
    it.rec = rec
    m = prog.mods[mod]
    fn = Fn(ast.parse('def snippet():\n' + '\n'.join('    ' + l for l in code.strip('\n').split('\n'))).body[0], m)
    st = St()
    st.known = dict(assume or {})
    env = {'@fn': fn}
    for n in names or ():
        env[n] = ('sym', n)
    # every class of the package is visible to the snippet
    for x in prog.classes:
        env.setdefault(x, ('class', x))
    for mm in prog.mods.values():
        for f in mm.funcs:
            env.setdefault(f, ('func', (mm.name, f)))
    it.stack.append(fn)
    out = []
    for s, e in it.block(fn.node.body, [(st, env)]):
        out.append((s, s.ret if s.flow == 'return' else NONE))
    run.last = it
    return out


def sym(n):
    return ('sym', n)


def lost(v):
    """parts of a value the abstraction does not know"""
    out = []

    def f(x):
        if isinstance(x, tuple):
            if x and x[0] in ('unk', 'after', 'prev') and len(x) > 1:
                out.append(x)
            for y in x:
                f(y)
    f(v)
    return out


def show(v, n=200):
    def f(x):
        if not isinstance(x, tuple):
            return str(x)
        if not x:
            return '()'
        if x[0] == 'const':
            return repr(x[1])
        if x[0] == 'sym':
            return str(x[1])
        if x[0] == 'attr':
            return '%s.%s' % (f(x[1]), x[2])
        if x[0] == 'item':
            return '%s[%s]' % (f(x[1]), f(x[2]))
        if x[0] == 'elem':
            return '%s[%s]' % (f(x[1]), x[2])
        if x[0] == 'op' and len(x) == 4:
            return '(%s %s %s)' % (f(x[2]), x[1], f(x[3]))
        if x[0] in ('list', 'set', 'dict'):
            return '%s[%s]' % ('' if x[0] == 'list' else x[0], ', '.join(f(y) for y in x[1:]))
        if x[0] == 'one':
            return f(x[1])
        if x[0] == 'set_':
            return '%s: %s' % (f(x[1]), f(x[2]))
        if x[0] == 'tuple' and len(x) == 2:
            return '(%s)' % ', '.join(f(y) for y in x[1])
        if x[0] == 'each' and len(x) == 4:
            return '{%s in %s: %s}' % (x[1], f(x[2]), ' | '.join((' & '.join(('' if b else '!') + f(q) for q, b in g) + ' ? ' if g else '') + ', '.join(f(y) for y in i) for g, i in x[3]))
        if x[0] in ('new', 'inst'):
            return '%s(%s)' % (x[1], ', '.join('%s=%s' % (n, f(y)) for n, y in x[2]))
        if x[0] == 'call':
            return '%s(%s)' % (f(x[1]), ', '.join([f(y) for y in x[2]] + ['%s=%s' % (a, f(b)) for a, b in x[3]]))
        return '%s(%s)' % (x[0], ', '.join(f(y) for y in x[1:]))
    r = f(v)
    return r if len(r) <= n else r[:n] + '...'
