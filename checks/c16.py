"""C16: every output column and every property a task asks for has a producer, a factory hands out a task that stores what was asked for, and the chain of requests ends."""
from sx.util import *
from sx.facts import walk
from sx.interp import strip_targs
from sx.props import first_targ, short
from checks import c15

NS = 'SourceXtractor::'
GET, SET, SETI = ('getProperty', 'setProperty', 'setIndexedProperty')
OWNER = NS + 'SourceInterface', NS + 'SourceGroupInterface', NS + 'PropertyHolder'
PID, TH, IDX = sym('pid', 'o'), sym('factory', 'o'), sym('index', 'i')


def targs(ta):
    r, rest = [], ta or ''
    rest = rest.strip()
    if rest.startswith('<'):
        rest = rest[1:-1]
    while rest:
        a, rest = first_targ('<' + rest + '>')
        if a:
            r.append(a)
    return r


def nodes(x):
    return (n for n in walk(x) if isinstance(n, dict))


def peel(n):
    while isinstance(n, dict):
        k = n.get('k')
        if k == 'cast':
            n = n['e']
        elif k == 'un' and n.get('op') in ('*', '&'):
            n = n['e']
        elif k == 'call' and n.get('n') in ('move', 'forward', 'ref', 'cref') and len(n.get('args', ())) == 1:
            n = n['args'][0]
        elif k == 'call' and n.get('op') in ('*', '->') and n.get('obj') is not None and not n.get('args'):
            n = n['obj']
        elif k == 'call' and n.get('n') in ('getRef', 'get') and n.get('obj') is not None and not n.get('args'):
            n = n['obj']
        elif k == 'ctor' and len(n.get('args', ())) == 1 and strip_targs(n.get('q', '')) == 'std::reference_wrapper':
            n = n['args'][0]
        else:
            return n
    return n


def literal(n):
    """a string literal or None"""
    ss = [x['v'] for x in nodes(n) if x.get('k') == 'str']
    return ss[0] if len(ss) == 1 and not any(x.get('k') in ('ref', 'mem') or x.get('op') == '+' for x in nodes(n)) else None


# ---------------------------------------------------------------- who asks for what
class Tree:
    """calls, reads and writes of properties by function"""

    def __init__(self, F):
        self.F = F
        self.reads, self.calls, self.done = {}, {}, {}
        self.over = {}

    def propcall(self, n):
        if n.get('k') == 'call' and n.get('n') in (GET, SET, SETI) and n.get('ta') and strip_targs(n.get('q', '')).rsplit('::', 1)[0] in OWNER:
            ps = targs(n['ta'])
            if ps and ps[0].startswith(NS):
                return short(ps[0])
        return None

    def index(self, n):
        a = n['args']
        return peel(a[0]) if a else None

    def callees(self, n):
        f = self.F.funcs.get(n.get('key'))
        r = []
        if f is not None and f.get('body'):
            r.append(f)
        if n.get('virt'):
            if n['key'] not in self.over:
                self.over[n['key']] = [g for g in self.F.overriders.get(n['key'], ()) if g.get('body')]
            r += self.over[n['key']]
        return r

    def sets(self, call):
        """may the call store properties?"""
        gs = self.callees(call)
        if not gs:
            return not call.get('q', '').startswith('std::')
        seen, todo = set(), list(gs)
        while todo:
            g = todo.pop()
            if g['key'] in seen:
                continue
            seen.add(g['key'])
            if g['key'] not in self.done:
                self.done[g['key']] = any(n.get('k') == 'call' and n.get('n') in (SET, SETI) for b in [g.get('body')] + list(g.get('inits') or []) for n in nodes(b))
            if self.done[g['key']]:
                return True
            todo += self.direct(g)[1]
        return False

    def direct(self, f):
        if f['key'] not in self.reads:
            rd_, cs = [], []
            bodies = [f.get('body')] + [i for i in f.get('inits') or []]
            for b in bodies:
                for n in nodes(b):
                    p = self.propcall(n)
                    if p and n['n'] == GET:
                        rd_.append((p, n))
                    elif n.get('k') in ('call', 'ctor') and not p:
                        cs += self.callees(n)
            self.reads[f['key']], self.calls[f['key']] = rd_, cs
        return self.reads[f['key']], self.calls[f['key']]

    def reach(self, f, keep=lambda g: True):
        """(property, call, function) read by f or anything it calls"""
        seen, todo, out = {f['key']}, [f], []
        while todo:
            g = todo.pop()
            r, cs = self.direct(g)
            out += [(p, n, g) for p, n in r]
            for c in cs:
                if c['key'] not in seen and keep(c):
                    seen.add(c['key'])
                    todo.append(c)
        return out


# ---------------------------------------------------------------- what is stored on every normal path
class Must:
    """facts that hold on every normal way through a body; facts only grow.  Each exit maps to a set or None (never taken)."""

    def __init__(self, F, tree, hope=False):
        self.F, self.tree, self.hope = F, tree, hope

    def join(self, a, b):
        if a is None or b is None:
            return b if a is None else a
        if self.hope and ('?' in a) != ('?' in b):
            return b if '?' in a else a         # something not understood may store everything
        return a & b

    def stored(self, f, whos, params=None, depth=0):
        """facts at the normal exits of f; whos: parameter position -> name"""
        env = {p['id']: whos[i] for i, p in enumerate(f['params']) if i in whos}
        par = {p['id']: (params or {}).get(i, ('?',)) for i, p in enumerate(f['params'])}
        self.depth = depth
        o = self.st(f['body'], frozenset(), env, par)
        return self.join(o['next'], o['ret'])

    def out(self, nxt):
        return {'next': nxt, 'ret': None, 'brk': None, 'cont': None}

    def who(self, n, env):
        n = peel(n)
        if isinstance(n, dict) and n.get('k') == 'ref':
            return env.get(n.get('id'))
        return None

    def key(self, n, par):
        n = peel(n)
        if not isinstance(n, dict):
            return ('?',)
        if n.get('k') == 'int':
            return ('int', n['v'])
        if n.get('k') == 'mem' and peel(n.get('b') or {'k': 'this'}).get('k') == 'this':
            return ('field', n['n'])
        if n.get('k') == 'ref' and n.get('id') in par:
            return par[n['id']]
        return ('?',)

    def expr(self, n, facts, env, par):
        if n is None:
            return facts
        add = set()
        for x in nodes(n):
            if x.get('k') in ('cond', 'lambda') or x.get('k') == 'bin' and x.get('op') in ('&&', '||'):
                # only evaluated sometimes
                if any(self.tree.propcall(y) and y['n'] != GET for y in nodes(x)):
                    add.add('?')
        if '?' in add:
            return facts | {'?'}
        for x in nodes(n):
            if x.get('k') != 'call':
                if x.get('k') == 'ctor' and any(self.who(a, env) for a in x.get('args', ())) and not x.get('q', '').startswith('std::') and self.tree.sets(x):
                    add.add('?')
                continue
            p = self.tree.propcall(x)
            if p and x['n'] in (SET, SETI):
                w = self.who(x.get('obj'), env)
                if w is None:
                    add.add('?')
                    continue
                add.add((p, ('int', 0) if x['n'] == SET else self.key(x['args'][0], par), w))
                continue
            if p or x.get('n') in ('begin', 'end', 'size', 'cbegin', 'cend'):
                continue
            if x.get('n') == SET and self.who(x.get('obj'), env):
                add.add('?')
                continue
            pos = {i: self.who(a, env) for i, a in enumerate(x.get('args', ())) if self.who(a, env)}
            if not pos:
                continue
            g = self.F.funcs.get(x.get('key'))
            pm = x.get('pm', '')
            if all(i < len(pm) and pm[i] in 'cv' for i in pos) and not (g and g.get('body')):
                continue
            if not self.tree.sets(x):
                continue
            gs = [g] if g is not None and g.get('body') and not x.get('virt') else self.tree.callees(x)
            if not gs or self.depth > 5:
                add.add('?')
                continue
            res = None
            for g in gs:
                sub_ = Must(self.F, self.tree, self.hope)
                names = {i: '#%d' % i for i in pos}
                r = sub_.stored(g, names, {i: self.key(a, par) for i, a in enumerate(x['args'])}, self.depth + 1)
                if r is None:
                    continue
                m = set()
                for y in r:
                    if y == '?':
                        m.add('?')
                    else:
                        base, each = (y[2][:-5], True) if y[2].endswith('/each') else (y[2], False)
                        i = int(base[1:]) if base.startswith('#') and base[1:].isdigit() else None
                        if i is None:
                            continue
                        m.add((y[0], y[1] if not (y[1][0] == 'field' and not self.same(x)) else ('?',), pos[i] + ('/each' if each else '')))
                res = self.join(res, frozenset(m))
            add |= res or set()
        return facts | add if add else facts

    def same(self, call):
        o = call.get('obj')
        return o is None or peel(o).get('k') == 'this'

    def seq(self, ss, facts, env, par):
        o = self.out(facts)
        for s in ss:
            k = s.get('k')
            while k in ('case', 'default'):
                # reached from the head of the switch as well
                o['next'] = self.join(o['next'], self.sw[-1]) if getattr(self, 'sw', None) else o['next']
                s = s.get('s') or {'k': 'nop'}
                k = s.get('k')
            if o['next'] is None:
                # dead unless a label follows
                continue
            r = self.st(s, o['next'], env, par)
            for e in ('ret', 'brk', 'cont'):
                o[e] = self.join(o[e], r[e])
            o['next'] = r['next']
        return o

    def over(self, n, env):
        """(name, iterator variable, object) of a loop over all elements of a known object"""
        d, c = n.get('init'), n.get('c')
        if not d or d.get('k') != 'decl' or c is None or not any(x.get('op') == '++' for x in nodes(n.get('inc') or n.get('i') or {})):
            return None
        for v in d['vars']:
            i = peel(v.get('init')) if v.get('init') is not None else None
            while isinstance(i, dict) and i.get('k') == 'ctor' and len(i.get('args', ())) == 1:
                i = peel(i['args'][0])
            if isinstance(i, dict) and i.get('k') == 'call' and i.get('n') in ('begin', 'cbegin') and self.who(i.get('obj'), env):
                w = self.who(i['obj'], env)
                ends = [x for x in nodes(c) if x.get('k') == 'call' and x.get('n') in ('end', 'cend') and self.who(x.get('obj'), env) == w]
                ends += [u for u in d['vars'] if u is not v and any(x.get('k') == 'call' and x.get('n') in ('end', 'cend') for x in nodes(u.get('init') or {}))]
                refs = [x for x in nodes(c) if x.get('k') == 'ref' and x.get('id') == v['id']]
                if ends and refs and not any(x.get('op') in ('&&', '||') for x in nodes(c)):
                    return 'elem%s' % v['id'], v, w
        return None

    def each(self, n, me, v, w, facts, env, par):
        if w:
            env[v['id']] = me
        b = self.st(n['b'], facts, env, par)
        end = self.join(b['next'], b['cont'])
        o = self.out(facts)
        o['ret'] = b['ret']
        if w and end is not None:
            o['next'] = facts | {(p, i, w + '/each') for x in end if x != '?' for p, i, z in [x] if z == me}
        elif end is not None and '?' in end:
            o['next'] = facts | {'?'}
        if w and end is not None and '?' in end:
            o['next'] = o['next'] | {'?'}
        o['next'] = self.join(o['next'], b['brk'])
        if o['next'] is not None:
            o['next'] = frozenset(x for x in o['next'] if x == '?' or x[2] != me)
        return o

    def decl(self, d, facts, env, par):
        for v in d.get('vars', ()):
            if v.get('init') is not None:
                facts = self.expr(v['init'], facts, env, par)
                w = self.who(v['init'], env)
                if w and (v.get('t', '').endswith('&') or v.get('t', '').endswith('*')):
                    env[v['id']] = w
                else:
                    par[v['id']] = self.key(v['init'], par)
        return facts

    def st(self, n, facts, env, par):
        if n is None:
            return self.out(facts)
        k = n.get('k')
        if k == 'block':
            return self.seq(n['s'], facts, env, par)
        if k == 'decl':
            return self.out(self.decl(n, facts, env, par))
        if k == 'ret':
            facts = self.expr(n.get('e'), facts, env, par)
            o = self.out(None)
            o['ret'] = facts
            return o
        if k == 'throw':
            return self.out(None)
        if k == 'break':
            o = self.out(None)
            o['brk'] = facts
            return o
        if k == 'cont':
            o = self.out(None)
            o['cont'] = facts
            return o
        if k == 'if':
            for key in ('init', 'cv'):
                if n.get(key) is not None:
                    facts = self.decl(n[key], facts, env, par) if n[key].get('k') == 'decl' else self.expr(n[key], facts, env, par)
            facts = self.expr(n['c'], facts, env, par)
            a = self.st(n['a'], facts, env, par)
            b = self.st(n['b'], facts, env, par) if n.get('b') is not None else self.out(facts)
            return {e: self.join(a[e], b[e]) for e in a}
        if k == 'rfor':
            facts = self.expr(n.get('range'), facts, env, par)
            return self.each(n, 'elem%s' % n['var']['id'], n['var'], self.who(n.get('range'), env), facts, env, par)
        if k == 'for' and self.over(n, env):
            me, v, w = self.over(n, env)
            return self.each(n, me, v, w, facts, env, par)
        if k in ('for', 'while', 'do'):
            if k == 'for' and n.get('init') is not None:
                facts = self.decl(n['init'], facts, env, par) if n['init'].get('k') == 'decl' else self.expr(n['init'], facts, env, par)
            c = n.get('c')
            forever = c is None or peel(c).get('k') == 'bool' and peel(c)['v'] or peel(c).get('k') == 'int' and peel(c)['v']
            if k != 'do' and c is not None:
                facts = self.expr(c, facts, env, par)
            b = self.st(n['b'], facts, env, par)
            end = self.join(b['next'], b['cont'])
            o = self.out(None)
            o['ret'] = b['ret']
            if not forever:
                o['next'] = end if k == 'do' else facts
                if k != 'do' and end is not None and any(x == '?' or x not in facts for x in end):
                    o['next'] = facts | {'?'}       # a loop that stores on some element: not understood
            o['next'] = self.join(o['next'], b['brk'])
            return o
        if k == 'switch':
            facts = self.expr(n['c'], facts, env, par)
            self.sw = getattr(self, 'sw', []) + [facts]
            b = self.seq(n['b']['s'] if n['b'].get('k') == 'block' else [n['b']], None, env, par)
            self.sw = self.sw[:-1]
            nxt = self.join(b['next'], b['brk'])
            if not any(x.get('k') == 'default' for x in nodes(n['b'])):
                nxt = self.join(nxt, facts)
            return {'next': nxt, 'ret': b['ret'], 'brk': None, 'cont': b['cont']}
        if k == 'try':
            b = self.st(n['b'], facts, env, par)
            for h in n['catches']:
                c = self.st(h['b'], facts, env, par)
                b = {e: self.join(b[e], c[e]) for e in b}
            return b
        if k == 'nop':
            return self.out(facts)
        if k in ('label', 'goto'):
            return self.out(facts | {'?'})
        if k == 'call' and n.get('n') in ('abort', 'terminate', 'exit'):
            return self.out(None)
        if any(x.get('k') == 'throw' for x in nodes(n)) and n.get('k') != 'cond':
            return self.out(None)
        return self.out(self.expr(n, facts, env, par))


# ---------------------------------------------------------------- checks
def run(ck):
    ck.rule('registered', 'each property type has one producer, each column one name and a producer, each output name its columns')
    ck.rule('factory', 'a factory asked for a type it registered for hands out a task; it declines only for an index or configuration it does not serve')
    ck.rule('stores', 'the task stores the property that was asked for, under the index that was asked for, on every normal path')
    ck.rule('available', 'a property a task reads is made by a factory or attached by the pipeline')
    ck.rule('frame', 'a task for one measurement frame reads the per-frame properties of that frame')
    ck.rule('acyclic', 'the properties a task requests never lead back to the property being computed')
    F = ck.F = Facts(tus('SEImplementation/src/lib/Plugin/*/*.cpp', 'SEImplementation/src/lib/Segmentation/*.cpp', 'SEImplementation/src/lib/Partition/*.cpp', 'SEImplementation/src/lib/Deblending/*.cpp'))
    if F.errors:
        ck.undecided('registered', 'SEImplementation', '%d parse errors' % F.errors)
    W = World(ck, F)
    ck.W = W
    for g in (registered, produced, available, acyclic):
        ck.section(g, ck, F, W)
    ck.assumptions = ['plugins loaded at run time are not considered', 'the property of a group is requested from a group that has at least one source', 'a task is used for the identifier it was created for (C15)']
    return 60


class World:
    def __init__(self, ck, F):
        self.tree = Tree(F)
        self.fac = {}       # property -> [(factory class, node, function)]
        self.cols = []      # (name, property, node, function)
        self.outs = []      # (name, property, node, function)
        self.set = {}       # property -> functions storing it
        self.plugins = []
        for f in F.funcs.values():
            if not f.get('body') or f.get('dep'):
                continue
            if f['n'] == 'registerPlugin':
                self.plugins.append(f)
            for n in nodes(f['body']):
                if n.get('k') != 'call':
                    continue
                p = self.tree.propcall(n)
                if p and n['n'] != GET:
                    self.set.setdefault(p, []).append((f, n))
                if not f['file'].endswith(('TaskFactoryRegistry.h', 'OutputRegistry.h')):
                    q = strip_targs(n.get('q', ''))
                    ts = targs(n.get('ta'))
                    if q == NS + 'TaskFactoryRegistry::registerTaskFactory' and ts:
                        for t in ts[1:]:
                            self.fac.setdefault(short(t), []).append((ts[0], n, f))
                    elif q == NS + 'OutputRegistry::registerColumnConverter' and ts:
                        self.cols.append((literal(n['args'][0]), short(ts[0]), n, f))
                    elif q == NS + 'OutputRegistry::enableOutput' and ts:
                        self.outs.append((literal(n['args'][0]), short(ts[0]), n, f))
        self.tasks = set()

    def attached(self, p):
        """stored by something that is not a task"""
        return [f for f, n in self.set.get(p, ()) if f['n'] != 'computeProperties']


def at(f, n):
    return '%s:%s' % (f['loc'].rsplit(':', 1)[0] if isinstance(f.get('loc'), str) else rel(f['file']), n.get('l'))


def rel(p):
    return p.replace('/repo/', '')


def registered(ck, F, W):
    for p, rs in sorted(W.fac.items()):
        ck.ok(len(rs) == 1, 'registered', at(rs[-1][2], rs[-1][1]), '%s has one factory: %s' % (p, ', '.join(short(r[0]) for r in rs)))
    names = {}
    for name, p, n, f in W.cols:
        if name is None:
            continue
        names.setdefault(name, []).append((p, n, f))
    for name, rs in sorted(names.items()):
        ck.ok(len(rs) == 1, 'registered', at(rs[-1][2], rs[-1][1]), 'column %s is registered once' % name)
    for p in sorted({p for _, p, _, _ in W.cols} | {p for _, p, _, _ in W.outs}):
        f, n = [(f, n) for _, q, n, f in W.cols + W.outs if q == p][0]
        ck.ok(p in W.fac or bool(W.attached(p)), 'registered', at(f, n), 'the columns of %s have a producer' % p)
    onames = {}
    for name, p, n, f in W.outs:
        cols = [c for c in W.cols if c[1] == p]
        dynamic = any(x.get('k') == 'call' and 'ColumnConverter' in str(x.get('n')) for g in F.funcs.values() if g.get('body') and g.get('cls') == f.get('cls') for x in nodes(g['body']))
        ck.ok(bool(cols) or (None if dynamic else False), 'registered', at(f, n), 'output %s of %s has columns' % (name, p))
        if name is not None:
            onames.setdefault(name, []).append((p, n, f))
    for name, rs in sorted(onames.items()):
        ck.ok(True, 'registered', at(rs[0][2], rs[0][1]), 'output %s -> %s' % (name, ', '.join(r[0] for r in rs)))
    for p in sorted({p for _, p, _, _ in W.cols}):
        f, n = [(f, n) for _, q, n, f in W.cols if q == p][0]
        ck.ok(any(o[1] == p for o in W.outs), 'registered', at(f, n), 'the columns of %s can be enabled by an output name' % p)
    # the plugin objects exist
    st = {t for v in allvars(F) for t in targs(v['v']['t'][v['v']['t'].find('<'):] if 'StaticPlugin<' in v['v'].get('t', '') else '')}
    for f in W.plugins:
        c = f['q'].rsplit('::', 1)[0]
        if c in (NS + 'Plugin',):
            continue
        ck.ok(c in st, 'registered', f, '%s is registered with the plugin manager' % short(c))


def allvars(F):
    return F.allvars


def summary(ck, F, fc):
    fs = [f for f in F.funcs.values() if f['q'] == fc + '::createTask' and f.get('body') and not f.get('dep')]
    if not fs:
        return None, None
    f = fs[0]
    h = c15.typeops()

    def ti(it, n, st):
        return it._t(it.val(it.ev(n['args'][0], st), st), st) if n.get('args') else None
    h['std::type_index#ctor'] = ti
    s = summarise(F, f, this=TH, args={0: PID}, handlers=h)
    return f, s


def typename(t):
    if t.op == 'app' and t.a[0] == 'typeid' and isinstance(t.a[1], str):
        return short(t.a[1])
    if t.op == 'app' and str(t.a[0]).startswith(('new:std::type_index', 'new:std::type_info')) and len(t.a) == 2:
        return typename(t.a[1])
    return None


def produced(ck, F, W):
    W.by_index = {}
    sums = {}
    for p, rs in sorted(W.fac.items()):
        for fc, n, reg in rs[:1]:
            if fc not in sums:
                sums[fc] = summary(ck, F, fc)
            f, s = sums[fc]
            if f is None:
                ck.undecided('factory', at(reg, n), 'createTask of %s not found' % short(fc))
                continue
            one(ck, F, W, p, fc, f, s)


def one(ck, F, W, p, fc, f, s):
    # assume the identifier has the type p
    m, nos = {}, {}
    for st, v in s.rets:
        for c in st.pc:
            for x in subterms(c):
                if x.op == 'app' and x.a[0] == 'typeno':
                    t = typename(x.a[1])
                    if t is None and x.a[1].op == 'app' and x.a[1].a[0] == 'fld' and x.a[1].a[-1] is PID:
                        t = p
                    if t is not None:
                        m[x] = num(nos.setdefault(t, len(nos)))
    idx = None
    tasks, declines = [], []
    for st, v in s.rets:
        pc = [subst(c, m) for c in st.pc]
        if any(const_false(c) for c in pc):
            continue
        pc = [c for c in pc if not const_true(c)]
        if isinstance(v, T) and v.op == 'null' or isinstance(v, T) and v.op == 'app' and v.a[0] == 'null' or isinstance(v, T) and show(v) in ('null', 'null()', '0'):
            declines.append((st, pc))
        else:
            tasks.append((st, v, pc))
    where = f
    real = {('fld', 'm_index')}
    ixs = {x for st, v in s.rets for c in st.pc for x in subterms(c) if x.op == 'app' and x.a[0] == 'fld' and x.a[-1] is PID and x.sort == 'i'}
    ix = index_term(F)
    zero = {ix: num(0)}
    if not tasks:
        return ck.ok(False if not s.it.exact else None, 'factory', where, 'no task for %s' % p)
    # declining without a reason
    bad = None
    for st, pc in declines:
        pc0 = [subst(c, zero) for c in pc]
        if any(const_false(c) for c in pc0):
            continue
        left = [c for c in pc0 if not const_true(c)]
        if not left:
            bad = st
    if s.it.exact:
        ck.ok(None, 'factory', where, 'createTask of %s not understood: %s' % (short(fc), sorted(s.it.exact)[:3]))
    else:
        ck.ok(bad is None, 'factory', where, 'asked for %s at index 0, %s declines only for its configuration (%d tasks)' % (p, short(fc), len(tasks)))
    stored_per = False
    for st, v, pc in tasks:
        cls = klass(F, st, v)
        if cls is None:
            ck.undecided('factory', where, 'task for %s not identified: %s' % (p, show(v)[:80]))
            continue
        cps = [g for g in impls(F, cls)]
        if not cps:
            ck.undecided('stores', where, '%s has no computeProperties in the sources analysed' % short(cls))
            continue
        g = cps[0]
        W.tasks.add(g['key'])
        group = 'SourceGroupInterface' in g['params'][0]['t']
        facts = Must(F, W.tree).stored(g, {0: 'self'})
        if facts is None:
            ck.undecided('stores', g, '%s never ends normally' % short(cls))
            continue
        mine = [x for x in facts if x != '?' and x[0] == p and (x[2] == 'self' or group and x[2] == 'self/each')]
        if not mine:
            hope = Must(F, W.tree, True).stored(g, {0: 'self'})
            maybe = '?' in hope or any(x[0] == p and (x[2] == 'self' or group and x[2] == 'self/each') for x in hope)
        ck.ok(True if mine else None if maybe else False, 'stores', g, '%s stores %s on every normal path' % (short(cls), p))
        if not mine:
            continue
        ok = None
        per = False
        for x in mine:
            if x[1][0] == 'int':
                r = x[1][1] == 0
                val = num(x[1][1])
            elif x[1][0] == 'field':
                val = field(s, st, v, x[1][1])
                per = True
                r = None if val is None or lost_(val) else eqmod(val, ix)
            else:
                r, val = None, None
            if r:
                ok = True
                break
            if r is False:
                ok = False
        ck.ok(ok, 'stores', g, '%s stores %s under the index that was asked for: %s' % (short(cls), p, '; '.join(str(x[1]) for x in mine)))
        stored_per = stored_per or per
        W.by_index.setdefault(p, set()).add('per' if per else 'zero')
        W.__dict__.setdefault('of', []).append((p, cls, g, group, per, [x[1] for x in mine], st, v, s))


    if stored_per and not s.it.exact:
        for st, pc in declines:
            left = [subst(c, {ix: num(7)}) for c in pc]
            if any(const_false(c) for c in left):
                continue
            if all(const_true(c) for c in left):
                ck.ok(False, 'factory', where, 'asked for %s at an index other than 0, %s declines' % (p, short(fc)))
                break
        else:
            ck.ok(True, 'factory', where, 'asked for %s at any index, %s declines only for its configuration' % (p, short(fc)))


def lost_(t):
    return any(x.op == 'app' and isinstance(x.a[0], str) and x.a[0].startswith(('unk', 'havoc')) for x in subterms(t))


def const_true(c):
    c = simp(c)
    return c is TRUE or show(c) == 'true'


def const_false(c):
    c = simp(c)
    return c is FALSE or show(c) == 'false'


def simp(c):
    return subst(c, {})


_ix = {}


def index_term(F):
    if F not in _ix:
        g = [f for f in F.funcs.values() if f['q'] == NS + 'PropertyId::getIndex' and f.get('body')]
        _ix[F] = summarise(F, g[0], this=PID).ret
    return _ix[F]


def eqmod(val, ix):
    x = val
    while x.op == 'app' and str(x.a[0]).startswith(('cast', 'conv', 'wrap', 'trunc', 'u32', 'u64')):
        x = x.a[-1]
    return x is ix or x == ix


def klass(F, st, v):
    if not isinstance(v, T):
        return None
    k = st.heap.get((v, '#class'))
    if k:
        r = F.records.get(k)
        if r:
            return strip_targs(r['q'])
    if v.op == 'app' and str(v.a[0]).startswith('new:'):
        return strip_targs(v.a[0][4:])
    return None


def impls(F, cls):
    """computeProperties of cls or of the nearest base that has one"""
    seen, todo = set(), [cls]
    while todo:
        c = todo.pop(0)
        if c in seen:
            continue
        seen.add(c)
        fs = [f for f in F.funcs.values() if f['n'] == 'computeProperties' and strip_targs(f['q']).rsplit('::', 1)[0] == c and f.get('body') and not f.get('dep')]
        if fs:
            return fs
        for r in F.rec(c) if F.rec_q.get(c) else []:
            for b in r['bases']:
                todo.append(strip_targs(b['t']))
    return []


def field(s, st, v, name):
    try:
        r = rd(s, v, name, 'unsigned int', st)
        return r if isinstance(r, T) else None
    except Exception:
        return None


def available(ck, F, W):
    of = getattr(W, 'of', [])
    W.group = {}
    for p, cls, g, group, *_ in of:
        W.group.setdefault(p, set()).add(group)
    zero_only = {p for p, k in W.by_index.items() if k == {'zero'}}
    per = {p for p, k in W.by_index.items() if k == {'per'}}
    done = set()
    for p, cls, g, group, isper, keys, st, v, s in of:
        if (p, cls) in done:
            continue
        done.add((p, cls))
        reads = W.tree.reach(g)
        for q in sorted({q for q, _, _ in reads}):
            n, h = [(n, h) for q2, n, h in reads if q2 == q][0]
            ck.ok(q in W.fac or bool(W.attached(q)), 'available', at(h, n), '%s reads %s, which has a producer' % (short(cls), q))
        m = Must(F, W.tree)
        for q, n, h in reads:
            t = (n.get('obj') or {}).get('t', '')
            if 'SourceGroupInterface' in t and 'SourceWrapper' not in t and q in W.group and not W.attached(q):
                ck.ok(W.group[q] == {True}, 'available', at(h, n), '%s, read from a group, is made for groups' % q)
            k = m.key(n['args'][0], {}) if n['args'] else ('int', 0)
            if q in zero_only:
                ck.ok(k == ('int', 0), 'frame', at(h, n), '%s is read where it is stored' % q)
            own = strip_targs(h['q']).rsplit('::', 1)[0] == strip_targs(g['q']).rsplit('::', 1)[0]
            if isper and own and q in per:
                if k[0] == 'int':
                    ck.ok(False, 'frame', at(h, n), '%s for a given index reads %s at the fixed index %s' % (short(cls), q, k[1]))
                elif k[0] == 'field':
                    val = field(s, st, v, k[1])
                    ck.ok(None if val is None or lost_(val) else eqmod(val, index_term(F)), 'frame', at(h, n), '%s reads %s at the index it was asked for (%s)' % (short(cls), q, k[1]))


def acyclic(ck, F, W):
    edges = {}
    for p, cls, g, *_ in getattr(W, 'of', []):
        for q, n, h in W.tree.reach(g):
            edges.setdefault(p, {}).setdefault(q, at(h, n))
    state, path = {}, []

    def dfs(p):
        state[p] = 1
        path.append(p)
        for q, w in sorted(edges.get(p, {}).items()):
            if state.get(q) == 1:
                cyc = path[path.index(q):] + [q]
                ck.ok(False, 'acyclic', w, 'computing %s asks for itself: %s' % (q, ' -> '.join(cyc)))
            elif q not in state:
                dfs(q)
        path.pop()
        state[p] = 2
    for p in sorted(edges):
        if p not in state:
            dfs(p)
        f = [g for q, cls, g, *_ in W.of if q == p][0]
        ck.ok(True, 'acyclic', f, '%s requests %s' % (p, ', '.join(sorted(edges[p])) or 'nothing'))
