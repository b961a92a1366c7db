"""Static locksets: which mutexes are held at every access to a shared variable, on every path.

RAII guards (lock_guard, unique_lock, shared_lock, scoped_lock, upgrade_lock, upgrade_to_unique_lock and local classes whose
constructor/destructor lock or unlock their argument), lock()/unlock() on mutexes and guards are followed by the typestate
engine; functions that are not part of an interface are entered with the intersection of what their callers hold."""
import re
from .facts import walk, Broken
from .flow import Flow, Client, TooBig

EXCL = ('lock_guard', 'unique_lock', 'scoped_lock', 'strict_lock')
MUTEX = re.compile(r'\b(shared_mutex|recursive_mutex|timed_mutex|shared_timed_mutex|recursive_timed_mutex|mutex)$')
TOP = None


def bare(t):
    t = re.sub(r'\b(const|volatile|class|struct)\b', '', t or '').replace('&', '').replace('*', '').strip()
    t = re.sub(r'<.*', '', t)
    return t.split('::')[-1].strip()


def is_mutex(t):
    t = re.sub(r'\b(const|volatile)\b', '', t or '').replace('&', '').strip()
    return bool(MUTEX.search(t)) and '<' not in t


def guard(t):
    b = bare(t)
    if b in EXCL:
        return 'x'
    if b == 'shared_lock':
        return 's'
    if b == 'upgrade_lock':
        return 'u'
    if b == 'upgrade_to_unique_lock':
        return 'up'
    return None


class Access:
    __slots__ = ('var', 'w', 'held', 'f', 'n', 'ctx')

    def __init__(self, var, w, held, f, n, ctx=''):
        self.var, self.w, self.held, self.f, self.n, self.ctx = var, w, held, f, n, ctx

    def modes(self):
        return {(m, o) for _, m, o in self.held if o != '-'}

    def __repr__(self):
        return '%s %s %s:%s %s' % (self.var, 'write' if self.w else 'read', self.f['n'], self.n.get('l'), sorted(map(str, self.modes())))


class Locker(Client):
    def __init__(self, an, f, ns, base):
        self.an, self.f, self.ns = an, f, ns        # ns: namespace tag for local ids (function key, or function key + lambda)
        self.alias = base.alias if base else {}
        self.iters = base.iters if base else {}
        self.acc = {}
        self.calls = {}
        self.lams = {}
        self.waits = []

    # ---- naming
    def path(self, n):
        n = strip(n)
        k = n.get('k')
        if k == 'ref':
            dk = n.get('dk')
            if dk in ('slocal',):
                return ('s', self.f['q'] + ':' + self.f.get('cta', '') + ':' + n['n'])
            if dk in ('global', 'sfield', 'smem') or (n.get('q') and dk not in ('parm', 'var')):
                return ('g', n.get('q') or n['n'])
            i = ('l', n['id'])
            return self.alias.get(i, i)
        if k == 'this':
            return ('this',)
        if k == 'mem':
            b = n.get('b')
            if b is not None:
                bp = self.path(b)
                if bp != ('this',):
                    return ('p', bp, n['n'])
            return ('f', n.get('q') or n['n'])
        if k == 'un' and n['op'] in ('*', '&'):
            return self.path(n['e'])
        if k == 'call':
            if n.get('op') in ('*', '->') or n.get('n') in ('operator->', 'operator*', 'get', 'release'):
                o = n.get('obj') or (n['args'][0] if n.get('args') else None)
                if o is not None:
                    return self.path(o)
            if n.get('n') in ('move', 'forward', 'ref', 'cref', 'addressof') and n.get('args'):
                return self.path(n['args'][0])
            return ('?', id(n))
        if k == 'ctor' and len(n.get('args', ())) == 1:
            return self.path(n['args'][0])
        return ('?', id(n))

    # ---- typestate
    def acquire(self, S, owner, m, mode):
        return frozenset(S | {(owner, m, mode)})

    def event(self, n, S):
        k = n.get('k')
        if k == 'vardecl':
            return (self.decl(n['v'], S),)
        if k == 'meminit':
            return (S,)
        if k == 'call':
            S = self.call(n, S)
        elif k == 'lambda':
            cur = self.lams.get(id(n))
            self.lams[id(n)] = (n, S if cur is None else meet(cur[1], S))
        if k in ('ref', 'mem'):
            v = self.path(n)
            w = id(n) in self.an.writes
            self.note(n, v, w, S)
            if v[0] == 'l' and v in self.iters:
                self.note(n, self.iters[v], id(n) in self.an.iwrites, S, 'iterator')
        return (S,)

    def note(self, n, v, w, S, ctx=''):
        a = self.acc.get((id(n), v))
        if a is None:
            self.acc[(id(n), v)] = Access(v, w, S, self.f, n, ctx)
        else:
            a.held = meet(a.held, S)

    def decl(self, v, S):
        g = guard(v.get('t'))
        me = ('l', v['id'])
        i = strip(v['init']) if v.get('init') else None
        if g and not v.get('t', '').rstrip().endswith('&'):
            args = i.get('args', []) if i is not None and i.get('k') in ('ctor', 'call') else []
            if i is not None and i.get('k') == 'init':
                args = i.get('ch', [])
            if not args:
                return S
            if g == 'up':
                src = self.path(args[0])
                for o, m, mo in S:
                    if o == src and mo == 'u':
                        return frozenset(S | {(me, m, 'x')})
                return S
            a0 = args[0]
            if guard(a0.get('t')):                # moved from another guard
                src = self.path(a0)
                r = set()
                for o, m, mo in S:
                    r.add((me, m, mo) if o == src else (o, m, mo))
                return frozenset(r)
            ms = [a for a in args if not tag(a)]
            tg = [tag(a) for a in args if tag(a)]
            mode = '-' if ('defer_lock' in tg or 'try_to_lock' in tg) else g
            r = set(S)
            for a in (ms if bare(v['t']) == 'scoped_lock' else ms[:1]):
                m = self.path(a)
                if mode != '-' and not tg:
                    self.again(a, m, S)
                if tg and tg[0] == 'adopt_lock':
                    r = {(o, mm, mo) for o, mm, mo in r if not (mm == m and o == ('m', m))}
                r.add((me, m, mode if mode != '-' else '-' + g))
            return frozenset(r)
        rv = self.an.revlock(v.get('t'))
        if rv and i is not None and i.get('args'):
            src = self.path(i['args'][0])
            return self.toggle(S, src, rv[0])
        if i is not None and (v.get('t', '').rstrip().endswith('&') or v.get('t', '').rstrip().endswith('*')):
            p = self.path(i)
            if p[0] != '?':
                self.alias[me] = p
        if i is not None and ('iterator' in v.get('t', '')):
            c = container(i)
            if c is not None:
                self.iters[me] = self.path(c)
        return S

    def again(self, n, m, S):
        self.an.took.setdefault(self.f['key'] if self.ns == self.f['key'] else self.ns, set()).add(m)
        if any(mm == m and not mo.startswith('-') for _, mm, mo in S):
            self.an.relocks[id(n)] = (n, m, self.f)

    def toggle(self, S, src, what):
        r = set()
        for o, m, mo in S:
            if o == src or (o == ('m', m) and m == src):
                if what == 'unlock':
                    if o == src and o[0] == 'l' and o != ('m', m):
                        r.add((o, m, '-' + mo.lstrip('-')))
                    continue
                r.add((o, m, mo.lstrip('-')))
            else:
                r.add((o, m, mo))
        return frozenset(r)

    def leave(self, v, S):
        me = ('l', v['id'])
        rv = self.an.revlock(v.get('t'))
        if rv and v.get('init') is not None:
            i = strip(v['init'])
            if i.get('args'):
                return (self.toggle(S, self.path(i['args'][0]), rv[1]),)
        if guard(v.get('t')):
            return (frozenset(x for x in S if x[0] != me),)
        return (S,)

    def call(self, n, S):
        o = n.get('obj')
        nm = n.get('n')
        if o is not None and nm in ('lock', 'unlock', 'try_lock', 'lock_shared', 'unlock_shared', 'lock_upgrade', 'unlock_upgrade', 'release', 'unlock_upgrade_and_lock', 'try_lock_for') and (is_mutex(o.get('t')) or guard(o.get('t'))):
            p = self.path(o)
            if is_mutex(o.get('t')):
                if nm.startswith('unlock') and nm != 'unlock_upgrade_and_lock':
                    return frozenset(x for x in S if x[1] != p)
                if nm == 'try_lock' or nm == 'try_lock_for':
                    return S
                mode = 'x' if nm in ('lock', 'unlock_upgrade_and_lock') else ('s' if nm == 'lock_shared' else 'u')
                if nm != 'unlock_upgrade_and_lock':
                    self.again(n, p, S)
                return frozenset({x for x in S if x[0] != ('m', p)} | {(('m', p), p, mode)})
            if nm == 'release':
                return frozenset((('m', m), m, mo) if ow == p else (ow, m, mo) for ow, m, mo in S)
            if nm in ('lock', 'unlock'):
                return self.toggle(S, p, nm)
            return S
        if n.get('q') in ('std::lock', 'boost::lock'):
            r = set(S)
            for a in n['args']:
                p = self.path(a)
                if is_mutex(a.get('t')):
                    r.add((('m', p), p, 'x'))
                else:
                    r = set(self.toggle(frozenset(r), p, 'lock'))
            return frozenset(r)
        if nm in ('wait', 'wait_for', 'wait_until') and 'condition_variable' in (n.get('q') or ''):
            self.waits.append((n, S))
        c = self.calls.get(id(n))
        self.calls[id(n)] = (n, S if c is None else meet(c[1], S))
        return S


def meet(a, b):
    """locks held on both: same mutex, weaker mode"""
    if a is TOP:
        return b
    if b is TOP:
        return a
    am, bm = {}, {}
    for S, d in ((a, am), (b, bm)):
        for o, m, mo in S:
            if not mo.startswith('-'):
                d[m] = best(d.get(m), mo)
    r = set()
    for m in am:
        if m in bm:
            r.add((('m', m), m, worst(am[m], bm[m])))
    return frozenset(r)


ORD = {'s': 0, 'u': 1, 'x': 2}


def best(a, b):
    return b if a is None or ORD[b] > ORD[a] else a


def worst(a, b):
    return a if ORD[a] < ORD[b] else b


def strip(n):
    while isinstance(n, dict) and n.get('k') == 'cast':
        n = n['e']
    if isinstance(n, dict) and n.get('k') == 'other' and n.get('ch') and len(n['ch']) == 1:
        return strip(n['ch'][0])
    return n


def tag(n):
    n = strip(n)
    if n.get('k') == 'ctor' and n.get('args'):
        return tag(n['args'][0])
    if n.get('k') in ('ref', 'ctor'):
        for t in ('defer_lock', 'adopt_lock', 'try_to_lock'):
            if t in (n.get('q') or '') or t in (n.get('n') or '') or t in (n.get('t') or ''):
                return t
    return None


def container(n):
    """object a returned iterator points into"""
    n = strip(n)
    if n.get('k') == 'mem':
        return container(n['b']) if n.get('b') else None
    if n.get('k') == 'ctor' and len(n.get('args', ())) == 1:
        return container(n['args'][0])
    if n.get('k') == 'call':
        o = n.get('obj')
        if o is not None and n.get('n') in ('find', 'begin', 'end', 'emplace', 'insert', 'lower_bound', 'upper_bound', 'equal_range', 'cbegin', 'cend', 'rbegin', 'rend', 'erase', 'try_emplace', 'insert_or_assign', 'emplace_hint'):
            return o
        if n.get('n') in ('find_if', 'find', 'min_element', 'max_element', 'lower_bound', 'next', 'prev') and n.get('args'):
            return container(n['args'][0])
    return None


NONMUT = {'find', 'begin', 'end', 'size', 'empty', 'at', 'front', 'back', 'data', 'get', 'operator[]', 'operator*', 'operator->', 'count', 'lower_bound', 'upper_bound', 'cbegin', 'cend', 'rbegin', 'rend', 'top', 'load', 'equal_range', 'operator bool', 'capacity'}
MAPT = re.compile(r'\b(map|unordered_map)<')


class Analysis:
    """locksets over a set of functions"""
    def __init__(self, F, funcs, atomic_ok=True):
        self.F, self.funcs = F, [f for f in funcs if f.get('body') and not f.get('dep')]
        self.writes, self.iwrites = set(), set()
        for f in self.funcs:
            self.scan(f.get('body'))
            for i in f.get('inits', ()):
                self.scan(i.get('e'))
        self.bykey = {f['key']: f for f in self.funcs}
        self.lost = []
        self.entry = {}
        self._rl = {}
        self.solve()

    # which references are modified in place
    def scan(self, b):
        for n in walk(b):
            k = n['k']
            if k == 'asg':
                self.mark(n['x'])
            elif k == 'un' and n['op'] in ('++', '--', 'p++', 'p--', '++p', '--p', 'post++', 'post--', 'pre++', 'pre--'):
                self.mark(n['e'])
            elif k == 'un' and ('++' in n['op'] or '--' in n['op']):
                self.mark(n['e'])
            elif k == 'call':
                o = n.get('obj')
                if o is not None and not n.get('cst'):
                    nm = n.get('n')
                    ot = o.get('t', '')
                    ptr = nm in ('operator->', 'operator*', 'get')
                    if nm == 'operator[]' and MAPT.search(re.sub(r'<.*?<.*', '<', ot) if False else ot.split('<')[0] + '<'):
                        self.mark(o)
                    elif nm not in NONMUT and not ptr:
                        self.mark(o)
                if n.get('op') in ('=', '+=', '-=', '*=', '/=', '++', '--', '|=', '&=', '^=', '<<=', '>>=', '%=') and o is None and n.get('args'):
                    self.mark(n['args'][0])
                pm = n.get('pm') or ''
                for a, c in zip(n.get('args', ()), pm):
                    if c in 'r' and not n.get('op') and n.get('n') not in ('make_tuple', 'make_pair', 'tie', 'forward', 'move', 'addressof', 'make_shared', 'make_unique') and not guard(n.get('q')):
                        self.mark(a)
                    if c == 'r' and n.get('n') == 'move' and a.get('k') in ('ref', 'mem'):
                        self.mark(a)
            elif k == 'ctor' and not guard(n.get('t')):
                for a, c in zip(n.get('args', ()), n.get('pm') or ''):
                    if c == 'r' and 'ock' not in bare(n.get('t')):
                        self.mark(a)

    def mark(self, n):
        n = strip(n)
        k = n.get('k')
        if k in ('ref',):
            self.writes.add(id(n))
        elif k == 'mem':
            self.writes.add(id(n))
            # writing a member of a value writes the object too
            b = n.get('b')
            if b is not None and not n.get('arrow'):
                self.mark(b)
            elif b is not None:
                self.iwrite(b)
        elif k == 'sub':
            self.mark(n['b'] if 'b' in n else n.get('x'))
        elif k == 'un' and n['op'] == '*':
            self.iwrite(n['e'])
        elif k == 'cond':
            self.mark(n['a'])
            self.mark(n['b'])
        elif k == 'call' and n.get('n') in ('operator[]', 'at', 'front', 'back', 'top'):
            o = n.get('obj') or (n['args'][0] if n.get('args') else None)
            if o is not None:
                self.mark(o)
        elif k == 'call' and n.get('n') in ('operator*', 'operator->'):
            o = n.get('obj') or (n['args'][0] if n.get('args') else None)
            if o is not None:
                self.iwrite(o)

    def iwrite(self, n):
        n = strip(n)
        if n.get('k') == 'ref':
            self.iwrites.add(id(n))
        elif n.get('k') == 'call' and n.get('n') in ('operator*', 'operator->'):
            o = n.get('obj') or (n['args'][0] if n.get('args') else None)
            if o is not None:
                self.iwrite(o)

    def revlock(self, t):
        """(constructor action, destructor action) of a local guard class acting on the lock it is given"""
        if not t or 'ock' not in bare(t) or guard(t):
            return None
        b = bare(t)
        if b in self._rl:
            return self._rl[b]
        r = None
        act = {}
        for f in self.F.funcs.values():
            if bare(f.get('cls')) == b and f.get('body'):
                for kind, test in (('ctor', f.get('fk') == 'ctor' or f['n'] == b), ('dtor', f.get('fk') == 'dtor' or f['n'] == '~' + b)):
                    if test and len(f['params']) <= 1:
                        for n in walk(f['body']):
                            if n['k'] == 'call' and n.get('n') in ('lock', 'unlock') or n['k'] == 'call' and n.get('k') == 'mem':
                                act[kind] = n['n']
                            elif n['k'] == 'mem' and n.get('n') in ('lock', 'unlock'):
                                act[kind] = n['n']
        if 'ctor' in act and 'dtor' in act:
            r = (act['ctor'], act['dtor'])
        self._rl[b] = r
        return r

    def internal(self, f):
        if f.get('fk') in ('ctor', 'dtor', 'conv'):
            return False
        if f.get('cls'):
            return f.get('acc') == 'private'
        return f['file'].endswith('.cpp') and bool(f.get('static') or f.get('anon') or '(anonymous' in f['q'])

    def solve(self):
        for f in self.funcs:
            self.entry[f['key']] = TOP if self.internal(f) else frozenset()
        called = {}
        for rnd in range(8):
            self.acc, self.calls, self.waits, self.lamb = [], [], [], []
            self.took, self.relocks = {}, {}
            seen = {}
            for f in self.funcs:
                e = self.entry[f['key']]
                if e is TOP:
                    continue
                self.one(f, e)
            for n, S, f in self.calls:
                g = self.bykey.get(n.get('key'))
                if g is None or not self.internal(g):
                    continue
                S2 = frozenset((('m', m), m, mo) for o, m, mo in S if not mo.startswith('-') and transferable(m, n))
                seen[g['key']] = meet(seen.get(g['key'], TOP), S2)
            ch = False
            for k, S in seen.items():
                if self.entry[k] != S:
                    self.entry[k] = S
                    ch = True
            if not ch:
                break
        # never called: analysed as entered without locks
        for f in self.funcs:
            if self.entry[f['key']] is TOP:
                self.one(f, frozenset())

    def one(self, f, e):
        c = Locker(self, f, f['key'], None)
        try:
            Flow(c).run(f, {e})
        except TooBig:
            self.lost.append(f)
        self.finish(c, f)

    def finish(self, c, f):
        for a in c.acc.values():
            self.acc.append(a)
        for n, S in c.calls.values():
            self.calls.append((n, S, f))
        self.waits += [(n, S, f) for n, S in c.waits]
        sync = c.synchronous(f) if hasattr(c, 'synchronous') else set()
        for n, S in list(c.lams.values()):
            inline = id(n) in sync_lambdas(f)
            cc = Locker(self, f, f['key'] if inline else (f['key'], id(n)), c)
            fn = {'body': n.get('body'), 'inits': (), 'q': f['q']}
            if n.get('body'):
                try:
                    Flow(cc).run(fn, {frozenset((('m', m), m, mo) for o, m, mo in S if not mo.startswith('-')) if inline else frozenset()}, False)
                except TooBig:
                    self.lost.append(f)
                self.lamb.append((n, f, inline))
                self.finish(cc, f)

    def held_at(self, n):
        r = None
        for m, S, f in self.calls:
            if m is n:
                r = S if r is None else meet(r, S)
        return r

    def by_var(self):
        r = {}
        for a in self.acc:
            r.setdefault(a.var, []).append(a)
        return r


def transferable(m, call):
    """does a mutex name mean the same inside the callee?"""
    if m[0] in ('g',):
        return True
    if m[0] == 'f':
        o = call.get('obj')
        return o is None or strip(o).get('k') == 'this'
    return m[0] == 's'


ALG = {'find_if', 'for_each', 'sort', 'remove_if', 'any_of', 'all_of', 'none_of', 'count_if', 'transform', 'accumulate', 'stable_sort', 'copy_if', 'max_element', 'min_element', 'generate', 'partition', 'wait', 'wait_for', 'wait_until', 'find_if_not', 'lower_bound', 'apply', 'invoke'}


def sync_lambdas(f):
    """lambdas that run while the expression containing them is evaluated"""
    r = f.get('_sync')
    if r is None:
        r = set()
        for n in walk(f.get('body')):
            if n['k'] == 'call':
                if n.get('n') in ALG:
                    for a in n.get('args', ()):
                        for x in walk(a):
                            if x['k'] == 'lambda':
                                r.add(id(x))
                fn = n.get('obj') if n.get('op') == '()' or n.get('n') == 'operator()' else n.get('fn')
                if fn is not None and strip(fn).get('k') == 'lambda':
                    r.add(id(strip(fn)))
        f['_sync'] = r
    return r


def common(accs):
    """mutexes held exclusively at every write and at least shared at every read: [mutex]"""
    cand = None
    for a in accs:
        h = {}
        for _, m, mo in a.held:
            if not mo.startswith('-'):
                h[m] = best(h.get(m), mo)
        ok = {m for m, mo in h.items() if (mo == 'x' or not a.w) and m[0] != 'l'}
        cand = ok if cand is None else cand & ok
    return sorted(cand or (), key=str)
