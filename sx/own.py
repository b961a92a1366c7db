"""Linear ownership of the objects handed along a pipeline (ESP-style typestate over sx/flow.py).

Owners are unique_ptr variables (and closures that captured one), boxes are containers of owners, elements are what an
iterator, a reference or a key denotes in a box.  The nullness of raw pointers and the value of local flags are part of
the state, so correlated branches stay correlated.  Reported: an object dropped, handed over twice, used after it was
handed over, or an element left behind empty in a box that stays."""
import re
from .flow import Flow, Client, TooBig
from .facts import walk
from .interp import strip_targs

OWNED = re.compile(r'(unique_ptr<(const )?(SourceXtractor::)?(SourceInterface|SourceGroupInterface|EntangledSource|[\w:]*EntangledSource)\b|\bSourceWrapper\b)')
CONT = re.compile(r'^(const )?std::(vector|list|deque|map|unordered_map|set|pair|multimap|forward_list|array)<')


def plain(t):
    t = t.strip()
    while t.endswith(('&', '*')) and not t.endswith('>*') or t.endswith('&'):
        t = t[:-1].strip()
    return re.sub(r'^const ', '', t)


def is_box(t):
    t = plain(t)
    return bool(CONT.match(t)) and not re.match(r'^std::pair<', t) and bool(OWNED.search(t)) and '_iterator<' not in t and 'iterator ' not in t


def is_owner(t):
    t = plain(t)
    return bool(re.match(r'^(std::unique_ptr<|(SourceXtractor::)?(SourceGroupInterface::)?SourceWrapper\b)', t)) and bool(OWNED.match(t) or OWNED.search(t.split(',')[0]))


def is_iter(t):
    return bool(re.match(r'^(const )?(std::_(List|Rb_tree|Node|Deque)_(const_)?iterator|__gnu_cxx::__normal_iterator|std::__detail::_Node_iterator|std::_Deque_iterator)<', t.strip())) and bool(OWNED.search(t))


def is_list(t):
    """a container of iterators or keys"""
    t = plain(t)
    return bool(CONT.match(t)) and not is_box(t)


def peel(n):
    while isinstance(n, dict) and n.get('k') in ('cast', 'paren', 'mat', 'exprwithcleanups', 'bindtemp', 'clean'):
        n = n.get('e')
    return n


TEXT = {}          # parameters of the helpers walked into: what was handed to them


def text(n):
    n = peel(n)
    if not isinstance(n, dict):
        return '?'
    k = n.get('k')
    if k == 'ref' and n.get('id') in TEXT:
        return TEXT[n['id']]
    if k == 'ref':
        return 'v%s' % n.get('id') if n.get('dk') in ('var', 'parm') else n.get('n', '?')
    if k == 'this':
        return 'this'
    if k == 'mem':
        b = n.get('b')
        return (text(b) + '.' if b is not None and peel(b).get('k') != 'this' else '') + n['n']
    if k == 'int':
        return str(n['v'])
    if k == 'call':
        if n.get('n') in ('operator->', 'operator*', 'get') and n.get('obj') is not None:
            return text(n['obj'])
        return n.get('n', '?') + '(' + ','.join(text(x) for x in ([n['obj']] if n.get('obj') is not None else []) + n.get('args', [])) + ')'
    if k == 'un':
        return n.get('op', '') + text(n.get('e'))
    return '?%d' % id(n)


class Own(Client):
    """S: frozenset of (key, value) pairs"""
    limit = 3000

    def __init__(self, f, alias=None, closures=(), report=None):
        self.f = f
        self.alias = dict(alias or {})      # variable id -> place (references)
        self.types = {}
        self.report = report
        self.bad = {}
        self.unsure = {}
        self.sends = []
        self.closures = set(closures)
        self.moved_at = {}
        self.handled = 0
        self.local = {p['id'] for p in f.get('params', ())}
        self.inits, self.F = {}, None
        TEXT.clear()
        for n in walk(f.get('body') or {}):
            if n.get('k') == 'decl':
                for v in n['vars']:
                    self.local.add(v['id'])
                    if v.get('init') is not None:
                        self.inits[v['id']] = v['init']
            if n.get('k') == 'rfor':
                self.local.add(n['var']['id'])

    # ---------------------------------------------------------------- state
    def get(self, S, k, d=None):
        for a, b in S:
            if a == k:
                return b
        return d

    def set(self, S, k, v):
        S = frozenset(x for x in S if x[0] != k)
        return S if v is None else S | {(k, v)}

    def err(self, n, m):
        self.bad.setdefault((n.get('l', 0), m), n)

    def doubt(self, n, m):
        self.unsure.setdefault((n.get('l', 0), m), n)

    # ---------------------------------------------------------------- places
    def box(self, n):
        n = peel(n)
        if not isinstance(n, dict):
            return None
        if n.get('k') == 'ref' and n.get('id') in self.alias and self.alias[n['id']][0] == 'box':
            return self.alias[n['id']]
        if n.get('k') in ('ref', 'mem') and is_box(n.get('t', '')):
            return ('box', text(n), n.get('k') == 'ref' and n.get('id') in self.local)
        if n.get('k') == 'call' and n.get('n') in ('operator*', 'operator->') and n.get('obj') is not None and is_box(n.get('t', '')):
            return ('box', text(n), False)
        return None

    def place(self, n):
        """what an expression denotes: ('v', id) owner variable, ('el', box, selector) element, or None"""
        n = peel(n)
        if not isinstance(n, dict):
            return None
        k, t = n.get('k'), n.get('t', '')
        if k == 'ref':
            i = n.get('id')
            if i in self.alias:
                return self.alias[i]
            if is_owner(t) or i in self.closures:
                return ('v', i)
            if i in self.iters:
                return ('el', self.iters[i], ('it', i))
            return None
        if k == 'mem':
            if n['n'] in ('second', 'm_source'):
                p = self.place(n.get('b'))
                if p is not None:
                    return p
                if n['n'] == 'm_source':
                    return ('f', text(n))
            if is_owner(t):
                return ('f', text(n))
            return None
        if k == 'ctor' and len(n.get('args', ())) == 1 and is_iter(t):
            return self.place(n['args'][0])
        if k == 'un' and n.get('op') in ('*', '&'):
            return self.place(n['e'])
        if k == 'call':
            nm, o = n.get('n'), n.get('obj')
            b = self.box(o) if o is not None else None
            if b is not None:
                if nm in ('front', 'begin', 'cbegin', 'rbegin', 'back') and not n.get('args'):
                    return ('el', b, 'back' if nm in ('back', 'rbegin') else 'front')
                if nm in ('at', 'operator[]', 'find'):
                    return ('el', b, ('key', text(n['args'][0])))
            if nm in ('operator*', 'operator->', 'get', 'getRef') and o is not None:
                return self.place(o)
            if nm == 'next' and n.get('args'):
                return None
        return None

    iters = {}

    def content(self, S, p):
        if p[0] == 'el':
            d = 'full'
            if isinstance(p[2], tuple) and p[2][0] == 'key':
                d = 'any'
                for (a, b) in S:
                    if a[0] == 'src' and 'v%s' % a[1] == p[2][1]:
                        d = b
            if isinstance(p[2], tuple) and p[2][0] == 'it':
                for (a, b) in S:
                    if a[0] == 'src' and a[1] == p[2][1]:
                        d = b
            return self.get(S, p, d)
        return self.get(S, p, 'none')

    # ---------------------------------------------------------------- transfer
    def take(self, n, p, S):
        """the object at p is handed over"""
        self.handled += 1
        c = self.content(S, p)
        if c == 'moved':
            self.err(n, 'handed over twice')
        elif c in ('gone', 'absent') and p[0] == 'el':
            self.err(n, 'an element no longer there is handed over')
        return self.set(S, p, 'moved')

    def use(self, n, p, S):
        if self.content(S, p) == 'moved':
            self.err(n, 'used after it was handed over')
        return S

    def moves(self, n):
        """places moved by std::move anywhere in n (not inside nested lambdas)"""
        out = []
        st = [n]
        while st:
            x = st.pop()
            if isinstance(x, list):
                st += x
                continue
            if not isinstance(x, dict) or x.get('k') == 'lambda':
                continue
            if x.get('k') == 'call' and x.get('q') == 'std::move' and len(x.get('args', ())) == 1:
                a = x['args'][0]
                if self.place(a) is not None or self.box(a) is not None:
                    out.append(a)
            st += [v for kk, v in x.items() if isinstance(v, (dict, list))]
        return out

    def brings(self, n):
        """does evaluating n deliver an object (moved in or made here)?"""
        n0 = peel(n)
        if self.moves(n):
            return True
        while isinstance(n0, dict) and n0.get('k') == 'ctor' and len(n0.get('args', ())) == 1 and n0.get('ck') in ('move', 'copy', None, 'conv'):
            n0 = peel(n0['args'][0])
        return isinstance(n0, dict) and n0.get('k') in ('call', 'new', 'ctor') and (is_owner(n0.get('t', '')) or is_box(n0.get('t', ''))) and not n0.get('t', '').rstrip().endswith('&') and not (n0.get('k') == 'ctor' and not n0.get('args')) and n0.get('n') not in ('operator[]', 'at', 'front', 'back', 'operator*')

    def inline(self, n, S):
        """local closures and non-virtual members called on this object are walked into"""
        o = peel(n['obj']) if n.get('obj') is not None else None
        body, params = None, []
        if n.get('n') == 'operator()' and o is not None and o.get('k') == 'ref' and o.get('id') not in self.closures:
            L = peel(self.inits.get(o['id']) or {})
            while L.get('k') == 'ctor' and len(L.get('args', ())) == 1:
                L = peel(L['args'][0])
            if L.get('k') == 'lambda' and not any(c.get('init') is not None for c in L.get('caps', ())):
                body, params = L.get('body'), L.get('params', [])
        elif self.F is not None and not n.get('virt') and (o is None or o.get('k') == 'this'):
            g = self.F.funcs.get(n.get('key'))
            if g is not None and g.get('body') and g is not self.f and strip_targs(g['q']).rsplit('::', 1)[0] == strip_targs(self.f['q']).rsplit('::', 1)[0] \
                    and any(is_box(x.get('t', '')) or is_owner(x.get('t', '')) for x in walk(g['body']) if x.get('k') == 'mem'):
                body, params = g['body'], g.get('params', [])
        if body is None:
            return None
        for q, a in zip(params, n.get('args', ())):
            TEXT[q['id']] = text(a)
            pl = self.box(a) or self.place(a)
            if pl is not None and not is_owner(q['t'].rstrip()) or pl is not None and q['t'].rstrip().endswith('&'):
                self.alias[q['id']] = pl
        for x in walk(body):
            if x.get('k') == 'decl':
                for v in x['vars']:
                    self.local.add(v['id'])
                    if v.get('init') is not None:
                        self.inits[v['id']] = v['init']
        return body

    def event(self, n, S):
        k = n.get('k')
        if k == 'vardecl':
            return (self.decl(n, n['v'], S),)
        if k == 'lambda':
            for c in n.get('caps', ()):
                if c.get('init') is not None:
                    for a in self.moves(c['init']):
                        p = self.place(a)
                        S = self.take(n, p, S) if p is not None else self.set(S, self.box(a), 'empty')
            return (S,)
        if k == 'ret':
            e = n.get('e')
            if e is not None:
                x = peel(e)
                while isinstance(x, dict) and x.get('k') == 'ctor' and len(x.get('args', ())) == 1:
                    x = peel(x['args'][0])
                b = self.box(x)
                if b is not None and b[2]:
                    S = self.set(S, b, 'empty')
                p = self.place(x)
                if p is not None and p[0] == 'v' and self.content(S, p) == 'full':
                    S = self.set(S, p, 'moved')
            return (S,)
        if k == 'asg':
            x = peel(n['x'])
            if x.get('k') == 'ref' and ('p', x.get('id')) in dict(S):
                return (self.set(S, ('p', x['id']), self.nul(n['y'], S)),)
            if x.get('k') == 'ref' and ('b', x.get('id')) in dict(S):
                y = peel(n['y'])
                vals = [y['v']] if y.get('k') == 'bool' else [True, False]
                if n.get('op') not in (None, '='):
                    vals = [True, False]
                return tuple(self.set(S, ('b', x['id']), v) for v in vals)
            return (S,)
        if k == 'call':
            return self.call(n, S)
        return (S,)

    def nul(self, y, S):
        y = peel(y)
        if y.get('k') == 'null' or y.get('k') == 'int' and y.get('v') == 0:
            return 'null'
        if y.get('k') == 'call' and y.get('n') == 'get' or y.get('k') == 'un' and y.get('op') == '&':
            return 'set'
        if y.get('k') == 'ref':
            return self.get(S, ('p', y.get('id')), '?')
        return '?'

    def afresh(self, S, i):
        """the variable i denotes something else now"""
        for a, c in list(S):
            if a[0] == 'f' and re.match(r'v%s(\.|$)' % i, a[1]):
                S = self.set(S, a, None)
        return S

    def decl(self, n, v, S):
        t, i, init = v.get('t', ''), v['id'], v.get('init')
        S = self.afresh(S, i)
        x = peel(init) if init is not None else None
        while isinstance(x, dict) and x.get('k') == 'ctor' and len(x.get('args', ())) == 1 and x.get('ck') in ('move', 'copy', None):
            x = peel(x['args'][0])
        if t.rstrip().endswith('&') and not t.rstrip().endswith('&&') and x is not None:
            b = self.box(x)
            p = self.place(x)
            if b is not None:
                self.alias[i] = b
            elif p is not None and i not in self.alias:
                self.alias[i] = p
            return S
        if is_owner(t):
            return self.set(S, ('v', i), 'full' if init is not None and self.brings(init) else 'none')
        if is_box(t):
            st = 'empty'
            if init is not None and (self.moves(init) or self.brings(init)):
                st = 'some'
            if st == 'some':
                for a in self.moves(init):
                    if self.box(a):
                        st = self.get(S, ('was', self.box(a)), 'some')
            return self.set(S, ('box', 'v%s' % i, True), st)
        if is_list(t) and not t.rstrip().endswith('&') and i in self.local:
            x2 = peel(init) if init is not None else None
            if x2 is None or x2.get('k') in ('ctor', 'initlist', 'init') and not x2.get('args') and not x2.get('e'):
                return self.set(S, ('L', i), frozenset())
            return self.set(S, ('L', i), frozenset(['any']))
        if is_iter(t) and x is not None:
            p = self.place(x)
            if p is not None and p[0] == 'el':
                if p[2] in ('front', 'back') and x.get('n') in ('begin', 'cbegin', 'rbegin'):
                    self.iters = dict(self.iters)
                    self.iters[i] = p[1]
                    S = self.set(self.set(S, ('left', p[1]), None), ('at0', i), True)
                    return self.set(self.set(S, ('el', p[1], ('it', i)), None), ('ls', i), None)
                self.alias[i] = p
                S = self.set(S, p, None)
            return S
        if isinstance(x, dict) and x.get('k') == 'lambda':
            own = any(c.get('init') is not None and self.moves(c['init']) for c in x.get('caps', ())) or any(not c.get('ref') and c.get('id') in self.closures for c in x.get('caps', ()))
            if own:
                self.closures.add(i)
                return self.set(S, ('v', i), 'full')
            return S
        if t.rstrip().endswith('*') and not t.startswith('const char'):
            return self.set(S, ('p', i), self.nul(init, S) if init is not None else '?')
        if t in ('bool', 'const bool'):
            if isinstance(x, dict) and x.get('k') == 'bool':
                return self.set(S, ('b', i), x['v'])
            return S
        return S

    def drop(self, n, p, S, what):
        c = self.content(S, p)
        if c == 'full' and self.get(S, ('hollow', p)) is None:
            self.err(n, what)
        elif c == 'any':
            self.doubt(n, what)
        return S

    def call(self, n, S):
        nm, q, o, args = n.get('n'), n.get('q', ''), n.get('obj'), n.get('args', [])
        if q == 'std::move' and len(args) == 1:
            p = self.place(args[0])
            if p is not None:
                return (self.take(n, p, S),)
            b = self.box(args[0])
            if b is not None:
                was = self.get(S, b, 'some' if not b[2] else 'empty')
                return (self.set(self.set(S, b, 'empty'), ('was', b), was),)
            # moving out of a dereferenced element moves its content
            return (S,)
        if nm in ('move', 'copy', 'move_backward') and q.startswith('std::') and len(args) == 3:
            ends = [peel(a) for a in (args[:2] if nm != 'copy' else self.ends(args))]
            src = [self.box(e.get('obj')) if e.get('k') == 'call' and e.get('n') in ('begin', 'end', 'cbegin', 'cend') else None for e in ends]
            dst = [self.box(x['args'][0]) for x in walk(args[2]) if x.get('k') == 'call' and x.get('n') in ('back_inserter', 'inserter', 'front_inserter')]
            if len(src) == 2 and src[0] is not None and src[0] == src[1] and ends[0]['n'].lstrip('c') == 'begin' and ends[1]['n'].lstrip('c') == 'end' and len(dst) == 1 and dst[0] is not None:
                was = self.get(S, src[0], 'some')
                S = self.set(S, src[0], 'hollow' if was != 'empty' else was)
                return (self.set(S, dst[0], 'some') if was != 'empty' else S,)
            if any(x is not None for x in src):
                self.doubt(n, 'objects are moved out of a container')
        b = self.box(o) if o is not None else None
        if nm in ('operator*', 'operator->') and o is not None:
            p = self.place(o)
            x = peel(o)
            if p is not None and not (x.get('k') == 'ref' and x.get('id') in self.iters) and not is_iter(x.get('t', '')):
                S = self.use(n, p, S)
        if nm == 'operator()' and o is not None:
            p = self.place(o)
            if p is not None and p[0] == 'v' and p[1] in self.closures:
                return (self.take(n, p, S),)
        if nm == 'operator=' and o is not None and len(args) == 1:
            if b is not None:
                if b[2] and self.get(S, b, 'empty') == 'some':
                    self.err(n, 'the container is replaced while it still holds objects')
                st = 'some'
                for a in self.moves(args[0]):
                    if self.box(a):
                        st = self.get(S, ('was', self.box(a)), 'some')
                return (self.set(S, b, st),)
            p = self.place(o)
            if p is not None and (is_owner(n.get('t', '')) or is_owner(peel(o).get('t', ''))):
                if p[0] == 'el' and isinstance(p[2], tuple) and p[2][0] == 'key' and not p[1][2] and self.content(S, p) == 'any' and not any(a[0] == 'src' and 'v%s' % a[1] == p[2][1] for a, _ in S):
                    (self.err if self.f['q'].split('::')[-1].startswith('receive') else self.doubt)(n, 'an object that may be stored under the key is replaced')
                elif p[0] != 'f' and self.content(S, p) in ('full', 'any'):
                    S = self.drop(n, p, S, 'an object is replaced while it is still owned')
                null = peel(args[0]).get('k') == 'null'
                if p[0] == 'f':
                    return (S,)
                return (self.set(S, p, 'none' if null else 'full'),)
        if nm in ('reset', 'release') and o is not None:
            p = self.place(o)
            if p is not None:
                S = self.drop(n, p, S, 'an object is dropped')
                return (self.set(S, p, 'moved'),)
        if nm == 'swap' and o is not None and b is not None and args and self.box(args[0]) is not None:
            b2 = self.box(args[0])
            x, y = self.get(S, b, 'some' if not b[2] else 'empty'), self.get(S, b2, 'some' if not b2[2] else 'empty')
            return (self.set(self.set(S, b, y), b2, x),)
        if b is not None:
            if nm in ('emplace_back', 'push_back', 'emplace', 'insert', 'push_front', 'emplace_front', 'insert_or_assign', 'try_emplace'):
                rng = [self.box(peel(x).get('obj')) for x in self.ends(args)]
                if rng:
                    if len(rng) != 2 or rng[0] != rng[1] or None in rng:
                        self.doubt(n, 'a range of objects is inserted')
                    else:
                        names = [peel(x).get('n') for x in self.ends(args)]
                        if sorted(names) != ['begin', 'end']:
                            self.doubt(n, 'a range of objects is inserted')
                        st = self.get(S, rng[0], 'some')
                        S = self.set(S, rng[0], 'empty')
                        if st == 'some':
                            S = self.set(S, b, 'some')
                    return (S,)
                return (self.set(S, b, 'some'),)
            if nm == 'clear':
                if self.get(S, ('holes', b)) is not None and not self.get(S, ('left', b)):
                    return (self.set(self.set(S, b, 'empty'), ('holes', b), None),)
                S = self.set(S, ('holes', b), None)
                if self.get(S, b, None) not in ('empty', 'hollow'):
                    self.err(n, 'a container is cleared while it still holds objects') if self.get(S, b) == 'some' or not b[2] else None
                return (self.set(S, b, 'empty'),)
            if nm in ('pop_front', 'pop_back', 'erase'):
                if nm == 'erase' and len(args) != 1:
                    self.doubt(n, 'a range is erased')
                    return (S,)
                p = ('el', b, 'front' if nm == 'pop_front' else 'back') if nm != 'erase' else self.place(args[0])
                x = peel(args[0]) if args else {}
                while x.get('k') == 'ctor' and len(x.get('args', ())) == 1:
                    x = peel(x['args'][0])
                if p is None and x.get('k') == 'ref' and x.get('dk') == 'parm':
                    return (S,)               # the caller designates the element to give up
                if p is None and nm == 'erase':
                    p = ('el', b, ('key', text(x)))
                    if x.get('k') == 'ref':
                        for (a, c) in S:
                            if a == ('src', x.get('id')):
                                p = ('el', b, ('key', text(x)))
                    # (an iterator out of a list of iterators)
                    for (a, c) in S:
                        if a[0] == 'el' and isinstance(a[2], tuple) and a[2][1] == x.get('id'):
                            p = a
                S = self.drop(n, p, S, 'an element is erased while it still holds its object')
                for q2 in list(dict(S)):
                    if q2[0] == 'el' and q2[1] == b and q2 != p and self.same(q2, p):
                        S = self.set(S, q2, None)
                if p[2] in ('front', 'back'):
                    return (self.set(S, p, 'full'),)
                return (self.set(S, p, 'gone'),)
        if o is not None and nm in ('push_back', 'emplace_back', 'insert', 'emplace') and len(args) == 1:
            # lists of iterators or keys of elements
            x = peel(args[0])
            i, c = None, None
            if x.get('k') == 'ref' and x.get('id') in self.iters:
                i, c = x['id'], self.content(S, ('el', self.iters[x['id']], ('it', x['id'])))
            elif x.get('k') == 'mem' and x['n'] == 'first' and peel(x['b']).get('k') == 'ref' and ('cur', peel(x['b'])['id']) in dict(S):
                i, c = peel(x['b'])['id'], 'full'
            L = peel(o)
            if i is None and L.get('k') == 'ref' and ('L', L.get('id')) in dict(S):
                return (self.set(S, ('L', L['id']), self.get(S, ('L', L['id'])) | {'any'}),)
            if i is not None and L.get('k') == 'ref':
                if self.get(S, ('ls', i)):
                    self.err(n, 'the same element is listed twice')
                S = self.set(S, ('ls', i), True)
                have = self.get(S, ('L', L['id']), frozenset())
                return (self.set(S, ('L', L['id']), have | {c}),)
        if nm == 'operator++' and o is not None and peel(o).get('k') == 'ref' and peel(o).get('id') in self.iters:
            return (self.retire(n, peel(o)['id'], S),)
        if o is not None and peel(o).get('k') == 'ref' and ('L', peel(o).get('id')) in dict(S) and nm not in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'find', 'count', 'reserve', 'rbegin', 'rend'):
            S = self.set(S, ('L', peel(o)['id']), frozenset() if nm == 'clear' else self.get(S, ('L', peel(o)['id'])) | {'any'})
        for a in args:
            x = peel(a)
            if x.get('k') == 'ref' and ('L', x.get('id')) in dict(S):
                S = self.set(S, ('L', x['id']), self.get(S, ('L', x['id'])) | {'any'})
        # a closure handed to somebody
        for a in args:
            for x in walk(a):
                if x.get('k') == 'ref' and x.get('id') in self.closures and q != 'std::move':
                    p = ('v', x['id'])
                    if self.get(S, p) == 'full' and not any(y.get('k') == 'call' and y.get('q') == 'std::move' for y in walk(a)) and nm not in ('operator*', 'operator->'):
                        S = self.take(n, p, S)
        return (S,)

    def same(self, a, b):
        return False

    def ends(self, args):
        """the iterators wrapped by make_move_iterator among the arguments"""
        out = []
        for a in args:
            for x in walk(a):
                if x.get('k') == 'call' and x.get('n') == 'make_move_iterator':
                    out.append(x['args'][0])
        return out

    def retire(self, n, i, S, last=False):
        """the iterator i moves on"""
        b = self.iters[i]
        p = ('el', b, ('it', i))
        if self.get(S, p) == 'moved' and not self.get(S, ('ls', i)):
            S = self.set(S, ('holes', b), n.get('l', 0))
        elif not last and self.get(S, p) != 'gone' and not self.get(S, ('at0', i)):
            S = self.set(S, ('left', b), True)
        S = self.set(S, ('at0', i), None)
        return self.set(self.set(S, p, None), ('ls', i), None)

    # ---------------------------------------------------------------- loops
    def iterate(self, n, S):
        v = n['var']
        i = v['id']
        b = self.box(n['range'])
        if b is not None:
            S = self.past(n, S, i, b)
            self.alias[i] = ('el', b, ('cur', i))
            if self.get(S, b) == 'empty' and b[2]:
                return ()
            S = self.set(S, ('el', b, ('cur', i)), 'moved' if self.get(S, b) == 'hollow' else 'full')
            S = self.set(S, ('ls', i), None)
            return (self.set(S, ('cur', i), True),)
        r = peel(n['range'])
        S = self.afresh(S, i)
        if r.get('k') == 'ref' and ('L', r.get('id')) in dict(S):
            S = self.past(n, S, i, None)
            self.keyvars = getattr(self, 'keyvars', set()) | {i}
            for bx in self.listed_boxes(v):
                self.iters = dict(self.iters)
                self.iters[i] = bx
            return tuple(self.set(S, ('src', i), c) for c in self.get(S, ('L', r['id'])))
        if r.get('k') == 'ref' and is_list(r.get('t', '')) and r.get('id') in self.local:
            # an empty list of elements: no iteration
            if is_iter(v.get('t', '').rstrip('& ')):
                return ()
        return (S,)

    def listed_boxes(self, v):
        if is_iter(v.get('t', '').rstrip('& ')):
            bs = {self.box(n) for n in walk(self.f['body']) if n.get('k') == 'mem' and is_box(n.get('t', ''))}
            bs = {b for b in bs if b is not None}
            if len(bs) == 1:
                return list(bs)
        return []

    def past(self, n, S, i, b):
        """the previous element of a loop is behind"""
        if b is not None:
            p = ('el', b, ('cur', i))
            c = self.get(S, p)
            if c == 'full' and self.get(S, ('cur', i)):
                S = self.set(S, ('left', b), True)
            if c == 'moved':
                S = self.set(S, ('took', b), True)
            S = self.set(S, p, None)
            return S
        for a, c in list(S):
            if a[0] == 'el' and isinstance(a[2], tuple) and (a[2] == ('it', i) or a[2] == ('key', 'v%s' % i)):
                if c == 'moved':
                    self.err(n, 'an element without its object is left in the container')
                S = self.set(S, a, None)
        return self.set(S, ('src', i), None)

    def done(self, n, S):
        i = n['var']['id']
        b = self.box(n['range'])
        if b is not None:
            if self.get(S, ('cur', i)) is None:
                return (self.set(S, b, 'empty'),)
            S = self.past(n, S, i, b)
            if b[2] or self.get(S, ('took', b)):
                left = self.get(S, ('left', b))
                if left and self.get(S, ('took', b)):
                    self.err(n, 'not every object of the container is handed over')
                if not left:
                    S = self.set(S, b, 'hollow')
            S = self.set(self.set(self.set(S, ('left', b), None), ('cur', i), None), ('took', b), None)
            return (S,)
        return (self.past(n, S, i, None),)

    def leave(self, v, S):
        i = v['id']
        if i in self.iters:
            S = self.retire({'l': v.get('l', 0)}, i, S, True)
        p = ('v', i)
        if self.get(S, p) == 'full' and self.get(S, ('hollow', p)) is None:
            self.lost(v, S)
        b = ('box', 'v%s' % i, True)
        if self.get(S, b) == 'some':
            self.lost(v, S)
        return (frozenset(x for x in S if x[0] not in (p, b, ('p', i), ('b', i), ('L', i))),)

    def lost(self, v, S):
        self.bad.setdefault((v.get('l', 0), '%s is dropped with the object it owns' % v.get('n', 'a variable')), v)

    # ---------------------------------------------------------------- conditions
    def branch(self, c, truth, S):
        c = peel(c)
        k = c.get('k')
        op, x, y = None, None, None
        if k == 'bin' and c['op'] in ('==', '!='):
            op, x, y = c['op'], peel(c['x']), peel(c['y'])
        elif k == 'call' and c.get('n') in ('operator==', 'operator!=') :
            aa = ([c['obj']] if c.get('obj') is not None else []) + c.get('args', [])
            if len(aa) == 2:
                op, x, y = c['n'][8:], peel(aa[0]), peel(aa[1])
        if op:
            for a, b in ((x, y), (y, x)):
                if a.get('k') == 'ref' and ('p', a.get('id')) in dict(S) and self.nul(b, S) == 'null':
                    return self.refine(S, ('p', a['id']), 'null' if (op == '==') == truth else 'set')
                if self.place(a) is not None and b.get('k') == 'null' and self.place(a)[0] == 'v':
                    return (S,)
            # an iterator at the end of its container
            for a, b in ((x, y), (y, x)):
                if a.get('k') == 'ref' and a.get('id') in self.iters and b.get('k') == 'call' and b.get('n') in ('end', 'cend') and self.box(b.get('obj')) == self.iters[a['id']] and self.get(S, ('at0', a['id'])):
                    bx = self.iters[a['id']]
                    if (op == '==') == truth:
                        return (self.set(self.set(S, bx, 'empty'), ('at0', a['id']), None),)
                    if self.get(S, bx) == 'empty':
                        return ()
                    return (self.set(S, ('at0', a['id']), None),)
            # presence in a map
            for a, b in ((x, y), (y, x)):
                fa = self.place(a) if a.get('k') == 'call' and a.get('n') == 'find' else (self.alias.get(a.get('id')) if a.get('k') == 'ref' else None)
                if fa is not None and fa[0] == 'el' and b.get('k') == 'call' and b.get('n') in ('end', 'cend') and self.box(b.get('obj')) == fa[1]:
                    want = 'absent' if (op == '==') == truth else 'full'
                    cur = self.content(S, fa)
                    if cur in ('any', want):
                        return (self.set(S, fa, want),)
                    if cur == 'full' and want == 'absent' and a.get('k') == 'ref':
                        return (self.set(S, fa, want),)
                    return ()
            # emptiness of a group
            if x.get('k') == 'call' and y.get('k') == 'call' and {x.get('n'), y.get('n')} <= {'begin', 'end', 'cbegin', 'cend'} and x.get('n') != y.get('n'):
                p, p2 = self.owner_of(x), self.owner_of(y)
                if p is not None and p == p2 and (op == '==') == truth:
                    return (self.set(S, ('hollow', p), True),)
            if x.get('k') == 'call' and x.get('n') == 'size' and y.get('k') == 'int' and y.get('v') == 0 and (op == '==') == truth:
                p = self.owner_of(x)
                if p is not None:
                    return (self.set(S, ('hollow', p), True),)
        if k == 'call' and c.get('n') in ('count', 'contains') and self.box(c.get('obj')) is not None:
            return self.present(S, c, truth)
        if op and {x.get('k'), y.get('k')} == {'call', 'int'}:
            cc, ii = (x, y) if x.get('k') == 'call' else (y, x)
            if cc.get('n') == 'count' and ii.get('v') in (0, 1) and self.box(cc.get('obj')) is not None:
                return self.present(S, cc, ((op == '==') == truth) == (ii['v'] == 1))
        if op:
            for a, b in ((x, y), (y, x)):
                if b.get('k') == 'null' and self.place(a) is not None and self.place(a)[0] == 'el':
                    return self.filled(S, self.place(a), (op == '!=') == truth)
        if k == 'call' and c.get('n') == 'operator bool' and c.get('obj') is not None and self.place(c['obj']) is not None and self.place(c['obj'])[0] == 'el':
            return self.filled(S, self.place(c['obj']), truth)
        if k == 'bin' and c['op'] in ('>', '<', '>=', '<='):
            for a, b, o2 in ((peel(c['x']), peel(c['y']), c['op']), (peel(c['y']), peel(c['x']), {'>': '<', '<': '>', '>=': '<=', '<=': '>='}[c['op']])):
                if a.get('k') == 'call' and a.get('n') == 'count' and b.get('k') == 'int' and self.box(a.get('obj')) is not None and (o2, b['v']) in (('>', 0), ('>=', 1), ('<', 1), ('<=', 0)):
                    return self.present(S, a, truth == (o2 in ('>', '>=')))
            x, y = peel(c['x']), peel(c['y'])
            if x.get('k') == 'call' and x.get('n') == 'size' and y.get('k') == 'int' and (c['op'], y['v'], truth) in (('>', 0, False), ('>=', 1, False), ('<', 1, True), ('<=', 0, True)):
                p = self.owner_of(x)
                if p is not None:
                    return (self.set(S, ('hollow', p), True),)
        if k == 'call' and c.get('n') == 'empty' and truth:
            p = self.owner_of(c)
            if p is not None:
                return (self.set(S, ('hollow', p), True),)
            b = self.box(c.get('obj'))
            if b is not None and b[2]:
                return (self.set(S, b, 'empty'),) if self.get(S, b, 'empty') != 'hollow' else (S,)
        if k == 'call' and c.get('n') == 'size' and not truth:
            p = self.owner_of(c)
            if p is not None:
                return (self.set(S, ('hollow', p), True),)
        if k == 'ref' and ('p', c.get('id')) in dict(S):
            return self.refine(S, ('p', c['id']), 'set' if truth else 'null')
        if k == 'ref' and ('b', c.get('id')) in dict(S):
            return (S,) if self.get(S, ('b', c['id'])) == truth else ()
        if k == 'ref' and c.get('t') in ('bool', 'const bool') and c.get('id') in self.inits and c.get('id') not in self.assigned():
            i = peel(self.inits[c['id']])
            neg = False
            while i.get('k') == 'un' and i.get('op') == '!':
                i, neg = peel(i['e']), not neg
            if i.get('k') in ('bin', 'call') and i.get('op') not in ('&&', '||') and not any(x.get('q') == 'std::move' for x in walk(i)):
                return self.branch(i, truth != neg, S)
        if k == 'call' and c.get('n') == 'operator bool' and c.get('obj') is not None:
            o = peel(c['obj'])
            if 'PipelineReceiver' in o.get('t', '') and o.get('k') == 'mem' and not truth:
                # nobody listens: the pipeline ends here
                for a, v in list(S):
                    if a[0] == 'v':
                        S = self.set(S, ('hollow', a), True)
                return (S,)
        return (S,)

    def present(self, S, c, there):
        return self.filled(S, ('el', self.box(c['obj']), ('key', text(c['args'][0]))), there)

    def filled(self, S, p, there):
        cur = self.content(S, p)
        want = 'full' if there else 'absent'
        if cur in ('any', want):
            return (self.set(S, p, want),)
        if cur in ('gone', 'moved', 'none') and not there:
            return (S,)
        if cur == 'full' and p[2] in ('front', 'back'):
            return (S,)
        return ()

    def assigned(self):
        if not hasattr(self, '_asg'):
            self._asg = {peel(x['x']).get('id') for x in walk(self.f.get('body') or {}) if x.get('k') == 'asg' and peel(x['x']).get('k') == 'ref'}
        return self._asg

    def owner_of(self, x):
        o = x.get('obj')
        p = self.place(o) if o is not None else None
        if p is None and o is not None:
            y = peel(o)
            if y.get('k') == 'call' and y.get('n') in ('operator->', 'operator*'):
                p = self.place(y.get('obj'))
        return p if p is not None and p[0] == 'v' else None

    def refine(self, S, k, v):
        cur = self.get(S, k)
        if cur == '?':
            return (self.set(S, k, v),)
        return (S,) if cur == v else ()


def opaque(f):
    """local variables of other kinds that are reassigned and tested: the paths may be correlated through them"""
    decl, asg, tested = {}, set(), set()
    body = f.get('body') or {}
    for n in walk(body):
        if n.get('k') == 'decl':
            for v in n['vars']:
                decl[v['id']] = v.get('t', '')
        if n.get('k') == 'asg' and peel(n['x']).get('k') == 'ref':
            asg.add(peel(n['x']).get('id'))
        if n.get('k') == 'call' and n.get('n') == 'operator=' and n.get('obj') is not None and peel(n['obj']).get('k') == 'ref':
            asg.add(peel(n['obj']).get('id'))
        c = n.get('c') if n.get('k') in ('if', 'while', 'for', 'do', 'cond') else None
        if isinstance(c, dict):
            for x in walk(c):
                if x.get('k') == 'ref':
                    tested.add(x.get('id'))
    out = []
    for i in asg & tested:
        t = decl.get(i, '')
        if i in decl and not t.rstrip().endswith('*') and t not in ('bool', 'const bool') and not is_owner(t):
            out.append(i)
    return out


def analyse(f, owners=(), closures=(), body=None, F=None):
    """run over a function; owners: parameters that own an object on entry.  Returns (client, exits)"""
    c = Own(f)
    c.F = F
    c.iters = {}
    S = frozenset()
    for p in f.get('params', ()):
        if is_owner(p['t']) and not p['t'].rstrip().endswith('&'):
            S |= {(('v', p['id']), 'full')}
        elif is_box(p['t']) and not p['t'].rstrip().endswith('&'):
            S |= {(('box', 'v%s' % p['id'], True), 'some')}
    for i in owners:
        S |= {(('v', i), 'full')}
    c.closures |= set(closures)
    fl = Flow(c)
    o = fl.run(f, {S})
    exits = set(o.next) | {s for _, _, s in o.ret}
    for s in exits:
        for p in f.get('params', ()):
            k = ('v', p['id'])
            if c.get(s, k) == 'full' and c.get(s, ('hollow', k)) is None:
                c.lost(p, s)
        for i in owners:
            if c.get(s, ('v', i)) == 'full':
                c.lost({'n': 'captured object', 'l': f.get('l', 0)}, s)
        for a, v in s:
            if a[0] == 'holes':
                c.err({'l': v}, 'an element without its object is left in the container')
            if a[0] == 'box' and v == 'hollow' and not a[2]:
                c.err({'l': f.get('l', 0)}, 'elements without their objects are left in the container')
            if a[0] == 'el' and v == 'moved' and not (a[1][2]) and not (isinstance(a[2], tuple) and a[2][0] == 'cur'):
                c.err({'l': f.get('l', 0)}, 'an element without its object is left in the container')
    return c, exits
