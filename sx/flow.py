"""Forward dataflow / typestate engine over the structured bodies of the extracted program.

A client supplies hashable abstract states and transfer functions; every statement is executed on sets of states, loops
run to a fixed point, exceptional and early exits are kept apart, and automatic objects are destroyed on every way out of
their scope.  Nothing is executed: the engine only walks the syntax tree of the current sources."""
from .facts import walk, Broken


class TooBig(Exception):
    pass


class Client:
    """override what is needed; S is one state"""
    limit = 4000

    def event(self, n, S):            # n: evaluated expression / declaration node, after its operands
        return (S,)

    def before(self, n, S):           # n: call/ctor node, before its operands are evaluated
        return (S,)

    def branch(self, c, truth, S):    # refine on a leaf condition
        return (S,)

    def leave(self, v, S):            # automatic variable v goes out of scope
        return (S,)

    def endfull(self, n, S):          # end of full expression (temporaries die)
        return (S,)

    def throws(self, n, S):           # may evaluating this call leave by exception?
        return False

    def inline(self, n, S):           # (body, leave-variables) of a callee to walk into, or None
        return None

    def iterate(self, n, S):          # refine when a range-for takes another iteration
        return (S,)

    def done(self, n, S):             # refine when a range-for has run through its range
        return (S,)


class Out:
    __slots__ = ('next', 'brk', 'cont', 'ret', 'thr')

    def __init__(self, nxt=()):
        self.next = set(nxt)
        self.brk, self.cont = set(), set()
        self.ret, self.thr = set(), set()       # (id(node), line, state)


class Flow:
    def __init__(self, client):
        self.c = client
        self.nodes = {}
        self.depth = 0

    # ------------------------------------------------------------ expressions
    def evs(self, n, S, out):
        """evaluate expression n on a set of states; out collects exceptional exits"""
        if n is None or not S:
            return set(S)
        if isinstance(n, list):
            for x in n:
                S = self.evs(x, S, out)
            return S
        k = n.get('k')
        if k == 'bin' and n['op'] in ('&&', '||') or k == 'cond' or (k == 'un' and n['op'] == '!'):
            if k == 'cond':
                t, f = self.cond(n['c'], S, out)
                r = self.evs(n['a'], t, out) | self.evs(n['b'], f, out)
                return self.fire(n, r, out)
            t, f = self.cond(n, S, out)
            return t | f
        if k == 'lambda':
            return self.fire(n, S, out)
        if k == 'stmtexpr':
            o = self.st(n['b'], S)
            out.ret |= o.ret
            out.thr |= o.thr
            return o.next
        if k in ('call', 'ctor'):
            S = set(x for s in S for x in self.c.before(n, s))
        # operands
        for key in self.order(n):
            v = n.get(key)
            if isinstance(v, (dict, list)):
                S = self.evs(v, S, out)
        return self.fire(n, S, out)

    def order(self, n):
        k = n.get('k')
        if k == 'asg':
            return ('y', 'x')
        if k == 'call':
            return ('fn', 'obj', 'args')
        if k == 'bin':
            return ('x', 'y')
        if k == 'sizeof':
            return ()
        if k == 'new':
            return ('n', 'init')
        return tuple(x for x in ('b', 'e', 'x', 'y', 'i', 'c', 'a', 'args', 'fill', 'ch') if x in n)

    def fire(self, n, S, out):
        r = set()
        for s in S:
            if n.get('k') in ('call', 'ctor', 'new', 'throw', 'del'):
                t = self.c.throws(n, s)
                if t:
                    for s2 in (t if isinstance(t, (set, list, tuple)) else (s,)):
                        out.thr.add(self.mark(n, s2))
            if n.get('k') == 'call':
                inl = self.c.inline(n, s)
                if inl is not None and self.depth < 6:
                    self.depth += 1
                    o = self.st(inl, {s})
                    self.depth -= 1
                    out.thr |= o.thr
                    back = set(o.next) | {x[2] for x in o.ret}
                    for s2 in back:
                        r |= set(self.c.event(n, s2))
                    continue
            r |= set(self.c.event(n, s))
        if n.get('k') == 'throw':
            for s in r:
                out.thr.add(self.mark(n, s))
            return set()
        if len(r) > self.c.limit:
            raise TooBig()
        return r

    def mark(self, n, s):
        self.nodes[id(n)] = n
        return (id(n), n.get('l', 0), s)

    def cond(self, n, S, out):
        """(states where n is true, states where n is false)"""
        if n is None:
            return set(S), set()
        k = n.get('k')
        if k == 'bin' and n['op'] == '&&':
            t, f = self.cond(n['x'], S, out)
            t2, f2 = self.cond(n['y'], t, out)
            return t2, f | f2
        if k == 'bin' and n['op'] == '||':
            t, f = self.cond(n['x'], S, out)
            t2, f2 = self.cond(n['y'], f, out)
            return t | t2, f2
        if k == 'un' and n['op'] == '!':
            t, f = self.cond(n['e'], S, out)
            return f, t
        if k == 'cast' and not n.get('expl') and n.get('ck') in ('IntegralToBoolean', 'PointerToBoolean', 'UserDefinedConversion', 'NoOp', 'LValueToRValue', 'ConstructorConversion'):
            if n['e'].get('k') in ('bin', 'un') and n['e'].get('op') in ('&&', '||', '!'):
                return self.cond(n['e'], S, out)
        if k == 'bool':
            return (set(S), set()) if n['v'] else (set(), set(S))
        S = self.evs(n, S, out)
        return set(x for s in S for x in self.c.branch(n, True, s)), set(x for s in S for x in self.c.branch(n, False, s))

    # ------------------------------------------------------------ statements
    def full(self, n, S, out):
        S = self.evs(n, S, out)
        return set(x for s in S for x in self.c.endfull(n, s))

    def scoped(self, o, vs):
        """destroy the automatic variables vs on every way out"""
        for v in reversed(vs):
            lv = lambda s: self.c.leave(v, s)
            o.next = {x for s in o.next for x in lv(s)}
            o.brk = {x for s in o.brk for x in lv(s)}
            o.cont = {x for s in o.cont for x in lv(s)}
            o.ret = {(i, l, x) for i, l, s in o.ret for x in lv(s)}
            o.thr = {(i, l, x) for i, l, s in o.thr for x in lv(s)}
        return o

    def add(self, a, b, nxt=True):
        if nxt:
            a.next |= b.next
        a.brk |= b.brk
        a.cont |= b.cont
        a.ret |= b.ret
        a.thr |= b.thr

    def block(self, ss, S):
        out = Out(S)
        vs = []
        for s in ss:
            if s.get('k') == 'decl':
                o = Out()
                cur = out.next
                for v in s['vars']:
                    if v.get('static'):
                        vs_ = False
                    if 'init' in v:
                        cur = self.evs(v['init'], cur, o)
                    d = {'k': 'vardecl', 'v': v, 'l': v.get('l', s.get('l'))}
                    self.nodes[id(d)] = d
                    cur = {x for st in cur for x in self.c.event(d, st)}
                    if not v.get('static') and not v.get('t', '').endswith('&'):
                        # exceptions raised later destroy it, those raised so far do not
                        vs.append((v, len(out.thr)))
                cur = {x for st in cur for x in self.c.endfull(s, st)}
                out.thr |= {(i, l, x) for i, l, x in o.thr}
                self._thr_before(out, vs)
                out.next = cur
                continue
            if s.get('k') in ('case', 'default'):
                out.next |= self.sw_entry(s)
                sub = s.get('s')
                inner = sub
                while inner is not None and inner.get('k') in ('case', 'default'):
                    out.next |= self.sw_entry(inner)
                    inner = inner.get('s')
                o = self.st(inner, out.next) if inner is not None else Out(out.next)
            else:
                o = self.st(s, out.next)
            nxt = o.next
            self.add(out, o, False)
            out.next = nxt
        return self.finish_block(out, vs)

    def _thr_before(self, out, vs):
        pass

    def finish_block(self, out, vs):
        return self.scoped(out, [v for v, _ in vs])

    def sw_entry(self, s):
        return set(self.switches[-1]) if getattr(self, 'switches', None) else set()

    def st(self, n, S):
        if n is None:
            return Out(S)
        S = set(S)
        k = n.get('k')
        o = Out()
        if k == 'block':
            return self.block(n['s'], S)
        if k == 'nop':
            return Out(S)
        if k == 'decl':
            return self.block([n], S)
        if k == 'if':
            vs = []
            pre = []
            for key in ('init', 'cv'):
                d = n.get(key)
                if d is not None:
                    if d.get('k') == 'decl':
                        for v in d['vars']:
                            if 'init' in v:
                                S = self.evs(v['init'], S, o)
                            dd = {'k': 'vardecl', 'v': v, 'l': d.get('l')}
                            S = {x for s in S for x in self.c.event(dd, s)}
                            vs.append(v)
                    else:
                        S = self.full(d, S, o)
            t, f = self.cond(n['c'], S, o)
            t = {x for s in t for x in self.c.endfull(n, s)}
            f = {x for s in f for x in self.c.endfull(n, s)}
            a = self.st(n['a'], t) if t else Out()
            b = (self.st(n['b'], f) if n.get('b') is not None else Out(f))
            self.add(o, a)
            self.add(o, b)
            return self.scoped(o, vs)
        if k in ('for', 'while', 'do', 'rfor'):
            return self.loop(n, S)
        if k == 'ret':
            if n.get('e') is not None:
                S = self.full(n['e'], S, o)
            S = {x for s in S for x in self.c.event(n, s)}
            o.ret |= {self.mark(n, s) for s in S}
            return o
        if k == 'break':
            o.brk = S
            return o
        if k == 'cont':
            o.cont = S
            return o
        if k == 'switch':
            S = self.full(n['c'], S, o)
            self.switches = getattr(self, 'switches', []) + [S]
            b = self.st(n['b'], set())
            self.switches = self.switches[:-1]
            nxt = b.next | b.brk
            if not any(x.get('k') == 'default' for x in walk(n['b'])):
                nxt |= S
            b.brk = set()
            b.next = nxt
            self.add(o, b)
            return o
        if k in ('case', 'default'):
            return self.block([n], S)
        if k == 'try':
            b = self.st(n['b'], S)
            thr = b.thr
            b.thr = set()
            self.add(o, b)
            catchall = False
            for h in n['catches']:
                if 'var' not in h:
                    catchall = True
                hs = {s for _, _, s in thr}
                c = self.st(h['b'], hs) if hs else Out()
                # rethrow keeps the exit
                self.add(o, c)
            if not catchall:
                o.thr |= thr
            return o
        if k in ('label',):
            return self.st(n.get('s'), S)
        if k == 'goto':
            raise TooBig()
        # expression statement
        S = self.full(n, S, o)
        o.next = S
        return o

    def loop(self, n, S):
        k = n['k']
        o = Out()
        vs = []
        if k == 'for' and n.get('init') is not None:
            d = n['init']
            if d.get('k') == 'decl':
                for v in d['vars']:
                    if 'init' in v:
                        S = self.evs(v['init'], S, o)
                    dd = {'k': 'vardecl', 'v': v, 'l': d.get('l')}
                    S = {x for s in S for x in self.c.event(dd, s)}
                    vs.append(v)
            else:
                S = self.full(d, S, o)
        if k == 'rfor':
            S = self.full(n['range'], S, o)
        head = set(S)
        done = set()
        exits = set()
        first = True
        while True:
            new = head - done
            if not new:
                break
            done |= new
            if len(done) > self.c.limit:
                raise TooBig()
            if k == 'do':
                b = self.st(n['b'], new)
                cs = b.next | b.cont
                t, f = self.cond(n['c'], cs, o)
                exits |= f | b.brk
                head |= t
            else:
                if k == 'rfor':
                    dd = {'k': 'vardecl', 'v': n['var'], 'l': n.get('l')}
                    t = {x for s in new for x in self.c.iterate(n, s)}
                    t = {x for s in t for x in self.c.event(dd, s)}
                    f = {x for s in new for x in self.c.done(n, s)}
                else:
                    if n.get('cv') is not None:
                        for v in n['cv']['vars']:
                            if 'init' in v:
                                new = self.evs(v['init'], new, o)
                            dd = {'k': 'vardecl', 'v': v, 'l': n.get('l')}
                            new = {x for s in new for x in self.c.event(dd, s)}
                    t, f = self.cond(n.get('c'), new, o)
                    if n.get('c') is None:
                        f = set()
                exits |= f
                b = self.st(n['b'], t) if t else Out()
                cs = b.next | b.cont
                exits |= b.brk
                if k == 'for' and n.get('inc') is not None:
                    cs = self.full(n['inc'], cs, o)
                head |= cs
            o.ret |= b.ret
            o.thr |= b.thr
        o.next = exits
        return self.scoped(o, vs)

    # ------------------------------------------------------------ entry
    def run(self, f, S, with_inits=True):
        """(normal-exit states, [(node, line, state)] returns, [(node, line, state)] throws) of a function"""
        self.switches = []
        o = Out()
        S = set(S)
        for i in f.get('inits', ()) if with_inits else ():
            e = i.get('e')
            if e is not None:
                S = self.full(e, S, o)
                d = {'k': 'meminit', 'i': i, 'l': e.get('l', f['l'])}
                S = {x for s in S for x in self.c.event(d, s)}
        b = self.st(f['body'], S)
        o.thr |= b.thr
        o.ret |= b.ret
        o.next = b.next
        return o
