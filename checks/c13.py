"""C13: source flags - enumeration, operators, names and accumulation discipline."""
from sx.props import *
import sx.props as P
from sx.flow import Flow, Client, TooBig

FLAGS = 'SourceXtractor::Flags'
FILES = ('SEFramework/src/lib/Aperture/*.cpp', 'SEImplementation/src/lib/Plugin/*Photometry/*Task.cpp', 'SEImplementation/src/lib/Plugin/SourceFlags/*Task.cpp', 'SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFitting*Task.cpp')


def run(ck):
    ck.rule('bits', 'every flag except NONE is a distinct single bit below the sentinel')
    ck.rule('names', 'the name table maps every flag to its own name, so that printing any combination finds every name')
    ck.rule('operators', '| and & are the bitwise operations, |= accumulates into its left operand, flag * condition is the flag or NONE')
    ck.rule('printing', 'printing and exporting a combination visits every flag bit once, under the test that the bit is set')
    ck.rule('accumulate', 'once an accumulator may hold a flag it is only ever assigned a union that contains its previous value')
    ck.rule('union', 'the overall source flag is the union of the flags of its contributing measurements for every instance')
    ck.rule('python', 'flags exported to Python keep name and value')
    F = ck.F = Facts([VERIF + '/drivers/utils.cpp'] + tus(*FILES) + tus('SEImplementation/src/lib/PythonConfig/PythonModule.cpp'))
    E = F.enums.get(FLAGS)
    if not E:
        raise Broken('enum Flags vanished')
    where = '%s:%d' % (FX_rel(E['file']), E['l'])
    seen = {}
    sent = dict(E['c']).get('SENTINEL')
    for n, v in E['c']:
        if n == 'NONE':
            ck.ok(v == 0, 'bits', where, 'NONE is %d' % v)
            continue
        ok = v > 0 and (v & (v - 1)) == 0
        ck.ok(ok and v not in seen and (sent is None or n == 'SENTINEL' or v < sent), 'bits', where, '%s = %d%s' % (n, v, '' if v not in seen else ', same bit as ' + seen[v]), key='bits-%s@%s' % (n, FX_rel(E['file'])))
        seen.setdefault(v, n)
    ck.section(names, ck, F, E)
    ck.section(operators, ck, F)
    ck.section(printing, ck, F, E)
    ck.section(accumulate, ck, F)
    ck.section(union, ck, F)
    ck.section(python, ck, F)
    return 20


def FX_rel(f):
    from sx.facts import rel
    return rel(f)


def names(ck, F, E):
    g = F.vars.get('SourceXtractor::FlagsStr') or {}
    v = dict(g.get('v') or {}, file=g.get('file'))
    if not v or not isinstance(v.get('init'), dict):
        return ck.undecided('names', 'SourceFlags.h', 'name table not found')
    pairs = {}
    for n in walk(v['init']):
        if n['k'] == 'ctor' and len(n['args']) == 2 and 'pair' in n.get('q', ''):
            ks = [x for x in walk(n['args'][0]) if x['k'] == 'ref' and x.get('dk') == 'enum'] or [x for x in walk(n['args'][0]) if x['k'] == 'ref']
            ss = [x for x in walk(n['args'][1]) if x['k'] == 'str']
            if len(ks) == 1 and len(ss) == 1:
                if ks[0]['n'] not in pairs:           # the first insertion wins
                    pairs[ks[0]['n']] = ss[0]['v']
    where = '%s:%d' % (FX_rel(v['file']), v['l']) if v.get('file') else 'SourceFlags.h'
    if not pairs:
        return ck.undecided('names', where, 'no entry recognised')
    # is the table consulted by an operation that throws for a missing entry?
    for n, _ in E['c']:
        if n == 'SENTINEL':
            continue
        if n not in pairs:
            ck.fail('names', where, 'flag %s has no entry in the name table: printing it throws' % n, key='names-%s@SourceFlags.h' % n)
        else:
            ck.ok(pairs[n] == n, 'names', where, 'flag %s is printed as "%s"' % (n, pairs[n]))


def operators(ck, F):
    a, b = sym('a', 'i'), sym('b', 'i')
    for nm, want in (('operator|', 'bor'), ('operator&', 'band')):
        for f in F.fn('SourceXtractor::' + nm):
            if len(f['params']) == 2 and all('Flags' in p['t'] for p in f['params']):
                s = summarise(F, f, args={0: a, 1: b})
                ck.eqv('operators', f, s.ret, app(want, (a, b), 'i'), what=nm)
    for f in F.fn('SourceXtractor::operator|='):
        if 'Flags' in f['params'][0]['t']:
            fr = {}
            s = summarise(F, f, args={0: Ref(('fld', sym('acc', 'o'), 'flags')), 1: b})
            v = s.it.rd(s.st, ('fld', sym('acc', 'o'), 'flags'), FLAGS)
            ck.eqv('operators', f, v, app('bor', (mk('app', ('fld', 'flags', sym('acc', 'o')), 'i'), b), 'i'), what='operator|=')
    for f in F.fn('SourceXtractor::operator*'):
        if len(f['params']) == 2 and 'Flags' in f['params'][0]['t']:
            c = sym('c', 'b')
            s = summarise(F, f, args={0: a, 1: c})
            ck.eqv('operators', f, s.ret, ite(c, a, num(0)), what='operator*')
    for f in F.fn('SourceXtractor::flags2long'):
        if 'vector' not in f['params'][0]['t']:
            s = summarise(F, f, args={0: a})
            ck.eqv('operators', f, s.ret, a, what='flags2long')


def printing(ck, F, E):
    fl = sym('flags', 'i')
    for f in F.fn('SourceXtractor::operator<<'):
        if len(f['params']) != 2 or not flagtype(f['params'][1]['t']):
            continue
        s = summarise(F, f, args={0: sym('out', 'o'), 1: fl})
        es = [e for e in s.effects if e.kind == 'mapat' and e.loops]
        if len(es) != 1:
            return ck.undecided('printing', f, '%d name look-ups' % len(es))
        e = es[0]
        L = e.loops[-1]
        key = e.d['key']
        if key not in L.step:
            return ck.undecided('printing', f, 'the looked-up flag is not the loop counter')
        v, w = L.step[key]
        seen, ok = [], True
        guard = [p for p in e.pc if key in subterms(p)]
        for _ in range(80):
            if const(v) is None:
                return ck.undecided('printing', f, 'the visited flags are not constants')
            m = {key: v}
            ent = [subst(p, m) for p in L.facts]
            if any(p is FALSE for p in ent):
                break
            if any(p is not TRUE for p in ent):
                return ck.undecided('printing', f, 'loop condition is not decided')
            g = band(*[subst(p, m) for p in guard])
            want = bnot(eq(app('band', (fl, v), 'i'), num(0)))
            r, why = equal(g, want)
            if r:
                seen.append(int(const(v)))
            elif r is None:
                return ck.undecided('printing', f, why)
            else:
                ok = False
                ck.fail('printing', f, 'flag value %d is named under the condition %s' % (const(v), show(g)))
            v = subst(w, m)
        if ok:
            miss = [n for n, b in E['c'] if n not in ('NONE', 'SENTINEL') and b not in seen]
            extra = [b for b in seen if b not in dict((y, x) for x, y in E['c'])]
            ck.ok(not miss, 'printing', f, 'every flag is visited' if not miss else 'flags never printed: ' + ', '.join(miss))
    for f in F.fn('SourceXtractor::flags2long'):
        if 'vector' not in f['params'][0]['t']:
            continue
        v = sym('v', 'o')
        s = summarise(F, f, args={0: v})
        ps = [e for e in s.effects if e.kind == 'push']
        if len(ps) == 1 and ps[0].loops and loop_subst(ps[0]):
            x, v0, L = loop_subst(ps[0])
            lo, hi = trange(L, x)
            ck.eqv('printing', f, ps[0].d['val'], mk('app', ('elem', v, x), 'i'), what='element')
            ck.ok(lo is num(0) or const(lo) == 0, 'printing', f, 'starts at %s' % show(lo))
        else:
            ck.undecided('printing', f, 'loop not recognised')


def path(n):
    """(access path, printable) of an lvalue built from variables and members, or None"""
    k = n.get('k')
    if k == 'ref':
        return ('v', n.get('id') if n.get('id') is not None else n.get('n')), n.get('n')
    if k == 'this':
        return ('this',), 'this'
    if k == 'mem':
        p = path(n['b'])
        return (p[0] + ('.', n['n']), p[1] + '.' + n['n']) if p else None
    if k == 'cast' and not n.get('expl'):
        return path(n['e'])
    if k == 'un' and n['op'] == '*':
        return path(n['e'])
    return None


def flagtype(t):
    return ctype(t or '') == FLAGS


class Acc(Client):
    """state: frozenset of access paths that may hold a flag"""
    def __init__(self):
        self.bad = {}
        self.sites = set()

    def isnone(self, n):
        while n.get('k') in ('cast',):
            n = n['e']
        return n.get('k') == 'ref' and n.get('n') == 'NONE'

    def contains(self, n, p):
        """expression n is a union that has the current value of p as a member"""
        while n.get('k') == 'cast':
            n = n['e']
        q = path(n)
        if q and q[0] == p:
            return True
        if n.get('k') == 'call' and n.get('op') == '|':
            return any(self.contains(a, p) for a in ([n['obj']] if n.get('obj') else []) + n['args'])
        if n.get('k') == 'bin' and n.get('op') == '|':
            return self.contains(n['x'], p) or self.contains(n['y'], p)
        if n.get('k') == 'cond':
            return self.contains(n['a'], p) and self.contains(n['b'], p)
        return False

    def event(self, n, S):
        k = n['k']
        if k == 'vardecl' and flagtype(n['v'].get('t')):
            p = ('v', n['v']['id'])
            S = S - {p}
            if 'init' in n['v'] and not self.isnone(n['v']['init']):
                S = S | {p}
            self.sites.add((n['l'], 'decl'))
            return (S,)
        lhs = rhs = None
        if k == 'asg' and flagtype(n.get('t')):
            lhs, rhs, op = n['x'], n['y'], n['op']
        elif k == 'call' and n.get('op') in ('|=', '=', '&=') and n['args'] and flagtype(n['args'][0].get('t', '') if not n.get('obj') else n['obj'].get('t', '')):
            a = ([n['obj']] if n.get('obj') else []) + n['args']
            lhs, rhs, op = a[0], a[1], n['op']
        if lhs is None:
            return (S,)
        p = path(lhs)
        if p is None:
            return (S,)
        self.sites.add((n['l'], op))
        p, nm = p
        if op == '|=':
            return (S | {p},)
        if op == '=' and self.contains(rhs, p):
            return (S | {p},)
        if p in S:
            self.bad[(n['l'], nm)] = op
        if op == '=':
            return (S - {p},) if self.isnone(rhs) else (S | {p},)
        return (S,)


def accumulate(ck, F):
    nf = 0
    for f in sorted(F.funcs.values(), key=lambda f: (f['file'], f['l'])):
        if f.get('dep') or not f.get('body') or not f['file'].startswith(REPO):
            continue
        if not any((n['k'] == 'ref' or n['k'] == 'mem' or n['k'] == 'asg') and flagtype(n.get('t')) for n in walk(f['body'])):
            continue
        if FLAGS in ''.join(p['t'] for p in f['params']) and f['n'].startswith('operator'):
            continue
        c = Acc()
        try:
            Flow(c).run(f, {frozenset()})
        except TooBig:
            ck.undecided('accumulate', f, 'state space too large')
            continue
        if not any(op != 'decl' for _, op in c.sites):
            continue
        nf += 1
        if c.bad:
            for (l, nm), op in c.bad.items():
                ck.fail('accumulate', '%s:%d' % (FX_rel(f['file']), l), '%s: %s is overwritten by "%s" although it may already hold flags' % (f['q'], nm, op))
        else:
            ck.holds('accumulate', f, '%d writes' % len(c.sites))
    ck.count('accumulating_functions', nf)


CONTRIB = (('SaturateFlag', 'getSaturateFlag', 'SATURATED'), ('BoundaryFlag', 'getBoundaryFlag', 'BOUNDARY'), ('BlendedFlag', 'getBlendedFlag', 'BLENDED'), ('MeasurementFrameRectangle', 'badProjection', 'BAD_PROJECTION'))


def bits_of(t, x):
    """(contains x, constant bits) of a union term, or None"""
    if t is x:
        return True, 0
    c = const(t)
    if c is not None:
        return False, int(c)
    if t.op == 'app' and t.a[0] == 'bor':
        r = [bits_of(y, x) for y in t.a[1:]]
        if None in r:
            return None
        return any(y[0] for y in r), __import__('functools').reduce(lambda p, q: p | q, (y[1] for y in r))
    return None


def union(ck, F):
    vals = dict(F.enums[FLAGS]['c'])
    f = F.one('SourceFlagsSourceTask::computeProperties')
    src = sym('source', 'o')
    s = summarise(F, f, args={0: src}, handlers=P.handlers(F))
    sp = setprops(s, 'SourceFlags')
    ck.ok(bool(sp) or None, 'union', f, '%d stores of the combined flag' % len(sp))
    accs = []
    for L in s.it.all_loops:
        for x, (v0, w) in L.step.items():
            if any(c[1] in ''.join(str(z.a[0]) for z in subterms(w) if z.op == 'app') for c in CONTRIB):
                accs.append((L, x, v0, w))
    if not accs:
        return ck.undecided('union', f, 'no accumulator loop recognised')
    L, x, v0, w = accs[0]
    idx = None
    n = 0
    for lits, (v,) in leaves_of([], w):
        b = bits_of(v, x)
        if b is None:
            ck.undecided('union', f, 'combined value %s' % show(v))
            return
        want = 0
        known = True
        for cls, g, nm in CONTRIB:
            hit = None
            for l in lits:
                neg_ = l.op == 'not'
                a = l.a[0] if neg_ else l
                for z in subterms(a):
                    if z.op == 'app' and z.a[0] == 'get:' + g and z.a[1].op == 'app' and z.a[1].a[1] == cls:
                        hit = not neg_ if z is a else None
            if hit:
                want |= vals[nm]
            if hit is None:
                # the measurement is not consulted on this path: both outcomes are possible
                ck.fail('union', f, 'the combined flag does not depend on %s (%s)' % (cls, nm))
                return
        n += 1
        if not (b[0] and b[1] == want):
            ck.fail('union', f, 'combined flag is %s%d where the contributing measurements raise %d' % ('previous | ' if b[0] else '', b[1], want))
            return
    ck.holds('union', f, '%d combinations of contributing flags' % n)


def python(ck, F):
    """bp::enum_<Flags>(...).value(name, Flags::X)"""
    n = 0
    for f in F.funcs.values():
        if 'PythonModule.cpp' not in f['file'] or not f.get('body'):
            continue
        for c in walk(f['body']):
            if c['k'] == 'call' and c.get('n') == 'value' and len(c['args']) == 2:
                ss = [x for x in walk(c['args'][0]) if x['k'] == 'str']
                rs = [x for x in walk(c['args'][1]) if x['k'] == 'ref' and flagtype(x.get('t'))]
                if len(ss) == 1 and len(rs) == 1:
                    n += 1
                    ck.ok(ss[0]['v'] == rs[0]['n'], 'python', '%s:%d' % (FX_rel(f['file']), c['l']), 'Python name %s is bound to %s' % (ss[0]['v'], rs[0]['n']))
    ck.count('python_values', n)
