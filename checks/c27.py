"""C27: image and world coordinates use one pixel convention in both directions."""
from sx.props import *
from sx.own import peel
from sx.flow import Flow, Client, TooBig
from sx.facts import walk, REPO
from sx.interp import strip_targs, summarise, Interp, Lam, Ref
from sx.terms import *

NS = 'SourceXtractor::'
WCS = NS + 'WCS'
one = num(1)
TR = {'imageToWorld': 'wcsp2s', 'worldToImage': 'wcss2p'}


# ------------------------------------------------------------------ the conversions
class Transform:
    """model of wcsp2s / wcss2p: reads the coordinates given, leaves unknown ones behind"""
    def __init__(self):
        self.calls = []

    def arr(self, it, n, st):
        v = it.ev(n, st)
        if isinstance(v, Ref):
            v = it.rd(st, v.lv, '')
        v = it.val(v, st)
        if isinstance(v, T) and v.op == 'app' and v.a[0] in ('data', '&') and len(v.a) == 2:
            v = v.a[1]
        return v

    def __call__(self, it, n, st):
        nm = n['n']
        a = n['args']
        if len(a) != 9:
            return None
        obj = it.val(it.ev(a[0], st), st)
        # pixcrd, imgcrd, phi, theta, world | world, phi, theta, imgcrd, pixcrd
        at = {'pix': 3, 'world': 7} if nm == 'wcsp2s' else {'world': 3, 'pix': 7}
        at['img'] = 4 if nm == 'wcsp2s' else 6
        arr = {k: self.arr(it, a[i], st) for k, i in at.items()}
        src = arr['pix' if nm == 'wcsp2s' else 'world']
        dst = arr['world' if nm == 'wcsp2s' else 'pix']
        if not all(isinstance(x, T) for x in arr.values()):
            return None
        ins = [it.elem_read(st, src, num(i), 'double') for i in (0, 1)]
        sizes = {k: st.heap.get((x, '#size')) for k, x in arr.items()}
        r = it.fresh('status', 'i')
        outs = [it.fresh('transformed', 'r') for i in (0, 1)]
        for x in (arr['img'], dst):
            st.heap.pop((x, '#fill'), None)
            st.heap[(x, '[]')] = [(TRUE, st.loops, num(i), outs[i] if x is dst else it.fresh('img', 'r')) for i in (0, 1)]
        e = it.effect('call', st, n, q=nm, n=nm, obj=None, args=[], argt=[obj], ret=r, pure=False)
        self.calls.append({'obj': obj, 'in': ins, 'out': outs, 'status': r, 'size': sizes, 'arr': arr, 'pc': list(e.pc), 'e': e, 'ncoord': it.val(it.ev(a[1], st), st), 'l': n.get('l')})
        return r


def fields(n):
    return ('m_alpha', 'm_delta') if n == 'imageToWorld' else ('m_x', 'm_y')


def conversions(ck, F):
    for f in F.methods(WCS):
        if f['n'] not in TR or not f.get('body'):
            continue
        t = Transform()
        s = summarise(F, f, handlers={'wcsp2s': t, 'wcss2p': t}, maxdepth=8)
        w = f
        if len(t.calls) != 1:
            ck.undecided('offset', w, 'the projection is not called once')
            continue
        c = t.calls[0]
        ck.ok(True if c['e'].d['n'] == TR[f['n']] else False, 'offset', w, 'the %s direction is asked for' % f['n'])
        arg = s.params[f['params'][0]['n']]
        src = ('m_x', 'm_y') if f['n'] == 'imageToWorld' else ('m_alpha', 'm_delta')
        o_in = one if f['n'] == 'imageToWorld' else num(0)
        for i, nm in enumerate(src):
            ck.eqv('offset', w, c['in'][i], add(s.it.initial(arg, nm, 'double'), o_in), what='coordinate %d handed to the projection' % (i + 1), facts=c['pc'])
        # the value returned
        ok = list(s.st.pc)
        st1 = c['status']
        o_out = num(0) if f['n'] == 'imageToWorld' else one
        for i, nm in enumerate(fields(f['n'])):
            got = s.it.hread(s.st, s.ret, nm, 'double') if isinstance(s.ret, T) else None
            if not isinstance(got, T):
                ck.undecided('offset', w, 'what is returned is not understood')
                continue
            g = subst(got, {st1: num(0)})
            ck.eqv('offset', w, g, sub(c['out'][i], o_out), what='coordinate %d returned when the projection succeeds' % (i + 1))
            bad = [k for k in range(1, 15) if any(x is c['out'][0] or x is c['out'][1] for x in subterms(subst(got, {st1: num(k)})))]
            if bad:
                # coordinates of a failed projection may only be reached if the failure cannot get there
                goal = eq(st1, num(0)) if len(bad) == 14 else TRUE
                for k in bad if len(bad) < 14 else ():
                    goal = band(goal, bnot(eq(st1, num(k))))
                ck.entail('failed', w, known(s, ok), goal, exact=[st1], what='coordinates a failed projection left behind are not returned')
            else:
                ck.ok(True, 'failed', w, 'coordinate %d does not come from a failed projection' % (i + 1))
        # its own copy
        obj = c['obj']
        cp = [e for e in s.effects if e.kind == 'call' and (e.d.get('n') == 'wcssub' or 'wcssub' in str(e.d.get('obj'))) and e.seq < c['e'].seq]
        cp = [e for e in cp if len(e.d['argt']) >= 5 and e.d['argt'][-1] is obj]
        m = s.it.initial(s.this, 'm_wcs', 'o')
        if obj is m or 'm_wcs' in str(obj):
            ck.ok(False, 'copy', w, 'the projection works on the state all calls share')
            continue
        if not cp:
            ck.undecided('copy', w, 'the state %s the projection works on is not seen to be copied' % show(obj))
            continue
        e = cp[-1]
        a = e.d['argt'][-5:]
        ck.ok(False if const(a[0]) == 0 else True if const(a[0]) is not None else None, 'copy', w, 'the copy has memory of its own')
        ck.ok(True if 'm_wcs' in str(a[1]) else None, 'copy', w, 'the state copied is that of the coordinate system')
        ck.entail('copy', w, known(s, c['pc']), known(s, [eq(e.d['ret'], num(0))])[0], what='a copy that failed is not used')
        fl = [z for z in s.effects if z.kind == 'store' and z.seq < e.seq and z.d['lv'][0] == 'fld' and z.d['lv'][1] is obj and z.d['lv'][2] == 'flag']
        ck.ok(True if fl and const(fl[-1].d['val']) == -1 else False if not fl or const(fl[-1].d['val']) is not None else None, 'copy', w, 'the copy is marked as not initialised before it is filled')
        # room for every axis
        nax = s.it.initial(obj, 'naxis', 'int')
        for k in ('pix', 'img', 'world'):
            z = c['size'][k]
            if z is None:
                z = fixed(f, c['e'].node, k)
            if z is None:
                ck.undecided('axes', w, 'the room for %s coordinates is not understood' % k)
                continue
            ck.entail('axes', w, [ge(nax, num(2))] + known(s, c['pc']), ge(z, nax), exact=[nax], what='there is room for the %s coordinates of all axes' % k)


def known(s, facts):
    """the status a call through a pointer returns is any number"""
    env = {}
    for e in s.effects:
        if e.kind == 'call' and isinstance(e.d.get('ret'), T) and e.d['ret'].op == 'app' and str(e.d['ret'].a[0]) == 'apply':
            env[e.d['ret']] = sym('copied_%d' % e.seq, 'i')
    return [subst(f, env) for f in facts]


def fixed(f, n, k):
    i = {'wcsp2s': {'pix': 3, 'img': 4, 'world': 7}, 'wcss2p': {'world': 3, 'img': 6, 'pix': 7}}[n['n']][k]
    a = peel(n['args'][i])
    import re
    m = re.search(r'\[(\d+)\]', a.get('t') or '')
    return num(int(m.group(1))) if m else None


def cutouts(ck, F):
    """a cutout counts its pixels from its own corner"""
    for f in F.methods(WCS):
        if f['n'] != 'addOffset' or not f.get('body') or len(f['params']) != 1:
            continue
        s = summarise(F, f)
        pc = s.params[0]
        ps = {x for e in s.effects if e.kind == 'store' and e.d['lv'][0] == 'mem' for x in subterms(e.d['lv'][1]) if x.op == 'app' and x.a[:2] == ('fld', 'crpix')}
        if len(ps) != 1:
            ck.undecided('cutout', f, 'the reference pixel is not seen to be moved')
            continue
        p = ps.pop()
        for i, nm in enumerate(('m_x', 'm_y')):
            last = [e for e in s.effects if e.kind == 'store' and e.d['lv'] == ('mem', add(p, num(i)))]
            if len(last) != 1 or last[0].pc:
                ck.ok(False if not last else None, 'cutout', f, 'reference pixel %d is moved once' % (i + 1))
                continue
            got = last[0].d['val']
            old = [x for x in subterms(got) if x.op == 'app' and x.a[0] == 'deref' and x.a[1] is add(p, num(i))]
            ck.eqv('cutout', f, got, sub(old[0] if old else num(0), s.it.initial(pc, nm, 'int')), what='reference pixel %d after the corner moved' % (i + 1))


# ------------------------------------------------------------------ nothing stays behind
class Release(Client):
    """('h', var) var holds wcslib memory; ('g', guard, var) guard frees var; ('m', var) memory of malloc"""
    limit = 4000

    def __init__(self, F, f):
        self.F, self.f = F, f
        self.seen = {}
        self.got = 0

    def root(self, n):
        p = peel(n)
        while p.get('k') in ('un', 'mem', 'cast') or p.get('k') == 'call' and p.get('n') in ('get', 'data', 'operator&') and p.get('obj') is not None:
            p = peel(p['obj'] if p.get('k') == 'call' else p.get('e') if p.get('e') is not None else p['b'])
            if p is None:
                return None
        return p.get('id') if p.get('k') == 'ref' and p.get('dk') in ('var', 'parm') else None

    def inline(self, n, S):
        g = self.F.funcs.get(n.get('key') or '')
        if g is None or not g.get('body') or g['file'] != self.f['file'] or g is self.f or g.get('fk') in ('ctor', 'dtor') and g['n'] != self.f['n']:
            return None
        if not any(x.get('k') == 'throw' for x in walk(g['body'])) and not self.touches(g):
            return None
        return {'k': 'block', 's': [{'k': 'bind', 'l': n.get('l'), 'pairs': [(p['id'], self.root(a)) for p, a in zip(g['params'], n.get('args', []))]}, g['body']]}

    def touches(self, g):
        return any(x.get('k') == 'call' and (x.get('n') in ('wcsfree', 'wcsvfree', 'free', 'wcspih', 'wcshdo') or 'wcssub' in str(x.get('n')) + str((x.get('fn') or {}).get('n'))) for x in walk(g['body']))

    def key(self, S, v):
        for x in S:
            if x[0] == 'b' and x[1] == v:
                return self.key(frozenset(y for y in S if y is not x), x[2])
        return v

    def drop(self, S, v):
        return frozenset(x for x in S if not (x[0] == 'h' and x[1] == v))

    def event(self, n, S):
        k = n.get('k')
        if k == 'bind':
            for i, v in n['pairs']:
                S = frozenset(x for x in S if not (x[0] == 'b' and x[1] == i))
                if v is not None and v != i:
                    S = S | {('b', i, v)}
            return (S,)
        if k == 'call':
            nm = n.get('n') or ''
            fn = peel(n['fn']).get('n') if n.get('fn') is not None else ''
            if 'wcssub' in nm or 'wcssub' in (fn or ''):
                v = self.key(S, self.root(n['args'][-1]))
                if v is not None:
                    self.got += 1
                    return (S | {('h', v, 'copy', n.get('l'))},)
            if nm in ('wcspih', 'wcsbth'):
                v = self.key(S, self.root(n['args'][-1]))
                if v is not None:
                    self.got += 1
                    if any(x[0] == 'h' and x[1] == v for x in S):
                        self.say(False, n, 'the structures of the parse at line %s are overwritten while they hold memory' % [x[3] for x in S if x[0] == 'h' and x[1] == v][0])
                    return (self.drop(S, v) | {('h', v, 'parse', n.get('l'))}, S)
            if nm == 'wcshdo':
                v = self.key(S, self.root(n['args'][-1]))
                if v is not None:
                    self.got += 1
                    return (S | {('h', v, 'header', n.get('l'))}, S)
            if nm in ('wcsfree', 'free', 'wcsvfree') and n.get('args'):
                v = self.key(S, self.root(n['args'][-1]))
                return (self.drop(S, v),)
            if nm in ('reset', 'operator=') and n.get('obj') is not None:
                for a in n.get('args', []):
                    S = self.owned(S, a)
                return (S,)
            return (S,)
        if k == 'vardecl' and n['v'].get('init') is not None and self.frees(n['v'].get('t') or ''):
            for a in walk(n['v']['init']):
                if a.get('k') == 'ref':
                    S = self.owned(S, a)
            return (S,)
        if k == 'ctor' and 'unique_ptr' in (n.get('t') or '') + (n.get('q') or '') or k == 'ctor' and 'shared_ptr' in (n.get('t') or ''):
            for a in n.get('args', [])[:1]:
                S = self.owned(S, a)
            return (S,)
        return (S,)

    def frees(self, t):
        """does the destructor of this class give memory of the library back"""
        for g in self.F.funcs.values():
            if g.get('fk') == 'dtor' and g.get('body') and g['file'] == self.f['file'] and (g.get('cls') or '').split('::')[-1] == t.replace('const ', '').split('::')[-1]:
                if any(x.get('k') == 'call' and x.get('n') in ('wcsfree', 'wcsvfree', 'free') for x in walk(g['body'])):
                    return True
        return False

    def owned(self, S, a):
        """handing the memory to a smart pointer: it is freed on every way out"""
        v = self.root(a)
        if v is None:
            for x in walk(a):
                if x.get('k') == 'ctor' and 'ptr' in (x.get('t') or '') and x.get('args'):
                    v = self.root(x['args'][0])
                    break
        return self.drop(S, self.key(S, v)) if v is not None else S

    def branch(self, c, truth, S):
        return (S,)

    def say(self, ok, n, msg):
        self.seen[(n.get('l'), msg)] = (ok, n, msg)


def deleters(ck, F):
    """smart pointers to wcslib or malloc memory are given the right deleter"""
    for f in F.funcs.values():
        if not f['file'].endswith('WCS.cpp') or not f['file'].startswith(REPO) or not f.get('body'):
            continue
        for n in walk(f['body']):
            if n.get('k') != 'ctor' or 'unique_ptr' not in (n.get('t') or '') or len(n.get('args', [])) != 2:
                continue
            d = peel(n['args'][1])
            t = n.get('t') or ''
            while d.get('k') in ('ctor', 'cast') and (d.get('args') or d.get('e')):
                d = peel(d['args'][0] if d.get('args') else d['e'])
            w = '%s:%s' % (f['file'], n.get('l'))
            if d.get('k') == 'un' and d.get('op') == '&':
                d = peel(d['e'])
            if d.get('k') == 'ref' and d.get('dk') not in ('var', 'parm'):
                want = ('wcsfree',) if 'wcsprm' in t else ('free',)
                ck.ok(True if d['n'].split('::')[-1] in want else None, 'release', w, 'the memory is given back by %s' % d['n'])
            elif d.get('k') == 'lambda':
                cs = [x['n'] for x in walk(d['body']) if x.get('k') == 'call']
                ck.ok(True if 'wcsvfree' in cs or 'wcsfree' in cs or 'free' in cs else False, 'release', w, 'the structures are freed by their owner')


def releases(ck, F):
    n = 0
    for f in F.funcs.values():
        if not f['file'].startswith(REPO) or not f['file'].endswith('WCS.cpp') or not f.get('body') or f.get('cls') != WCS and strip_targs(f.get('cls') or '') != WCS:
            continue
        if f.get('fk') == 'dtor':
            continue
        c = Release(F, f)
        if not c.touches(f):
            continue
        try:
            o = Flow(c).run(f, {frozenset()})
        except TooBig:
            ck.undecided('release', f, 'too many paths')
            continue
        for ok, nd, msg in c.seen.values():
            ck.ok(ok, 'release', '%s:%s' % (f['file'], nd.get('l')), msg)
        left = {}
        for S in o.next:
            for x in S:
                if x[0] == 'h':
                    left.setdefault(('the end', x[2], x[3]), True)
        for kind, exits in (('the return', o.ret), ('the error raised', o.thr)):
            for i, l, S in exits:
                for x in S:
                    if x[0] == 'h' and not (kind == 'the error raised' and x[2] == 'parse' and self_fail(x, l)):
                        left.setdefault(('%s at line %s' % (kind, l), x[2], x[3]), True)
        for (how, what, l) in left:
            if what in ('parse', 'header') and how.startswith('the error'):
                continue          # the library hands out nothing when it fails: decided by the branch at the call
            ck.ok(False, 'release', '%s:%s' % (f['file'], l), 'the %s made here is not released by %s' % (what, how))
        ck.ok(True, 'release', f, '%d acquisitions followed to every exit' % c.got)
        n += c.got
    ck.ok(True if n >= 2 else None, 'release', WCS, '%d acquisitions' % n)


def self_fail(x, l):
    return False


# ------------------------------------------------------------------ everything that uses them
def coords(F):
    """the conversions of any coordinate system as functions of the two coordinates"""
    def i2w(it, n, st):
        o = it.objval(n['obj'], st)
        a = it._t(it.val(it.ev(n['args'][0], st), st), st)
        x, y = it.hread(st, a, 'm_x', 'double'), it.hread(st, a, 'm_y', 'double')
        return mk('app', ('world', base(o), x, y), 'o')

    def w2i(it, n, st):
        o = it.objval(n['obj'], st)
        a = it._t(it.val(it.ev(n['args'][0], st), st), st)
        x, y = it.hread(st, a, 'm_alpha', 'double'), it.hread(st, a, 'm_delta', 'double')
        return mk('app', ('image', base(o), x, y), 'o')

    def base(o):
        return o if isinstance(o, T) else sym('system', 'o')
    return {'imageToWorld': i2w, 'worldToImage': w2i}


def fld(o, n):
    return mk('app', ('fld', n, o), 'r')


def world(cs, x, y):
    return mk('app', ('world', cs, x, y), 'o')


def image(cs, w):
    return mk('app', ('image', cs, fld(w, 'm_alpha'), fld(w, 'm_delta')), 'o')


def positions(ck, F):
    """the position of a fitted model in the stamp of a frame"""
    n = 0
    for f in F.funcs.values():
        if f['n'] != 'addForSource' or not f.get('body') or not f['file'].startswith(REPO) or len(f['params']) != 10:
            continue
        if not any(x.get('n') == 'worldToImage' for x in walk(f['body'])):
            continue
        got = []

        def dep(it, nd, st):
            a = [it.ev(x, st) for x in nd['args']]
            lam = a[0]
            if isinstance(lam, Ref):
                lam = it.rd(st, lam.lv, '')
            if isinstance(lam, T):
                lam = it.lams.get(lam, lam)
            if not isinstance(lam, Lam) or len(a) != 3 or not any(x.get('n') == 'worldToImage' or x.get('k') == 'call' for x in walk(lam.node['body'])):
                return None
            rest = [it._t(it.val(x, st), st) for x in a[1:]]
            s2 = st.copy()
            r = it.val(it.call_lambda(lam, [sym('x', 'r'), sym('y', 'r')], s2, nd), s2)
            if isinstance(r, T) and any(z.op == 'app' and z.a[0] == 'image' for z in subterms(r)):
                got.append((nd.get('l'), r, rest))
            return None
        h = coords(F)
        h['createDependentParameter'] = dep
        s = summarise(F, f, handlers=h, opaque=['createDependentParameter', 'getParameter', 'emplace_back', 'push_back', 'make_unique', 'make_shared'], maxdepth=2)
        ref, cs, off = [s.params[i] for i in (7, 8, 9)]
        w = world(ref, sub(sym('x', 'r'), one), sub(sym('y', 'r'), one))
        im = image(cs, w)
        # one parameter for the column and one for the row
        want = [sub(add(fld(im, 'm_' + k), num(Fraction(1, 2))), mk('app', ('fld', 'm_' + k, off), 'i')) for k in 'xy']
        if len(got) != 2:
            ck.undecided('position', f, '%d positions found' % len(got))
            continue
        for (l, r, rest), wnt, ax in zip(got, want, ('column', 'row')):
            n += 1
            ck.eqv('position', '%s:%s' % (f['file'], l), r, wnt, what='%s of the model in the stamp' % ax)
        a, b = got[0][2], got[1][2]
        ck.ok(True if len(a) == 2 and a[0] is not a[1] else None, 'position', f, 'the position depends on two parameters')
        if len(a) == len(b) == 2:
            ck.ok(True if str(a[0]).replace('@1', '@0') == str(b[0]).replace('@1', '@0') else None, 'position', f, 'both depend on the same parameters')
            for k, (x, nm) in enumerate(zip(a, ('m_x', 'm_y'))):
                ok = nm in str(x)
                other = ('m_y', 'm_x')[k]
                ck.ok(True if ok else False if other in str(x) else None, 'position', f, 'parameter %d of the position is %s' % (k + 1, nm))
    ck.ok(True if n >= 8 else None, 'position', NS + 'FlexibleModelFittingModel', '%d positions of models' % n)


def helpers(ck, F):
    for f in F.funcs.values():
        if f['n'] not in ('image_to_world_alpha', 'image_to_world_delta') or not f.get('body') or not f['file'].startswith(REPO):
            continue
        s = summarise(F, f, handlers=coords(F))
        x, y = s.params[1], s.params[2]
        nm = 'm_alpha' if f['n'].endswith('alpha') else 'm_delta'
        r = s.ret
        if isinstance(r, T) and r.op == 'app' and r.a[0] == 'fld' and isinstance(r.a[2], T) and r.a[2].op == 'app' and r.a[2].a[0] == 'world':
            ck.ok(r.a[1] == nm, 'helper', f, '%s returns %s' % (f['n'], r.a[1]))
            ck.eqv('helper', f, r.a[2].a[2], x, what='column converted by ' + f['n'])
            ck.eqv('helper', f, r.a[2].a[3], y, what='row converted by ' + f['n'])
        else:
            ck.undecided('helper', f, show(r) if isinstance(r, T) else str(r))
    # names under which they are known to the expressions
    for f in F.funcs.values():
        if f['n'] == 'initializeInner' and f.get('body') and f['file'].startswith(REPO):
            for n in walk(f['body']):
                if n.get('k') == 'call' and n.get('n') == 'registerFunction' and len(n['args']) == 2:
                    nm = [x['v'] for x in walk(n['args'][0]) if x.get('k') == 'str']
                    fn = [x['n'] for x in walk(n['args'][1]) if x.get('k') == 'ref']
                    if nm and fn and nm[0] in ('image_to_world_alpha', 'image_to_world_delta'):
                        ck.ok(nm[0] == fn[0].split('::')[-1] if fn[0].split('::')[-1] in ('image_to_world_alpha', 'image_to_world_delta') else None, 'helper', '%s:%s' % (f['file'], n.get('l')), '%s is computed by %s' % (nm[0], fn[0]))


def set_props(s):
    return [e for e in s.effects if e.kind == 'call' and e.d.get('n') in ('setProperty', 'setIndexedProperty')]


def system(t):
    """through which frame a conversion goes, by the property it comes from"""
    u = str(t)
    for k in ('MeasurementFrameCoordinates', 'DetectionFrameCoordinates', 'ReferenceCoordinates'):
        if k in u:
            return k
    return '?'


def plugins(ck, F):
    P = 'SourceXtractor::'
    # the Jacobian is the difference of two neighbouring positions converted to the frame
    for cls in ('JacobianGroupTask', 'JacobianSourceTask'):
        for f in F.methods(P + cls):
            if f['n'] != 'computeProperties' or not f.get('body'):
                continue
            s = summarise(F, f, handlers=coords(F), maxdepth=2, opaque=['getProperty', 'getCoordinateSystem', 'setIndexedProperty', 'setProperty', 'getTopLeft', 'getStamp', 'getWidth', 'getHeight', 'getCentroid', 'begin'])
            es = set_props(s)
            if len(es) != 1 or len(es[0].d['argt']) < 5:
                ck.undecided('jacobian', f, 'the Jacobian is not set once')
                continue
            v = es[0].d['argt'][-4:]
            ims = [x for x in subterms(v[0]) if x.op == 'app' and x.a[0] == 'image']
            ims = [x for x in ims if isinstance(x.a[2], T) and any(y.op == 'app' and y.a[0] == 'world' for y in subterms(x.a[2]))]
            if not ims:
                ck.undecided('jacobian', f, show(v[0]))
                continue
            cs = ims[0].a[1]
            ws = {y for x in ims for y in subterms(x.a[2]) if y.op == 'app' and y.a[0] == 'world'}
            ref = sorted(ws, key=str)[0].a[1]
            ck.ok(True if system(cs) == 'MeasurementFrameCoordinates' else False if system(cs) != '?' else None, 'jacobian', f, 'the positions are converted to the measurement frame')
            ck.ok(True if system(ref) == 'ReferenceCoordinates' else False if system(ref) != '?' else None, 'jacobian', f, 'the positions are those of the reference frame')
            # the position all differences start from: the one with the smallest coordinates
            best = None
            for w in sorted(ws, key=str):
                x, y = w.a[2], w.a[3]
                o = image(cs, w)
                dx, dy = image(cs, world(ref, add(x, one), y)), image(cs, world(ref, x, add(y, one)))
                want = [sub(fld(dx, 'm_x'), fld(o, 'm_x')), sub(fld(dx, 'm_y'), fld(o, 'm_y')), sub(fld(dy, 'm_x'), fld(o, 'm_x')), sub(fld(dy, 'm_y'), fld(o, 'm_y'))]
                n = sum(g is t for g, t in zip(v, want))
                if best is None or n > best[0]:
                    best = (n, want)
            for g, t, what in zip(v, best[1], ('column change along columns', 'row change along columns', 'column change along rows', 'row change along rows')):
                ck.eqv('jacobian', f, g, t, what=what)
    for cls, prop, conv, fl in (('WorldCentroidTask', 'WorldCentroid', 'world', ('m_alpha', 'm_delta')), ('MeasurementFramePixelCentroidTask', 'MeasurementFramePixelCentroid', 'image', ('m_x', 'm_y'))):
        for f in F.methods(P + cls):
            if f['n'] != 'computeProperties' or not f.get('body'):
                continue
            s = summarise(F, f, handlers=coords(F), maxdepth=2, opaque=['getProperty', 'getCoordinateSystem', 'setIndexedProperty', 'setProperty', 'getCentroid', 'getCentroidX', 'getCentroidY'])
            es = [e for e in set_props(s) if len(e.d['argt']) >= 2 and not any(isinstance(a, T) and (a.sort == 'b' or const(a) is not None) for a in e.d['argt'][-1:])]
            if len(es) != 1:
                ck.undecided('centroid', f, 'the position is not set once')
                continue
            for g, nm, ax in zip(es[0].d['argt'][-2:], fl, 'XY'):
                if not (isinstance(g, T) and g.op == 'app' and g.a[0] == 'fld' and g.a[2].op == 'app' and g.a[2].a[0] == conv):
                    ck.undecided('centroid', f, show(g))
                    continue
                ck.ok(g.a[1] == nm, 'centroid', f, '%s coordinate of the %s is %s' % (ax, prop, g.a[1]))
                c = g.a[2]
                if conv == 'world':
                    ck.ok('getCentroidX' in str(c.a[2]) and 'getCentroidY' in str(c.a[3]) if c.a[2].op == c.a[3].op == 'app' and str(c.a[2].a[0]).startswith('call:') and str(c.a[3].a[0]).startswith('call:') else bool_of(ck, c), 'centroid', f, 'the centroid is converted as it is, both counted from zero')


def bool_of(ck, c):
    """an offset added to the centroid before it is converted"""
    for a in c.a[2:4]:
        m = sub(a, num(0))
        if any(x.op == 'app' and 'getCentroid' in str(x.a[0]) for x in subterms(a)) and a.op == 'poly':
            return False
    return None


def catalogue(ck, F):
    """pixel columns of a catalogue are counted from one; what expressions see of an object is too"""
    for f in F.funcs.values():
        if not f['file'].startswith(REPO) or not f.get('body') or not f['file'].endswith('ObjectInfo.cpp') or f.get('fk') != 'ctor' or len(f['params']) != 2:
            continue
        s = summarise(F, f, handlers=coords(F), maxdepth=3, opaque=['getProperty', 'getCoordinateSystem', 'getCentroid', 'emplace', 'getFlux', 'getEllipseA', 'getEllipseB', 'getEllipseTheta', 'getMatch', 'getAssocValues'])
        seen = 0
        for e in s.effects:
            if e.kind != 'call' or e.d.get('n') not in ('emplace', 'insert') or not e.d['argt']:
                continue
            a = e.d['argt']
            k, v = (a[0], a[1]) if len(a) == 2 else (s.it.hread(s.st, a[0], 'first', 'std::string'), s.it.hread(s.st, a[0], 'second', 'double'))
            for nm, fl in (('centroid_x', 'm_x'), ('centroid_y', 'm_y')):
                if 'str(%s)' % nm != str(k):
                    continue
                im = [x for x in subterms(v) if x.op == 'app' and x.a[0] == 'image'] if isinstance(v, T) else []
                if im:
                    seen += 1
                    ck.eqv('object', f, v, add(fld(im[0], fl), one), what='%s is counted from one' % nm)
        ck.ok(True if seen >= 2 else None, 'object', f, '%d centroid coordinates' % seen)


def run(ck):
    ck.rule('offset', 'image coordinates are counted from zero and those of the projection from one, in both directions and on both axes')
    ck.rule('failed', 'coordinates a failed projection left behind are never returned')
    ck.rule('copy', 'each conversion works on a complete copy of its own, and only if the copy succeeded')
    ck.rule('axes', 'the projection has room for the coordinates of all axes of the image')
    ck.rule('cutout', 'moving the origin to a corner subtracts the corner from the reference pixel, each axis its own')
    ck.rule('release', 'what a conversion or a parse acquired is released on every way out')
    ck.rule('position', 'the position of a model in a stamp is the fitted position, counted from one, converted to the frame')
    ck.rule('helper', 'the functions offered to expressions convert the position they are given and return the coordinate of their name')
    ck.rule('jacobian', 'the Jacobian holds the changes of the position in the frame for a step of one pixel along each axis')
    ck.rule('centroid', 'centroids are converted as they are')
    ck.rule('object', 'the centroid expressions see is counted from one')
    F = ck.F = Facts(tus('SEFramework/src/lib/CoordinateSystem/*.cpp'))
    ck.section(conversions, ck, F)
    ck.section(cutouts, ck, F)
    ck.section(releases, ck, F)
    ck.section(deleters, ck, F)
    G = Facts(tus('SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingModel.cpp', 'SEImplementation/src/lib/Configuration/ModelFittingConfig.cpp'))
    ck.F = G
    ck.section(positions, ck, G)
    ck.section(helpers, ck, G)
    H = Facts(tus('SEImplementation/src/lib/Plugin/Jacobian/JacobianTask.cpp', 'SEImplementation/src/lib/Plugin/WorldCentroid/WorldCentroidTask.cpp', 'SEImplementation/src/lib/Plugin/MeasurementFramePixelCentroid/MeasurementFramePixelCentroidTask.cpp', 'SEImplementation/src/lib/PythonConfig/ObjectInfo.cpp'))
    ck.F = H
    ck.section(plugins, ck, H)
    ck.section(catalogue, ck, H)
    return 10
