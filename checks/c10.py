"""C10: the tile cache keeps its books, its locks and every written pixel."""
from sx.props import *
from sx import locks
from sx.own import peel
from sx.flow import Flow, Client, TooBig
from sx.facts import walk, REPO
from sx.interp import strip_targs
from sx.stdmodel import *
import re

NS = 'SourceXtractor::'
TM = NS + 'TileManager'
MAP, LIST, MEM, MAX, MUTEX, IMGMUT = 'm_tile_map', 'm_tile_list', 'm_total_memory_used', 'm_max_memory', 'm_mutex', 'm_mutex_map'
SHARED = (MAP, LIST, MEM, MAX, IMGMUT)
WRITERS = ['SEFramework/src/lib/Image/*.cpp', 'SEFramework/src/lib/FITS/*.cpp', 'SEImplementation/src/lib/Segmentation/*.cpp',
           'SEImplementation/src/lib/CheckImages/*.cpp', 'SEImplementation/src/lib/Configuration/WeightImageConfig.cpp',
           'SEImplementation/src/lib/Background/*.cpp', 'SEMain/src/program/SourceXtractor.cpp']


def where(n, f):
    return '%s:%s (%s)' % (f['file'].replace(REPO + '/', ''), n.get('l', f.get('l')), strip_targs(f['q']))


def held(S):
    return {m for _, m, mo in S if not mo.startswith('-')}


# ------------------------------------------------------------------ locks
def guarded(ck, F, A):
    by = A.by_var()
    called = {c.get('key') for c, S, f in A.calls}
    for fd in SHARED:
        accs = [a for a in by.get(('f', TM + '::' + fd), []) if a.ctx != 'iterator' and a.f.get('fk') not in ('ctor', 'dtor')
                and 'lambda' not in a.f['q'] + str(a.f.get('cls')) and (a.f.get('acc') != 'private' or a.f['key'] in called)]
        if not accs:
            ck.ok(None, 'guarded', TM, 'no access to %s found: the state of the cache has moved' % fd)
        for a in accs:
            mo = {m: mo for _, m, mo in sorted(a.held, key=lambda x: locks.ORD.get(x[2], -1)) if not mo.startswith('-')}
            g = mo.get(('f', TM + '::' + MUTEX))
            ck.ok(g == 'x' or g is not None and not a.w, 'guarded', where(a.n, a.f),
                  '%s of %s holding %s' % ('write' if a.w else 'read', fd, 'nothing' if g is None else 'the cache lock ' + {'x': 'exclusively', 's': 'shared', 'u': 'for upgrade'}[g]))
    # raw locking calls: every lock is an automatic object
    n = 0
    for f in A.funcs:
        if strip_targs(f.get('cls') or '') != TM:
            continue
        n += 1
        for x in walk(f['body']):
            if x['k'] == 'call' and x.get('n') in ('lock', 'lock_shared', 'lock_upgrade', 'try_lock') and x.get('obj') is not None and locks.is_mutex(x['obj'].get('t')):
                ck.ok(False, 'released', where(x, f), 'the mutex is locked by hand: an exception leaves it locked')
            if x['k'] == 'new' and locks.guard(x.get('t')):
                ck.ok(False, 'released', where(x, f), 'a lock that is not an automatic object')
    ck.ok(True if n >= 8 else None, 'released', TM, 'locks are automatic objects in all %d member functions' % n)


def no_reentry(ck, F, A):
    """nothing that can come back to the cache runs while the cache lock is held"""
    M = ('f', TM + '::' + MUTEX)
    for n, m, f in A.relocks.values():
        if strip_targs(f.get('cls') or '') == TM:
            ck.ok(False, 'no-reentry', where(n, f), 'the mutex is locked again while it is held')
    took = {k for k, v in acquired(A).items() if M in v}
    for c, S, f in A.calls:
        if strip_targs(f.get('cls') or '') != TM:
            continue
        if c.get('n') == 'getImageTile':
            ck.ok(M not in held(S), 'no-reentry', where(c, f), 'an image source computes a tile %s the cache lock (it may need other tiles)' % ('without' if M not in held(S) else 'holding'))
        elif c.get('key') in took:
            ck.ok(M not in held(S), 'no-reentry', where(c, f), '%s, which takes the cache lock, is called %s it' % (c['n'], 'without' if M not in held(S) else 'holding'))
    # saving happens under the cache lock: saveTile of no source may come back to the cache
    n = 0
    for f in F.funcs.values():
        if f['n'] == 'saveTile' and f.get('body') and not f.get('dep') and f['file'].startswith(REPO):
            n += 1
            back = reaches(F, f)
            ck.ok(back is None, 'no-reentry', where(f['body'], f), 'saving a tile does not come back to the cache' if back is None else 'saving a tile calls %s, which needs the lock the saving thread holds' % back)
    ck.ok(True if n >= 2 else None, 'no-reentry', 'saveTile', '%d implementations of saveTile' % n)


def reaches(F, f):
    todo, seen = [f], set()
    while todo:
        g = todo.pop()
        if g['key'] in seen:
            continue
        seen.add(g['key'])
        for n in walk(g.get('body')):
            if n['k'] != 'call':
                continue
            if strip_targs(n.get('q') or '').startswith(TM + '::') and n.get('n') not in ('getInstance', 'getTileWidth', 'getTileHeight'):
                return n['n']
            h = F.funcs.get(n.get('key'))
            if h is not None and h.get('body') and h['file'].startswith(REPO):
                todo.append(h)
    return None


def acquired(A):
    own = {k: set(v) for k, v in A.took.items() if isinstance(k, str)}
    edges = {}
    for c, S, f in A.calls:
        if c.get('key') in A.bykey:
            edges.setdefault(f['key'], set()).add(c['key'])
    ch = True
    while ch:
        ch = False
        for k, cs in edges.items():
            s = own.setdefault(k, set())
            for c in cs:
                new = {m for m in own.get(c, ()) if m[0] in 'fgs'} - s
                if new:
                    s |= new
                    ch = True
    return own


# ------------------------------------------------------------------ the books
class Cache(Client):
    """follows keys and tiles by name; state = (environment, ledger of unfinished book entries, facts)"""
    limit = 6000

    def __init__(self, F, ck, f):
        self.F, self.ck, self.f = F, ck, f
        self.seen = {}
        self.depth = []

    def say(self, ok, rule, n, msg):
        k = (rule, id(n), msg) if ok else (rule, id(n), msg)
        if k not in self.seen or self.seen[k][0] is not False and ok is not True:
            self.seen[k] = (ok, rule, n, msg)

    # ---- naming
    def member(self, n):
        n = peel(n) if n is not None else None
        if n is not None and n.get('k') == 'mem' and (n.get('q') or '').startswith(TM + '::'):
            return n['n']
        return None

    def val(self, n, S):
        env = dict(S[0])
        n = peel(n)
        if n is None:
            return ('none',)
        k = n.get('k')
        if ('r', id(n)) in env:
            return env[('r', id(n))]
        if k == 'ref':
            return env.get(n.get('id'), ('p', n.get('n'), n.get('id')))
        if k == 'null':
            return ('null',)
        if k == 'int':
            return ('int', n['v'])
        if k == 'this':
            return ('this',)
        if k == 'mem':
            m = self.member(n)
            if m:
                return ('m', m)
            b = self.val(n['b'], S) if n.get('b') is not None else None
            if b is not None and n['n'] in ('first', 'second') and b[0] in ('it', 'mit', 'pair', 'melem'):
                return self.part(b, n['n'])
            return ('fld', b, n['n'])
        if k == 'un' and n['op'] in ('*', '&'):
            v = self.val(n['e'], S)
            if v[0] == 'lit':
                return v[1]
            return v
        if k in ('ctor', 'init'):
            a = n.get('args') if k == 'ctor' else n.get('ch')
            t = strip_targs(n.get('t') or '')
            if not a and 'ptr' in t:
                return ('null',)
            if a and len(a) == 1:
                return self.val(a[0], S)
            if len(a or ()) == 2 and 'pair' in t:
                return ('pairval', self.val(a[0], S), self.val(a[1], S))
            return ('v', id(n))
        if k == 'call':
            nm = n.get('n')
            o = n.get('obj')
            args = n.get('args', [])
            if nm in ('operator*', 'operator->', 'get') or n.get('op') in ('*', '->'):
                v = self.val(o if o is not None else args[0], S)
                return v[1] if v[0] == 'lit' else v
            if nm in ('move', 'forward', 'static_pointer_cast', 'dynamic_pointer_cast', 'const_pointer_cast', 'ref', 'cref'):
                return self.val(args[0], S)
            if nm in ('make_pair', 'pair') and len(args) == 2:
                return ('pairval', self.val(args[0], S), self.val(args[1], S))
            m = self.member(o) if o is not None else (self.member(args[0]) if n.get('op') == '[]' and args else None)
            if o is None and m:
                args = args[1:]
            if m == MAP:
                if nm in ('at', 'operator[]') or n.get('op') == '[]':
                    return ('tile', self.val(args[0], S))
                if nm == 'find':
                    return ('it', self.val(args[0], S))
                if nm in ('end', 'cend'):
                    return ('end', MAP)
                if nm in ('begin', 'cbegin'):
                    return ('lit', ('melem', id(n)), MAP)
                if nm in ('count', 'contains'):
                    return ('has', self.val(args[0], S))
                if nm in ('size', 'empty'):
                    return (nm, MAP)
            if m == LIST:
                gone = sum(1 for x in S[1] if x[0] == 'list-' and x[1][0] in ('back', 'front'))
                if nm in ('back', 'front'):
                    return (nm, gone)
                if nm in ('end', 'cend'):
                    return ('end', LIST)
                if nm in ('begin', 'cbegin'):
                    return ('lit', ('elem', id(n)), LIST)
                if nm in ('rbegin', 'crbegin'):
                    return ('lit', ('back', gone), LIST)
                if nm in ('size', 'empty'):
                    return (nm, LIST)
            if m == IMGMUT:
                if nm in ('find', 'emplace', 'try_emplace'):
                    a = self.val(args[0], S)
                    if nm == 'find':
                        return ('mit', a)
                    return ('pair', a)
                if nm in ('at', 'operator[]') or n.get('op') == '[]':
                    return ('mutex', self.val(args[0], S))
                if nm in ('end', 'cend'):
                    return ('end', IMGMUT)
            if nm == 'getTileMemorySize':
                return ('size', self.val(o, S))
            if nm == 'prev' and args and self.val(args[0], S) == ('end', LIST):
                return ('lit', ('back', sum(1 for x in S[1] if x[0] == 'list-')), LIST)
            return ('v', id(n))
        if k == 'bin':
            return ('bin', n['op'], self.val(n['x'], S), self.val(n['y'], S))
        return ('v', id(n))

    def part(self, b, what):
        if b[0] == 'it':
            return b[1] if what == 'first' else ('tile', b[1])
        if b[0] == 'melem':
            return ('keyof', b) if what == 'first' else ('tile', ('keyof', b))
        if b[0] == 'mit':
            return b[1] if what == 'first' else ('mutex', b[1])
        if b[0] == 'pair':
            return ('mit', b[1]) if what == 'first' else ('inserted',)
        return ('v', 0)

    # ---- state helpers
    def put(self, S, key, v):
        e = dict(S[0])
        e[key] = v
        return (frozenset(e.items()), S[1], S[2])

    def led(self, S, *new):
        L = list(S[1])
        facts = set(S[2])
        env = S[0]
        for x in new:
            L.append(x)
        ch = True
        while ch:
            ch = False
            for x in L:
                if x[0] == 'map+':
                    k, t = x[1], x[2]
                    ms = [y for y in L if y[0] == 'mem+' and y[1] in (t, ('tile', k))]
                    ls = [y for y in L if y[0] == 'list+' and y[1] == k]
                    if ms and ls:
                        L.remove(x)
                        L.remove(ms[0])
                        L.remove(ls[0])
                        facts.add(('in', k, t))
                        ch = True
                        break
                if x[0] == 'map-':
                    k = x[1]
                    ms = [y for y in L if y[0] == 'mem-' and y[1] == ('tile', k)]
                    ls = [y for y in L if y[0] == 'list-' and y[1] == k]
                    if ms and ls:
                        L.remove(x)
                        L.remove(ms[0])
                        L.remove(ls[0])
                        facts = {y for y in facts if not mentions(y, k)}
                        env = frozenset((i, ('old',) if mentions(v, k) else v) for i, v in env)
                        ch = True
                        break
            if {('clr', MAP), ('clr', LIST), ('clr', MEM)} <= set(L):
                L = [y for y in L if y[0] != 'clr']
                facts.add(('empty',))
                ch = True
        if len(L) > 6:
            self.overflow(L)
            raise TooBig()
        return (env, tuple(L), frozenset(facts))

    def overflow(self, L):
        """tiles pile up half removed (or half entered): which step is missing?"""
        names = [x['n'] for f in self.F.funcs.values() if strip_targs(f.get('cls') or '') == TM and f.get('body') for x in walk(f['body']) if x['k'] == 'call' and self.member(x.get('obj')) == MAP]
        lists = [x['n'] for f in self.F.funcs.values() if strip_targs(f.get('cls') or '') == TM and f.get('body') for x in walk(f['body']) if x['k'] == 'call' and self.member(x.get('obj')) == LIST]
        mems = [x for f in self.F.funcs.values() if strip_targs(f.get('cls') or '') == TM and f.get('body') for x in walk(f['body']) if x['k'] == 'asg' and self.member(x['x']) == MEM]
        kinds = {x[0] for x in L}
        missing = None
        if 'map-' in kinds or 'mem-' in kinds or 'list-' in kinds:
            if 'map-' not in kinds and 'erase' not in names:
                missing = 'erased from the map'
            elif 'list-' not in kinds and not {'pop_back', 'pop_front', 'erase', 'remove', 'remove_if'} & set(lists):
                missing = 'removed from the list'
            elif 'mem-' not in kinds and not any(x['op'] == '-=' or x['op'] == '=' and peel(x['y']).get('k') == 'bin' and peel(x['y']).get('op') == '-' for x in mems):
                missing = 'subtracted from the memory'
            elif any(x[0] == 'list-' and x[1][0] == 'front' for x in L) and any(x[0] == 'map-' and x[1][0] == 'back' for x in L) or any(x[0] == 'list-' and x[1][0] == 'back' for x in L) and any(x[0] == 'map-' and x[1][0] == 'front' for x in L):
                missing = 'the same one in map and list'
        if missing:
            self.say(False, 'books', self.f['body'], 'a tile leaves the cache without being ' + missing)

    def fact(self, S, *new):
        return (S[0], S[1], S[2] | set(new))

    def drop(self, S, pred):
        return (S[0], S[1], frozenset(x for x in S[2] if not pred(x)))

    def balanced(self, S, n, when):
        soft = 'fails' in when or 'exception' in when
        self.say(True if not S[1] else None if soft and {x[0] for x in S[1]} == {'list-'} else False, 'books', n, 'map, list and accounted memory agree %s' % when if not S[1] else '%s: %s' % (when, describe(S[1])))

    # ---- transfer
    def throws(self, n, S):
        if n.get('k') == 'throw':
            return (self.fact(S, ('thrown',)),)
        if n.get('k') == 'call' and n.get('n') in ('saveIfModified', 'saveTile', 'getImageTile'):
            self.balanced(S, n, 'when %s fails' % n['n'])
            return (self.fact(S, ('thrown',)),)
        return False

    def inline(self, n, S):
        g = self.F.funcs.get(n.get('key'))
        if g is None or not g.get('body') or strip_targs(g.get('cls') or '') != TM or len(self.depth) > 5:
            return None
        if g.get('fk') in ('ctor', 'dtor'):
            return None
        return {'k': 'block', 's': [{'k': 'bind', 'l': n.get('l'), 'pairs': [(p['id'], a) for p, a in zip(g['params'], n.get('args', []))]}, g['body']]}

    def event(self, n, S):
        k = n.get('k')
        if k == 'bind':
            vs = [(i, self.val(a, S)) for i, a in n['pairs']]
            for i, v in vs:
                S = self.put(S, i, v)
            return (self.put(S, '$ret', ('none',)),)
        if k == 'ret':
            return (self.put(S, '$ret', self.val(n['e'], S) if n.get('e') is not None else ('none',)),)
        if k == 'vardecl':
            return self.decl(n, S)
        if k == 'asg':
            return self.assign(n, S)
        if k == 'call':
            return self.call(n, S)
        return (S,)

    def decl(self, n, S):
        v = n['v']
        if locks.guard(v.get('t')):
            a = peel(v['init']) if v.get('init') is not None else None
            args = (a.get('args') or a.get('ch') or []) if a is not None else []
            m = self.val(args[0], S) if args else ('none',)
            S = self.put(S, v.get('id'), ('guard', m))
            if m[0] == 'mutex':
                S = self.fact(S, ('img', m[1]))
            return (S,)
        r = self.iterstart(v, S)
        if r is not None or v.get('init') is None:
            return (r or S,)
        x = self.val(v['init'], S)
        ref = v.get('t', '').rstrip().endswith('&')
        if ref and x[0] == 'tile':
            x = ('ref', x)
        return (self.put(S, v.get('id'), x),)

    def iterstart(self, v, S):
        for f in S[2]:
            if f[0] == 'range' and f[1] == v.get('id'):
                return self.put(S, v['id'], f[2])
        return None

    def leave(self, v, S):
        env = dict(S[0])
        x = env.get(v.get('id'))
        if x is not None and x[0] == 'guard':
            if x[1] == ('m', MUTEX):
                self.balanced(S, v if 'l' in v else self.f, 'when the lock is released' + (' after an exception' if ('thrown',) in S[2] else ''))
            if x[1][0] == 'mutex':
                S = self.drop(S, lambda y: y == ('img', x[1][1]))
        return (S,)

    def lvmem(self, n):
        return self.member(n)

    def assign(self, n, S):
        m = self.member(n['x'])
        x = peel(n['x'])
        op = n['op']
        if m == MEM:
            y = self.val(n['y'], S)
            if y[0] == 'ref':
                y = y[1]
            if op == '=' and y == ('int', 0):
                return (self.drop(self.led(S, ('clr', MEM)), lambda z: False),)
            if op == '=' and y[0] == 'bin' and y[1] in '+-' and ('m', MEM) in y[2:]:
                z = y[3] if y[2] == ('m', MEM) else y[2]
                if y[1] == '+' or y[2] == ('m', MEM):
                    return self.mem(n, S, y[1], z)
            if op in ('+=', '-='):
                return self.mem(n, S, op[0], y)
            self.say(False, 'books', n, 'the accounted memory is set to something else than the size of tiles added or removed')
            return (S,)
        if m in ('m_tile_width', 'm_tile_height'):
            self.say(('empty',) in S[2], 'resize', n, 'the tile size changes %s' % ('while the cache is empty' if ('empty',) in S[2] else 'while tiles of the old size may be cached under keys of the old grid'))
            return (S,)
        if x.get('k') == 'ref' and op == '=':
            return (self.put(S, x.get('id'), self.val(n['y'], S)),)
        return (S,)

    def mem(self, n, S, op, y):
        if y[0] != 'size':
            self.say(False, 'books', n, 'the accounted memory changes by something else than the size of a tile')
            return (S,)
        t = y[1]
        if t[0] == 'ref':
            t = t[1]
        if op == '+':
            S = self.drop(S, lambda z: z == ('within',))
            return (self.led(S, ('mem+', t)),)
        # which key does the tile belong to
        for f in S[2]:
            if f[0] == 'in' and f[2] == t:
                t = ('tile', f[1])
        return (self.led(S, ('mem-', t)),)

    def insert(self, n, S, k, t):
        miss = any(f[0] == 'miss' and f[1] == k and f[2] for f in S[2])
        self.say(miss, 'once', n, 'a tile is entered %s' % ('after a look-up under the lock of its image found none' if miss else 'without a look-up under the lock of its image: two threads enter the same tile twice'))
        S = self.drop(S, lambda z: z == ('empty',) or z[0] == 'allsaved')
        return (self.led(S, ('map+', k, t)),)

    def remove(self, n, S, k):
        if k[0] == 'ref':
            k = k[1]
        sv = ('saved', ('tile', k)) in S[2]
        self.say(sv, 'saved', n, 'a tile leaves the cache %s' % ('after it was saved' if sv else 'without having been saved: the next reader gets the old pixels'))
        env = frozenset((i, ('dead',) if v == ('ref', ('tile', k)) else v) for i, v in S[0])
        S = (env, S[1], S[2])
        return (self.led(S, ('map-', k)),)

    def call(self, n, S):
        nm = n.get('n')
        o = n.get('obj')
        args = n.get('args', [])
        env = dict(S[0])
        if o is not None:
            ov = self.val(o, S)
            if ov == ('dead',):
                self.say(False, 'dangling', n, 'the reference to the cached tile is used after the entry was erased')
        if n.get('op') == '[]' and o is None and args:
            o, args = args[0], args[1:]
        m = self.member(o) if o is not None else None
        if n.get('op') == '=' and args or nm == 'operator=':
            lhs = o if o is not None else args[0]
            rhs = args[-1]
            L = peel(lhs)
            if L.get('k') == 'call' and (L.get('n') == 'operator[]' or L.get('op') == '[]' or L.get('n') == 'at'):
                b = L.get('obj') if L.get('obj') is not None else L['args'][0]
                if self.member(b) == MAP:
                    a = L['args'][-1]
                    return self.insert(n, S, self.val(a, S), self.val(rhs, S))
            if L.get('k') == 'ref':
                return (self.put(S, L.get('id'), self.val(rhs, S)),)
            if self.member(lhs) in (MAP, LIST):
                r = peel(rhs)
                if r.get('k') in ('ctor', 'init') and not (r.get('args') or r.get('ch')):
                    return self.clear(n, S, self.member(lhs))
            return (S,)
        if m == MAP:
            if nm in ('emplace', 'insert', 'insert_or_assign', 'try_emplace'):
                if len(args) == 2:
                    return self.insert(n, S, self.val(args[0], S), self.val(args[1], S))
                v = self.val(args[0], S)
                if v[0] == 'pairval':
                    return self.insert(n, S, v[1], v[2])
                self.say(None, 'books', n, 'an insertion that is not understood')
                return (S,)
            if nm == 'erase':
                k = self.val(args[0], S)
                if k[0] == 'it':
                    k = k[1]
                return self.remove(n, S, k)
            if nm == 'clear':
                return self.clear(n, S, MAP)
        if m == LIST:
            if nm in ('push_front', 'push_back', 'emplace_front', 'emplace_back'):
                return (self.led(S, ('list+', self.val(args[0], S))),)
            if nm in ('pop_back', 'pop_front'):
                gone = sum(1 for x in S[1] if x[0] == 'list-' and x[1][0] in ('back', 'front'))
                return (self.led(S, ('list-', (nm[4:], gone))),)
            if nm in ('erase', 'remove'):
                k = self.val(args[0], S)
                if k[0] == 'lit':
                    k = k[1]
                return (self.led(S, ('list-', k)),)
            if nm == 'clear':
                return self.clear(n, S, LIST)
        if nm == 'swap' and m in (MAP, LIST):
            self.say(None, 'books', n, 'swapping the containers is not followed')
        if nm == 'saveIfModified' and o is not None:
            t = self.val(o, S)
            if t[0] == 'ref':
                t = t[1]
            return (self.fact(S, ('saved', t)),)
        if nm == 'getImageTile':
            ks = [f[1] for f in S[2] if f[0] == 'miss' and f[2]]
            src = self.val(o, S)
            img = ('img', src) in S[2]
            self.say(img, 'once', n, 'a tile is loaded %s' % ('holding the lock of its image' if img else 'without the lock of its image: two threads load it and one of the copies is lost'))
            self.say(bool(ks), 'once', n, 'a tile is loaded %s' % ('after a second look-up under the lock of its image' if ks else 'without a look-up under the lock of its image: another thread may have loaded it'))
            return (self.put(S, ('r', id(peel(n))), ('loaded', id(n))),)
        g = self.F.funcs.get(n.get('key'))
        if g is not None and strip_targs(g.get('cls') or '') == TM and '$ret' in env:
            v = env['$ret']
            if v[0] == 'ref':
                v = v[1]
            return (self.put(self.put(S, ('r', id(peel(n))), v), '$ret', ('none',)),)
        return (S,)

    def clear(self, n, S, what):
        if what == MAP:
            ok = ('allsaved',) in S[2]
            self.say(ok, 'saved', n, 'the cache is emptied %s' % ('after all its tiles were saved' if ok else 'without saving its tiles first'))
        return (self.led(S, ('clr', what)),)

    # ---- conditions
    def branch(self, c, truth, S):
        c = peel(c)
        k = c.get('k')
        op, x, y = None, None, None
        if k == 'bin' and c['op'] in ('==', '!=', '<', '>', '<=', '>='):
            op, x, y = c['op'], c['x'], c['y']
        elif k == 'call' and (c.get('op') in ('==', '!=') or c.get('n') in ('operator==', 'operator!=')):
            op = c.get('op') or c['n'][8:]
            a = ([c['obj']] if c.get('obj') is not None else []) + c.get('args', [])
            if len(a) == 2:
                x, y = a
        if op and x is not None:
            a, b = self.val(x, S), self.val(y, S)
            if a[0] in ('end', 'null', 'int'):
                a, b = b, a
                op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            eq = truth if op == '==' else not truth
            if op in ('==', '!='):
                if a[0] == 'ref':
                    a = a[1]
                if b[0] == 'end' and a[0] == 'it':
                    return self.known(S, a[1], not eq)
                if b[0] == 'end' and a[0] == 'lit':
                    return self.step(S, a[1]) if not eq else self.finish(S, a[1])
                if b[0] == 'null':
                    return self.nonnull(S, a, not eq)
            if {a, b} == {('m', MEM), ('m', MAX)}:
                if a == ('m', MAX):
                    op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
                if op == '>' and not truth or op == '<=' and truth or op == '<' and truth or op == '>=' and not truth:
                    return (self.fact(S, ('within',)),)
                return (S,)
            if a[0] in ('size',) and a[1] == LIST and b[0] == 'int' and b[1] == 0:
                if op == '>' and not truth or op == '==' and truth or op == '!=' and not truth:
                    return (self.fact(S, ('within',)),)
            if a[0] == 'has' and b[0] == 'int' and b[1] == 0:
                return self.known(S, a[1], truth if op in ('>', '!=') else not truth)
            return (S,)
        v = self.val(c, S)
        if v[0] == 'ref':
            v = v[1]
        if v == ('empty', LIST) and truth:
            return (self.fact(S, ('within',)),)
        if v[0] == 'has':
            return self.known(S, v[1], truth)
        if k == 'call' and c.get('n') == 'operator bool':
            v = self.val(c['obj'], S)
        if k == 'call' and c.get('n') == 'isModified' and not truth:
            t = self.val(c['obj'], S)
            return (self.fact(S, ('saved', t[1] if t[0] == 'ref' else t)),)
        return self.nonnull(S, v, truth)

    def known(self, S, k, there):
        if there:
            return (self.fact(self.drop(S, lambda f: f[0] == 'miss' and f[1] == k), ('there', k)),)
        img = any(f[0] == 'img' for f in S[2])
        S = self.drop(S, lambda f: f[0] == 'miss' and f[1] == k)
        return (self.fact(S, ('miss', k, img)),)

    def nonnull(self, S, v, truth):
        if v == ('null',) and truth:
            return ()
        if v[0] == 'tile' and not truth and ('there', v[1]) in S[2]:
            return ()
        return (S,)

    # ---- walking over all tiles
    def step(self, S, e):
        done = ('walk', e) in S[2]
        sv = self.elemsaved(S, e)
        S = self.drop(S, lambda f: f[0] == 'saved' and mentions(f, e))
        if done and not sv:
            S = self.fact(S, ('missed', e))
        return (self.fact(S, ('walk', e)),)

    def elemsaved(self, S, e):
        return any(f[0] == 'saved' and mentions(f, e) for f in S[2])

    def finish(self, S, e):
        ok = (('walk', e) not in S[2] or self.elemsaved(S, e)) and ('missed', e) not in S[2]
        S = self.drop(S, lambda f: f[0] in ('walk', 'missed', 'saved') and mentions(f, e))
        return (self.fact(S, ('allsaved',)) if ok else S,)

    def iterate(self, n, S):
        m = self.member(n['range'])
        if m in (MAP, LIST):
            e = ('elem', id(n)) if m == LIST else ('melem', id(n))
            r = self.step(S, e)
            return tuple(self.fact(s, ('range', n['var'].get('id'), e)) for s in r)
        return (S,)

    def done(self, n, S):
        m = self.member(n['range'])
        if m in (MAP, LIST):
            return self.finish(S, ('elem', id(n)) if m == LIST else ('melem', id(n)))
        return (S,)


def mentions(x, k):
    return x == k or isinstance(x, tuple) and any(mentions(y, k) for y in x)


def describe(L):
    w = {'map+': 'entered in the map', 'list+': 'entered in the list', 'mem+': 'memory added', 'map-': 'erased from the map', 'list-': 'removed from the list', 'mem-': 'memory subtracted', 'clr': 'cleared'}
    return 'only ' + ', '.join(w[x[0]] + (' (' + x[1] + ')' if x[0] == 'clr' else '') for x in L)


def books(ck, F):
    fs = [f for f in F.funcs.values() if strip_targs(f.get('cls') or '') == TM and f.get('body') and not f.get('dep')]
    pub = [f for f in fs if f.get('acc') != 'private' and f.get('fk') != 'ctor']
    ck.ok(True if len(pub) >= 5 else None, 'books', TM, '%d public member functions' % len(pub))
    for f in pub:
        c = Cache(F, ck, f)
        try:
            o = Flow(c).run(f, {(frozenset(), (), frozenset())})
        except TooBig:
            bad = [v for v in c.seen.values() if v[0] is False]
            for ok, rule, n, msg in bad:
                ck.ok(ok, rule, where(n, f) if n.get('l') else f, msg)
            if not bad:
                ck.undecided('books', f, 'too many paths')
            continue
        ends = [(f['body'], s, None) for s in o.next] + [(f['body'], s, x) for x, l, s in o.ret]
        for n, s, x in ends:
            c.balanced(s, n, 'on return')
            if any(y[0] == 'in' for y in s[2]):
                c.say(('within',) in s[2], 'budget', n, 'a request ends with the cache within its memory limit' if ('within',) in s[2] else 'tiles are added without dropping old ones until the cache is within its limit')
            if f.get('fk') == 'dtor' or f['n'].startswith('~'):
                ok = ('allsaved',) in s[2] or ('thrown',) in s[2]
                c.say(ok, 'saved', n, 'the last tiles are saved when the cache goes away' if ok else 'the cache goes away without saving its tiles')
            if f['n'] == 'saveAllTiles':
                c.say(('allsaved',) in s[2], 'saved', n, 'every cached tile is saved' if ('allsaved',) in s[2] else 'some cached tiles are not saved')
            if f['n'] == 'flush':
                c.say(('empty',) in s[2], 'books', n, 'a flush leaves the cache empty' if ('empty',) in s[2] else 'a flush leaves tiles in the cache')
            if f['n'] == 'getTileForPixel':
                v = dict(s[0]).get('$ret')
                ok = v is not None and (v[0] == 'tile' or any(y[0] == 'in' and y[2] == v for y in s[2]))
                c.say(ok, 'handed-out', n, 'the tile handed out is the one in the cache' if ok else 'the tile handed out is not the one in the cache: what is written to it is not seen by others')
        for n, l, s in o.thr:
            c.balanced(s, f['body'], 'on an exception')
        if not c.seen:
            ck.ok(True, 'books', f, 'does not change the cache')
        for ok, rule, n, msg in c.seen.values():
            ck.ok(ok, rule, where(n, f) if n.get('l') else f, msg)


# ------------------------------------------------------------------ keys and geometry
def geometry(ck, F):
    f = F.one(TM + '::getTileForPixel')
    pr = [TM + '::' + x for x in ('tryTileFromCache', 'getMutexForImageSource', 'addTile', 'removeExtraTiles')]
    s = summarise(F, f, opaque=pr)
    src, x, y = [s.params[p['n']] for p in (f['params'][2], f['params'][0], f['params'][1])]

    for n in ('m_tile_width', 'm_tile_height'):
        v = s.it.hread(s.st, s.this, n, 'int')
        if n == 'm_tile_width':
            tw = v
        else:
            th = v
    wx, wy = mul(tw, app('idiv', (x, tw), 'i')), mul(th, app('idiv', (y, th), 'i'))
    loads = [e for e in s.effects if e.kind == 'call' and e.d['n'] == 'getImageTile']
    if len(loads) != 1:
        ck.undecided('grid', f, 'the tile is not requested by one call of getImageTile')
        return
    e = loads[0]
    at = e.d['argt']
    W, H = [[z.d['ret'] for z in s.effects if z.kind == 'call' and z.d['n'] == g and z.d['obj'] is e.d['obj']] for g in ('getWidth', 'getHeight')]
    ck.ok(True if e.d['obj'] is src else None, 'grid', f, 'the tile is requested from the image asked for')
    facts = [gt(tw, num(0)), gt(th, num(0)), ge(x, num(0)), ge(y, num(0))]
    ck.eqv('grid', f, at[0], wx, facts, what='left edge of the requested tile')
    ck.eqv('grid', f, at[1], wy, facts, what='lower edge of the requested tile')
    if W and H:
        ck.eqv('grid', f, at[2], tmin(tw, sub(W[0], wx)), facts, what='width of the requested tile')
        ck.eqv('grid', f, at[3], tmin(th, sub(H[0], wy)), facts, what='height of the requested tile')
    else:
        ck.ok(None, 'grid', f, 'the size of the image is not asked for')
    keys = [z.d['argt'][0] for z in s.effects if z.kind == 'call' and z.d['n'] in ('tryTileFromCache', 'addTile')]
    n = 0
    for k in keys:
        for nm, w in (('m_tile_x', wx), ('m_tile_y', wy), ('m_source', src)):
            v = s.it.hread(s.st, k, nm, 'int' if nm != 'm_source' else 'std::shared_ptr<const SourceXtractor::ImageSource>')
            n += 1
            ck.eqv('key', f, v, w, facts, what='%s of the key' % nm)
    ck.ok(True if n >= 3 else None, 'key', f, '%d key fields examined' % n)
    # keys are the same exactly when image and place are
    g = F.one(NS + 'TileKey::operator==')
    o = sym('other', 'o')
    s = summarise(F, g, {0: o})
    def fl(ob, nm):
        return s.it.hread(s.st, ob, nm, 'int' if nm != 'm_source' else 'std::shared_ptr<const SourceXtractor::ImageSource>')
    names = ('m_source', 'm_tile_x', 'm_tile_y')
    want = band(*[eq(fl(s.this, nm), fl(o, nm)) for nm in names])
    # fields as plain unknowns
    sub_ = {fl(ob, nm): sym('%s.%s' % ('this' if ob is s.this else 'other', nm), 'i') for ob in (s.this, o) for nm in names}
    ck.eqv('key', g, subst(s.ret, sub_), subst(want, sub_), what='two keys are equal when image and place are')
    for h in F.funcs.values():
        if h['n'] == 'operator()' and 'hash' in (h.get('cls') or '') and 'TileKey' in str(h.get('cta', '')) + str(h['params'][0]['t'] if h['params'] else '') and h.get('body'):
            used = sorted({m['n'] for m in walk(h['body']) if m['k'] == 'mem' and (m.get('q') or '').startswith(NS + 'TileKey::')})
            glob = [m for m in walk(h['body']) if m['k'] == 'ref' and m.get('dk') in ('global', 'slocal')]
            ck.ok(not glob, 'key', h, 'the hash depends on nothing but %s' % ', '.join(used))


def counter(e, t):
    """(symbol, start, step, loop) of the loop counter t is"""
    for L in e.loops:
        for x, v0, st in getattr(L, 'vars', ()):
            if x is t:
                if st is None and x in getattr(L, 'step', {}):
                    d = sub(L.step[x][1], x)
                    st = d if x not in subterms(d) else None
                return x, v0, st, L
    return None


def below(L, x):
    """upper limits of x in the loop: [(limit, strict)]"""
    r = []
    for f in L.facts:
        if f.op in ('lt', 'le'):
            for sgn in (1,):
                h = neg(sub(f.a[0], x))
                if x not in subterms(h):
                    r.append((h, f.op == 'lt'))
    return r


def chunks(ck, F):
    """a rectangle read through the cache has each pixel from the tile that holds it"""
    IT, BI = NS + 'ImageTileWithType::', NS + 'BufferedImage::'
    inst = {}
    for f in F.funcs.values():
        if f.get('body') and not f.get('dep'):
            inst.setdefault(strip_targs(f['q']), []).append(f)
    # by the names they are called by, template arguments included
    def called(names, cls):
        return sorted(set(names) | {n['q'] for f in F.funcs.values() if f.get('body') and not f.get('dep') and strip_targs(f['q']).startswith(cls)
                                    for n in walk(f['body']) if n.get('k') == 'call' and strip_targs(n.get('q') or '') in names})
    cells = called([NS + 'VectorImage::getValue', NS + 'VectorImage::setValue', NS + 'VectorImage::at'], IT)
    for nm in ('getValueImpl', 'setValueImpl'):
        for f in inst.get(IT + nm, [])[:1] or [None]:
            if f is None:
                ck.ok(None, 'pixel', IT + nm, 'not found')
                continue
            s = summarise(F, f, opaque=cells)
            es = [e for e in s.effects if e.kind == 'call' and e.d['n'] in ('getValue', 'setValue', 'at')]
            x, y = s.params[f['params'][0]['n']], s.params[f['params'][1]['n']]
            mx, my = s.it.hread(s.st, s.this, 'm_x', 'int'), s.it.hread(s.st, s.this, 'm_y', 'int')
            if len(es) != 1:
                ck.undecided('pixel', f, 'the pixel is not accessed once')
                continue
            ck.eqv('pixel', f, es[0].d['argt'][0], sub(x, mx), what='column of the pixel within the tile')
            ck.eqv('pixel', f, es[0].d['argt'][1], sub(y, my), what='row of the pixel within the tile')
    fs = inst.get(BI + 'copyOverlappingPixels', [])
    op = called([TM + '::getTileForPixel', BI + 'copyOverlappingPixels', NS + 'ImageTile::getValue', NS + 'ImageTileWithType::getValue', NS + 'VectorImage::getChunk', NS + 'UniversalImageChunk::create', TM + '::getTileWidth', TM + '::getTileHeight'], BI)
    if fs:
        f = fs[0]
        s = summarise(F, f, opaque=op)
        es = [e for e in s.effects if e.kind == 'call' and e.d['n'] == 'getValue']
        P = [s.params[p['n']] for p in f['params']]
        tile, out, x, y, w, h, tw, th = P
        px, py = s.it.hread(s.st, tile, 'm_x', 'int'), s.it.hread(s.st, tile, 'm_y', 'int')
        if len(es) != 1 or len(es[0].d['argt']) != 3 or len(es[0].loops) != 2:
            ck.undecided('pixel', f, 'the copy is not one access in two loops')
        else:
            e = es[0]
            X, Y, D = e.d['argt']
            ck.ok(True if e.d['obj'] is tile else None, 'pixel', f, 'pixels come from the tile')
            if D.op == 'app' and D.a[0] == 'elem' or (D.op == 'app' and isinstance(D.a[0], tuple) and D.a[0][0] == 'elem'):
                ix = (D.a[0][2] if isinstance(D.a[0], tuple) else D.a[-1])
                ck.eqv('pixel', f, ix, add(sub(X, x), mul(sub(Y, y), w)), exact=(X, Y), what='the pixel at (x, y) of the image goes to its place in the rectangle')
            else:
                ck.undecided('pixel', f, 'the destination of the copied pixel is not an element of the output')
            for v, lo, hi, what in ((X, tmax(px, x), tmin(add(px, tw), add(x, w)), 'columns'), (Y, tmax(py, y), tmin(add(py, th), add(y, h)), 'rows')):
                c = counter(e, v)
                if c is None or c[2] != 1:
                    # the counter may be another variable running in step
                    ck.undecided('pixel', f, '%s are not counted one by one' % what)
                    continue
                ck.eqv('pixel', f, c[1], lo, what='first of the copied %s' % what)
                ups = below(c[3], v)
                if not ups:
                    ck.undecided('pixel', f, 'where the %s end is not understood' % what)
                else:
                    ck.eqv('pixel', f, ups[0][0] if ups[0][1] else add(ups[0][0], num(1)), hi, what='end of the copied %s' % what)
    fs = inst.get(BI + 'getChunk', [])
    ck.ok(True if fs else None, 'pixel', BI + 'getChunk', 'reading a rectangle is analysed')
    for f in fs[:1]:
        s = summarise(F, f, opaque=op)
        x, y, w, h = [s.params[p['n']] for p in f['params']]
        es = [e for e in s.effects if e.kind == 'call']
        size = {n: [e.d['ret'] for e in es if e.d['n'] == n] for n in ('getTileWidth', 'getTileHeight')}
        if not size['getTileWidth'] or not size['getTileHeight']:
            ck.undecided('pixel', f, 'the size of the tiles is not asked for')
            return
        tw, th = size['getTileWidth'][0], size['getTileHeight'][0]
        facts = [gt(tw, num(0)), gt(th, num(0)), ge(x, num(0)), ge(y, num(0)), gt(w, num(0)), gt(h, num(0))]
        one = [e for e in es if e.d['n'] == 'getChunk' and 'VectorImage' in e.d['q']]
        for e in one:
            at = e.d['argt']
            for g, wnt, what in zip(at, (app('imod', (x, tw), 'i'), app('imod', (y, th), 'i'), w, h), ('column', 'row', 'width', 'height')):
                ck.eqv('pixel', f, g, wnt, facts, what='%s of the rectangle within a single tile' % what)
            tl = [z for z in es if z.d['n'] == 'getTileForPixel' and z.d['ret'] in subterms(e.d['obj'])]
            ck.ok(True if len(tl) == 1 else None, 'pixel', f, 'the single tile is the one requested')
            for z in tl:
                ck.eqv('pixel', f, z.d['argt'][0], x, what='column the single tile is requested for')
                ck.eqv('pixel', f, z.d['argt'][1], y, what='row the single tile is requested for')
            # only when the rectangle ends within the tile
            pc = facts + list(e.pc)
            ck.entail('pixel', f, pc, le(add(app('imod', (x, tw), 'i'), w), tw), what='a rectangle served from one tile ends within its columns')
            ck.entail('pixel', f, pc, le(add(app('imod', (y, th), 'i'), h), th), what='a rectangle served from one tile ends within its rows')
        cp = [e for e in es if e.d['n'] == 'copyOverlappingPixels']
        if len(cp) != 1 or len(cp[0].loops) != 2:
            ck.undecided('pixel', f, 'the tiles of a rectangle are not visited in two loops')
            return
        e = cp[0]
        at = e.d['argt']
        tl = [z for z in es if z.d['n'] == 'getTileForPixel' and z.d['ret'] in subterms(at[0])]
        for g, wnt, what in zip(at[2:], (x, y, w, h, tw, th), ('column', 'row', 'width', 'height', 'tile width', 'tile height')):
            ck.eqv('pixel', f, g, wnt, facts, what='%s handed to the copy' % what)
        if len(tl) != 1:
            ck.undecided('pixel', f, 'which tile is copied from is not understood')
            return
        for v, t, o, n, what in ((tl[0].d['argt'][0], tw, x, w, 'columns'), (tl[0].d['argt'][1], th, y, h, 'rows')):
            c = counter(e, v)
            if c is None or c[2] is None:
                ck.undecided('pixel', f, '%s of tiles are not counted' % what)
                continue
            ck.eqv('pixel', f, c[1], mul(t, app('idiv', (o, t), 'i')), facts, what='first of the %s of tiles' % what)
            ck.eqv('pixel', f, c[2] if isinstance(c[2], T) else num(c[2]), t, facts, what='step over the %s of tiles' % what)
            ups = below(c[3], v)
            last = mul(t, app('idiv', (sub(add(o, n), num(1)), t), 'i'))
            if not ups:
                ck.undecided('pixel', f, 'where the %s of tiles end is not understood' % what)
            else:
                lim, strict = ups[0]
                # lattice values v = k*t: v < o+n, v <= last and v < last+1 stop at the same tile
                cands = [add(last, num(1)), add(last, t), add(o, n)] if strict else [last, sub(add(o, n), num(1)), sub(add(last, t), num(1))]
                same = [z for z in cands if equal(lim, z, facts)[0]]
                if same:
                    ck.ok(True, 'pixel', f, 'last of the %s of tiles' % what)
                else:
                    ck.eqv('pixel', f, lim, cands[0], facts, what='last of the %s of tiles' % what)
        fin = [e for e in es if e.d['n'] == 'create' and 'UniversalImageChunk' in e.d['q']]
        for e in fin:
            ck.eqv('pixel', f, e.d['argt'][1], w, what='width of the copied rectangle')
            ck.eqv('pixel', f, e.d['argt'][2], h, what='height of the copied rectangle')


def handed(ck, F):
    """a source makes the tile it was asked for"""
    n = 0
    for f in F.funcs.values():
        if f['n'] != 'getImageTile' or not f.get('body') or f.get('dep') or not f['file'].startswith(REPO) or len(f['params']) != 4:
            continue
        ids = [p['id'] for p in f['params']]
        inits = {v['id']: v['init'] for x in walk(f['body']) if x['k'] == 'decl' for v in x['vars'] if v.get('init') is not None}

        def par(a, d=0):
            a = peel(a)
            if a.get('k') == 'ref' and a.get('id') in ids:
                return ids.index(a['id'])
            if a.get('k') == 'ref' and a.get('id') in inits and d < 5:
                return par(inits[a['id']], d + 1)
            if a.get('k') == 'ctor' and len(a.get('args', ())) == 1:
                return par(a['args'][0], d)
            return None
        for x in walk(f['body']):
            a = None
            if x['k'] == 'call' and x.get('n') == 'create' and strip_targs(x.get('q') or '') == NS + 'ImageTile::create':
                a = x['args'][1:5]
            elif x['k'] == 'call' and x.get('n') in ('make_shared', 'make_unique') and istile(x.get('t')):
                a = x['args'][:4]
            elif x['k'] == 'call' and x.get('n') == 'getImageTile':
                a = x['args'][:4]
            if a is None:
                continue
            n += 1
            got = [par(z) for z in a]
            mod = [i for i in ids if any(z['k'] == 'asg' and peel(z['x']).get('id') == i for z in walk(f['body']))]
            if None in got or mod:
                ck.undecided('grid', where(x, f), 'the place of the new tile is computed')
            else:
                ck.ok(got == [0, 1, 2, 3], 'grid', where(x, f), 'the tile made %s' % ('is the one asked for' if got == [0, 1, 2, 3] else 'is not at the place, or not of the size, asked for'))
    ck.ok(True if n >= 4 else None, 'grid', 'sources', '%d image sources make tiles' % n)


def tiles(ck, F):
    """the tile object: mark, save, destroy"""
    IT = NS + 'ImageTile'
    f = F.one(IT + '::saveIfModified')
    c = Mark(F, f)
    o = Flow(c).run(f, {('?', False)})
    for m, sv in list(o.next) + [s for _, _, s in o.ret]:
        ck.ok(sv or m == 'F0', 'mark', f, 'a tile not saved was not modified' if sv or m == 'F0' else 'a modified tile may be left unsaved')
    for x, l, (m, sv) in o.thr:
        ck.ok(m == 'T', 'mark', '%s:%s' % (f['file'].replace(REPO + '/', ''), l), 'a tile that could not be saved stays marked' if m == 'T' else 'a tile that could not be saved is no longer marked: its pixels are lost silently')
    if not c.saves:
        ck.ok(False, 'mark', f, 'the tile is never handed to its source')
    for n, ms in c.saves.items():
        n = c.nodes[n]
        ok = all(m == 'F' for m in ms)
        ck.ok(ok, 'mark', where(n, f), 'the mark is %s' % ('cleared before the tile is saved' if ok else 'still set while the tile is saved: pixels written meanwhile are lost when it is cleared afterwards'))
    for n in c.late.values():
        ck.ok(False, 'mark', where(n, f), 'the mark is cleared after the tile was saved: pixels written meanwhile are lost')
    rec = F.rec(IT)
    fd = {x['n']: x['t'] for r in rec for x in r.get('fields', ())}
    if 'm_modified' in fd:
        ck.ok('atomic' in fd['m_modified'], 'mark', IT, 'the mark is %s' % ('atomic' if 'atomic' in fd['m_modified'] else 'a plain variable written by several threads'))
    # who else clears the mark, moves a tile, or changes its size
    fixed = ('m_x', 'm_y', 'm_max_x', 'm_max_y', 'm_source', 'm_image_type', 'm_tile_image')
    n = 0
    for g in F.funcs.values():
        if not g['file'].startswith(REPO) or g.get('dep') or not g.get('body'):
            continue
        for x in walk(g['body']):
            if x['k'] == 'call' and x.get('n') == 'setModified' and g['key'] != f['key'] and strip_targs(x.get('q') or '').startswith(IT):
                a = peel(x['args'][0])
                ok = a.get('k') == 'bool' and a['v']
                n += 1
                ck.ok(ok, 'mark', where(x, g), 'the mark is %s' % ('set' if ok else 'cleared outside of saveIfModified'))
            if x['k'] in ('asg',) or x['k'] == 'call' and x.get('op') == '=':
                l = peel(x['x'] if x['k'] == 'asg' else (x.get('obj') or x['args'][0]))
                if l.get('k') == 'mem' and strip_targs(l.get('q') or '').startswith(IT) and l['n'] in fixed and g.get('fk') != 'ctor':
                    ck.ok(False, 'fixed', where(x, g), '%s of a tile changes: the cache knows it under its old place and size' % l['n'])
    ck.ok(True if n else None, 'mark', IT, '%d places set the mark' % n)
    k = 0
    for g in F.funcs.values():
        if g['n'] == 'getTileMemorySize' and g.get('body') and not g.get('dep'):
            k += 1
            bad = [x for x in walk(g['body']) if x['k'] == 'mem' and x['n'] not in fixed and strip_targs(x.get('q') or '').startswith(IT) and x.get('dk') != 'method' and x.get('t', '').find('(') < 0]
            ck.ok(not bad, 'fixed', g, 'the accounted size of a tile never changes' if not bad else 'the accounted size depends on %s, which changes' % bad[0]['n'])
    ck.ok(True if k >= 2 else None, 'fixed', IT, '%d tile types report their size' % k)
    # destruction
    d = 0
    seen = set()
    for r in F.records.values():
        if not F.derives(r, 'ImageTile') or strip_targs(r['q']) == IT or r.get('dep'):
            continue
        ds = [g for g in F.funcs.values() if g['key'] not in seen and (g.get('fk') == 'dtor' or g['n'].startswith('~')) and g.get('cls') in (r['q'], r.get('key')) and g.get('body') and not g.get('dep')]
        for g in ds:
            d += 1
            seen.add(g['key'])
            ok = always_calls(F, g, 'saveIfModified')
            ck.ok(ok, 'mark', g, 'a tile is saved before it is destroyed' if ok else 'a tile can be destroyed without being saved')
    ck.ok(True if d else None, 'mark', IT, '%d tile destructors' % d)


class Mark(Client):
    """mark of one tile: '?' unknown, T, F (cleared), F0 (found clear)"""
    def __init__(self, F, f):
        self.F, self.f = F, f
        self.saves, self.nodes, self.late = {}, {}, {}
        self.inits = {v['id']: v['init'] for n in walk(f['body']) if n['k'] == 'decl' for v in n['vars'] if v.get('init') is not None}

    def atom(self, c):
        c = peel(c)
        if c.get('k') == 'ref' and c.get('id') in self.inits:
            return self.atom(self.inits[c['id']])
        if c.get('k') == 'call' and c.get('n') in ('isModified',):
            return 'test'
        if c.get('k') == 'call' and c.get('n') == 'exchange':
            return 'exch'
        if c.get('k') == 'mem' and c['n'] == 'm_modified':
            return 'test'
        if c.get('k') == 'call' and c.get('obj') is not None and peel(c['obj']).get('n') == 'm_modified' and (c.get('n') or '').startswith(('operator', 'load')):
            return 'test'
        return None

    def branch(self, c, truth, S):
        m, sv = S
        a = self.atom(c)
        if a == 'test':
            if not truth:
                return (('F0', sv),) if m in ('?', 'F0') else (S,)
            return (('T', sv),) if m == '?' else ((S,) if m != 'F0' else ())
        if a == 'exch':
            # the old value decides; afterwards it is clear
            return (('F' if truth else 'F0', sv),)
        return (S,)

    def set(self, n, val, S):
        m, sv = S
        if val is None:
            return (('?', sv),)
        if not val:
            if sv:
                self.late[id(n)] = n
            return (('F', sv),)
        return (('T', sv),)

    def event(self, n, S):
        if n.get('k') == 'call' and n.get('n') in ('setModified', 'store') and n.get('args'):
            a = peel(n['args'][0])
            return self.set(n, a.get('v') if a.get('k') == 'bool' else None, S)
        if n.get('k') == 'asg' and peel(n['x']).get('n') == 'm_modified' or n.get('k') == 'call' and n.get('op') == '=' and n.get('obj') is not None and peel(n['obj']).get('n') == 'm_modified':
            a = peel(n['y'] if n['k'] == 'asg' else n['args'][0])
            return self.set(n, a.get('v') if a.get('k') == 'bool' else None, S)
        if n.get('k') == 'call' and n.get('n') == 'saveTile':
            self.saves.setdefault(id(n), set()).add(S[0])
            self.nodes[id(n)] = n
            return ((S[0], True),)
        return (S,)

    def throws(self, n, S):
        if n.get('k') == 'call' and n.get('n') == 'saveTile':
            return (S,)
        return (S,) if n.get('k') == 'throw' else False


class Calls(Client):
    def __init__(self, F, name):
        self.F, self.name = F, name

    def event(self, n, S):
        return (True,) if n.get('k') == 'call' and n.get('n') == self.name else (S,)

    def inline(self, n, S):
        g = self.F.funcs.get(n.get('key'))
        return g['body'] if g is not None and g.get('body') and g['file'].startswith(REPO) and n.get('n') != self.name and (n.get('obj') is None or peel(n['obj']).get('k') == 'this') else None


def always_calls(F, f, name):
    o = Flow(Calls(F, name)).run(f, {False})
    return all(list(o.next) + [s for _, _, s in o.ret])


# ------------------------------------------------------------------ pixel writes
class Writes(Client):
    """state: tiles written and not marked since"""
    def __init__(self, F, f):
        self.F, self.f = F, f
        self.seen = {}
        self.inits = {v['id']: v.get('init') for n in walk(f['body']) if n['k'] == 'decl' for v in n['vars']}
        self.asgs = {}
        for n in walk(f['body']):
            l = None
            if n['k'] == 'asg':
                l, r = peel(n['x']), n['y']
            elif n['k'] == 'call' and (n.get('op') == '=' or n.get('n') == 'operator=') and (n.get('obj') is not None or n.get('args')):
                l, r = peel(n['obj'] if n.get('obj') is not None else n['args'][0]), n['args'][-1]
            if l is not None and l.get('k') == 'ref':
                self.asgs.setdefault(l.get('id'), []).append(r)

    def origin(self, o, d=0):
        """('managed', text) | 'fresh' | 'given' | None"""
        o = peel(o)
        if d > 6 or o is None:
            return None
        k = o.get('k')
        if k == 'call':
            nm = o.get('n')
            if nm in ('operator->', 'operator*', 'get') or o.get('op') in ('*', '->'):
                return self.origin(o['obj'] if o.get('obj') is not None else o['args'][0], d + 1)
            if nm in ('static_pointer_cast', 'dynamic_pointer_cast', 'move'):
                return self.origin(o['args'][0], d + 1)
            if nm == 'getTileForPixel':
                return 'managed'
            if nm in ('create', 'make_shared', 'make_unique'):
                return 'fresh'
            return None
        if k == 'un':
            return self.origin(o['e'], d + 1)
        if k == 'new':
            return 'fresh'
        if k == 'ctor' and len(o.get('args', ())) == 1:
            return self.origin(o['args'][0], d + 1)
        if k == 'ctor':
            return 'fresh'
        if k == 'ref':
            if o.get('dk') == 'parm':
                return 'given'
            rs = ([self.inits[o['id']]] if self.inits.get(o.get('id')) is not None else []) + self.asgs.get(o.get('id'), [])
            os_ = {self.origin(r, d + 1) for r in rs}
            if 'managed' in os_:
                return 'managed'
            return os_.pop() if len(os_) == 1 else None
        if k == 'mem' and peel(o.get('b') or {}).get('k') in ('this', None):
            return 'kept'
        return None

    def key(self, o):
        o = peel(o)
        while o is not None and (o.get('k') == 'un' or o.get('k') == 'call' and (o.get('n') in ('operator->', 'operator*', 'get') or o.get('op') in ('*', '->'))):
            o = peel(o['e'] if o.get('k') == 'un' else (o['obj'] if o.get('obj') is not None else o['args'][0]))
        return o.get('id') or o.get('n') or id(o)

    def event(self, n, S):
        if n.get('k') == 'call' and n.get('obj') is not None and istile(n['obj'].get('t')):
            nm = n.get('n')
            if nm in ('setValue', 'setValueImpl', 'getDataPtr') and not (peel(n['obj']).get('k') == 'this'):
                og = self.origin(n['obj'])
                self.seen[id(n)] = (n, og)
                if og in ('managed', 'kept'):
                    return (S | {(self.key(n['obj']), id(n))},)
            if nm == 'setModified':
                a = peel(n['args'][0])
                if a.get('k') == 'bool' and a['v']:
                    k = self.key(n['obj'])
                    return (frozenset(x for x in S if x[0] != k),)
        return (S,)


def istile(t):
    return bool(re.search(r'\bImageTile(WithType)?\b', t or ''))


def writes(ck, F):
    n = 0
    done = set()
    for f in F.funcs.values():
        if not f['file'].startswith(REPO) or f.get('dep') or not f.get('body') or '/tests/' in f['file']:
            continue
        if strip_targs(f.get('cls') or '').startswith(NS + 'ImageTile'):
            continue
        if not any(x['k'] == 'call' and x.get('n') in ('setValue', 'getDataPtr') and x.get('obj') is not None and istile(x['obj'].get('t')) for x in walk(f['body'])):
            continue
        c = Writes(F, f)
        try:
            o = Flow(c).run(f, {frozenset()})
        except TooBig:
            ck.undecided('written', f, 'too many paths')
            continue
        left = {i for s in list(o.next) + [s for _, _, s in o.ret] for _, i in s}
        for x, og in c.seen.values():
            w = where(x, f)
            if x['n'] == 'getDataPtr' and f['n'] == 'saveTile':
                continue
            n += 1
            if og == 'kept':
                ck.ok(False, 'written', w, 'a pixel is written to a tile kept from an earlier call: the cache may have dropped that tile, and nobody looks at it any more')
            elif og == 'managed':
                ck.ok(id(x) not in left, 'written', w, 'a pixel written to a cached tile %s' % ('is followed by the mark on every path' if id(x) not in left else 'is not followed by the mark: it can be dropped, or saved over, without a trace'))
            elif og in ('fresh', 'given'):
                ck.ok(True, 'written', w, 'a pixel is written to a tile %s' % ('just made' if og == 'fresh' else 'handed in to be filled'))
            else:
                ck.undecided('written', w, 'where this tile comes from is not understood')
    ck.ok(True if n >= 4 else None, 'written', 'tiles', '%d places write pixels of tiles' % n)


def run(ck):
    ck.rule('guarded', 'the state of the cache is accessed with its lock held, exclusively when it is written')
    ck.rule('released', 'locks are automatic objects, released on every way out')
    ck.rule('no-reentry', 'nothing that needs the cache runs while the cache lock is held')
    ck.rule('once', 'a tile is loaded and entered under the lock of its image, after a second look-up found none')
    ck.rule('books', 'a tile enters and leaves the map, the list and the accounted memory together')
    ck.rule('budget', 'after a tile was added, old ones are dropped until the cache is within its limit')
    ck.rule('saved', 'tiles are saved before they leave the cache')
    ck.rule('handed-out', 'the tile handed out is the one in the cache')
    ck.rule('resize', 'the grid of tiles changes only while the cache is empty')
    ck.rule('dangling', 'no reference into the map is used after its entry was erased')
    ck.rule('grid', 'a tile is requested at its place on the grid and within the image')
    ck.rule('key', 'tiles are known by their image and their place on the grid')
    ck.rule('pixel', 'a rectangle read through the cache has each pixel from the tile that holds it')
    ck.rule('mark', 'a modified tile is saved, and a pixel written meanwhile stays marked')
    ck.rule('fixed', 'place and size of a tile never change')
    ck.rule('written', 'every pixel written to a cached tile is marked')
    F = ck.F = Facts(tus(*WRITERS) + [VERIF + '/drivers/tiles.cpp'])
    fs = [f for f in F.funcs.values() if f['file'].startswith(REPO) and f.get('body') and not f.get('dep') and '/Image/' in f['file']]
    A = locks.Analysis(F, fs)
    ck.ok(True if not A.lost else None, 'guarded', 'analysis', 'every function was followed (%d functions, %d accesses)' % (len(A.funcs), len(A.acc)))
    ck.section(guarded, ck, F, A)
    ck.section(no_reentry, ck, F, A)
    ck.section(books, ck, F)
    ck.section(tiles, ck, F)
    ck.section(writes, ck, F)
    ck.section(geometry, ck, F)
    ck.section(handed, ck, F)
    ck.section(chunks, ck, F)
    return 30
