"""C11: FITS library errors never pass unnoticed."""
from sx.props import *
from sx.own import peel
from sx.flow import Flow, Client, TooBig
from sx.facts import walk, REPO
from sx.interp import strip_targs, summarise
from sx.terms import *
import copy
import re

NS = 'SourceXtractor::'
FIS, FF = NS + 'FitsImageSource', NS + 'FitsFile'
FILES = ['SEFramework/src/lib/FITS/*.cpp']

NOSTATUS = {'ffghdn', 'ffgerr', 'ffvers', 'ffgmsg', 'ffcmsg', 'ffpmsg', 'ffmkky', 'ffgmng'}
CLOSES = {'ffclos', 'ffdelt'}
OPENS = {'ffopen', 'ffiopn', 'ffdkopn', 'ffdopn', 'fftopn', 'ffinit', 'ffdkinit', 'ffreopen', 'ffeopn'}
OUTPUT = {'ffgipr': (2, 3, 4), 'ffgrec': (2,), 'ffgcrd': (2,), 'ffgsv': (6,), 'ffgpv': (5,), 'ffgpxv': (5,), 'ffgisz': (2,)}
# calls that work on the HDU the file is positioned at
READS = {'ffgipr', 'ffgrec', 'ffgcrd', 'ffgsv', 'ffgpv', 'ffgpxv', 'ffgisz', 'ffgidm', 'ffgkyj', 'ffgkys', 'ffgkyd', 'ffgky', 'ffhdr2str', 'ffgsf'}
WRITES = {'ffpss', 'ffppx', 'ffppr', 'ffppxn', 'ffucrd', 'ffprec', 'ffmcrd', 'ffpky', 'ffuky', 'ffpkys', 'ffpkyj', 'ffrsim'}
MODIFIES = WRITES | {'ffcrim', 'ffcrtb', 'ffiimg', 'ffdhdu'}


def isfits(n):
    return n.get('k') == 'call' and (n.get('key') or '').startswith('c:@F@ff') and (n.get('n') or '').startswith('ff')


class Status(Client):
    """state: frozenset of facts
       ('s', var, 'uninit'|'zero'|'dirty'|'bad')   value of a status variable
       ('t', out, var)                             out was written by a call reporting to var
       ('a', id, var)                              reference or copy of a status
       ('c', id, var, pol)                         id is true exactly when var is nonzero (pol) / zero
       ('o', handle, var)                          handle opened and not owned yet"""
    limit = 6000

    def __init__(self, F, f, files):
        self.F, self.f, self.files = F, f, files
        self.seen = {}
        self.quiet = set()
        self.params = {p['id'] for p in f['params']}
        self.calls = 0
        self.reached = {}
        for g in F.funcs.values():
            if g.get('body') and g['file'] in files:
                self.scan(g['body'])

    def scan(self, b):
        for n in walk(b):
            if isfits(n):
                for a in n['args']:
                    p = peel(a)
                    r = p
                    if p.get('k') == 'un' and p['op'] == '&':
                        r = peel(p['e'])
                    if r.get('k') == 'ref' and (r is not p or '[' in (r.get('t') or '') or '*' in (r.get('t') or '')):
                        self.quiet.add(id(r))

    def say(self, ok, rule, n, msg):
        k = (rule, id(n), msg)
        if k not in self.seen or self.seen[k][0] is True:
            self.seen[k] = (ok, rule, n, msg)

    # ---- names
    def var(self, n, S):
        n = peel(n)
        while n is not None and n.get('k') == 'un' and n['op'] in ('&', '*'):
            n = peel(n['e'])
        if n is None:
            return None
        if n.get('k') == 'ref' and n.get('dk') in ('var', 'parm'):
            for x in S:
                if x[0] == 'a' and x[1] == n['id']:
                    return x[2]
            return n['id']
        if n.get('k') == 'call' and ('a', id(n)) in {x[:2] for x in S}:
            return [x[2] for x in S if x[:2] == ('a', id(n))][0]
        if isfits(n) and n['n'] not in NOSTATUS and n['args']:
            return self.var(n['args'][-1], S)
        if n.get('k') == 'mem':
            return ('m', n['n'])
        return None

    def st(self, S, v):
        for x in S:
            if x[0] == 's' and x[1] == v:
                return x[2]
        return None

    def put(self, S, v, w):
        return frozenset(x for x in S if not (x[0] == 's' and x[1] == v)) | {('s', v, w)}

    def bind(self, S, i, n, ref=False):
        """variable i is initialised or assigned from n"""
        p = peel(n) if n is not None else None
        S = frozenset(x for x in S if not (x[0] in ('a', 'c', 's', 't') and x[1] == i) and not (x[0] == 'a' and x[2] == i))
        if p is None:
            return S
        v = self.var(p, S)
        if v is not None and v != i and (self.st(S, v) is not None or (v in self.statusvars())):
            return S | {('a', i, v)}
        c = self.cond(p, S)
        if c is not None:
            return S | {('c', i, c[0], c[1])}
        return S

    def taken(self, S, v, w):
        """status v takes over from status w"""
        x = self.st(S, w)
        S = frozenset(y for y in S if not (y[0] == 's' and y[1] in (v, w)) and not (y[0] == 'a' and (y[1] == v or y[2] == v)))
        S = frozenset((y[0], y[1], v) + y[3:] if y[0] in ('a', 't', 'c', 'o') and y[2] == w else y for y in S)
        return S | {('s', v, x), ('a', w, v)}

    def statusvars(self):
        if not hasattr(self, '_sv'):
            self._sv = set()
            for g in self.F.funcs.values():
                if g.get('body') and g['file'] in self.files:
                    for n in walk(g['body']):
                        if isfits(n) and n['n'] not in NOSTATUS and n['args']:
                            e = peel(n['args'][-1])
                            while e.get('k') == 'un' and e['op'] in ('&', '*'):
                                e = peel(e['e'])
                            if e.get('k') == 'ref':
                                self._sv.add(e['id'])
        return self._sv

    def cond(self, c, S):
        """(var, True) if c says the status is nonzero, (var, False) if it says it is zero"""
        c = peel(c)
        if c is None:
            return None
        if c.get('k') == 'un' and c['op'] == '!':
            r = self.cond(c['e'], S)
            return (r[0], not r[1]) if r else None
        if c.get('k') == 'bin' and c['op'] in ('==', '!=', '>', '<', '<=', '>='):
            for x, y, op in ((c['x'], c['y'], c['op']), (c['y'], c['x'], {'>': '<', '<': '>', '<=': '>=', '>=': '<='}.get(c['op'], c['op']))):
                py = peel(y)
                if py is None or py.get('k') != 'int' or py['v'] != 0 and not (py['v'] == 1 and op in ('>=', '<')):
                    continue
                v = self.var(x, S)
                if v is None or self.st(S, v) is None:
                    continue
                if py['v'] == 1:
                    return (v, op == '>=')
                if op in ('!=', '>'):
                    return (v, True)
                if op in ('==', '<='):
                    return (v, False)
            return None
        if c.get('k') in ('ref', 'call'):
            i = c['id'] if c['k'] == 'ref' else id(c)
            for x in S:
                if x[0] == 'c' and x[1] == i:
                    return (x[2], x[3])
            v = self.var(c, S)
            if v is not None and self.st(S, v) is not None:
                return (v, True)
        return None

    # ---- transfer
    def branch(self, c, truth, S):
        r = self.cond(c, S)
        if r is None:
            # a particular failure was recognised
            p = peel(c)
            if p is not None and p.get('k') == 'bin' and p['op'] in ('==', '!='):
                for x, y in ((p['x'], p['y']), (p['y'], p['x'])):
                    q = peel(y)
                    v = self.var(x, S) if q is not None and q.get('k') == 'int' and q['v'] > 0 else None
                    if v is not None and self.st(S, v) is not None and truth == (p['op'] == '=='):
                        return (self.put(S, v, 'bad'),) if self.st(S, v) != 'zero' else ()
            return (S,)
        v, nz = r
        s = self.st(S, v)
        if nz == truth:
            if s == 'zero':
                return ()
            S = self.put(S, v, 'bad')
            # nothing was opened
            return (frozenset(x for x in S if not (x[0] == 'o' and x[2] == v)),)
        if s == 'bad':
            return ()
        # what was set so far is good
        return (frozenset(x for x in self.put(S, v, 'zero') if not (x[0] == 't' and x[2] == v)),) if s != 'uninit' else (S,)

    def inline(self, n, S):
        g = self.F.funcs.get(n.get('key'))
        if g is None or not g.get('body') or g['file'] not in self.files or g.get('virtual') or g is self.f or g.get('fk') in ('ctor', 'dtor'):
            return None
        if g['n'] == self.f['n']:
            return None
        return {'k': 'block', 's': [{'k': 'bind', 'l': n.get('l'), 'pairs': [(p['id'], a, p['t']) for p, a in zip(g['params'], n.get('args', []))], 'at': id(n)}, g['body']]}

    def event(self, n, S):
        k = n.get('k')
        if k == 'bind':
            for i, a, t in n['pairs']:
                S = self.bind(S, i, a)
            return (frozenset(x for x in S if x[1] != '$ret'),)
        if k == 'ret':
            S = frozenset(x for x in S if x[1] != '$ret')
            if n.get('e') is not None:
                S = self.bind(S, '$ret', n['e'])
            return (S,)
        if k == 'vardecl':
            v = n['v']
            if v['id'] in self.statusvars() and not v.get('t', '').endswith(('&', '*')):
                i = v.get('init')
                p = peel(i) if i is not None else None
                while p is not None and p.get('k') == 'init' and len(p.get('ch') or ()) == 1:
                    p = peel(p['ch'][0])
                S = frozenset(x for x in S if not (x[0] in ('s',) and x[1] == v['id']))
                if p is None:
                    return (S | {('s', v['id'], 'uninit')},)
                w = self.var(p, S)
                if w is not None and self.st(S, w) is not None:
                    return (self.taken(S, v['id'], w),)
                return (S | {('s', v['id'], 'zero' if p.get('k') == 'int' and p['v'] == 0 or p.get('k') == 'init' else 'dirty')},)
            if v.get('init') is not None:
                return (self.bind(S, v['id'], v['init']),)
            return (S,)
        if k == 'asg':
            v = self.var(n['x'], S)
            if v is None:
                return (S,)
            if n.get('op', '=') == '=' and self.st(S, v) is not None:
                p = peel(n['y'])
                if p.get('k') == 'int':
                    return (self.put(S, v, 'zero' if p['v'] == 0 else 'dirty'),)
                w = self.var(p, S)
                if w == v:
                    return (S,)
                if w is not None and self.st(S, w) is not None and not isfits(p):
                    return (self.taken(S, v, w),)
                return (self.put(S, v, 'dirty'),)
            return (self.bind(S, v, n['y']),)
        if k == 'ref':
            if id(n) in self.quiet:
                return (S,)
            for x in S:
                if x[0] == 't' and x[1] == n.get('id') and self.st(S, x[2]) in ('dirty', 'bad'):
                    self.say(False, 'tested', n, "'%s' is used although the status of the call that should have set it %s" % (n['n'], 'was not tested' if self.st(S, x[2]) == 'dirty' else 'is a failure'))
            return (S,)
        if isfits(n):
            return self.fits(n, S)
        if k == 'call':
            g = self.inline(n, S)
            if g is not None:
                r = [x for x in S if x[1] == '$ret']
                S = frozenset(x for x in S if x[1] not in ('$ret', id(n)))
                for x in r:
                    S = S | {(x[0], id(n)) + x[2:]}
            self_owner = n.get('obj')
            if n.get('n') in ('reset', 'operator=') and self_owner is not None and 'fitsfile' in (peel(self_owner).get('t') or ''):
                for a in n['args']:
                    S = self.owned(S, a)
            return (S,)
        if k == 'ctor' and 'fitsfile' in (n.get('t') or '') and 'ptr' in (n.get('t') or ''):
            for a in n.get('args', []):
                S = self.owned(S, a)
        if k == 'meminit':
            return (S,)
        return (S,)

    def owned(self, S, a):
        v = self.var(a, S)
        return frozenset(x for x in S if not (x[0] == 'o' and x[1] == v))

    def fits(self, n, S):
        nm = n['n']
        if nm in NOSTATUS or not n['args']:
            return (S,)
        self.calls += 1
        v = self.var(n['args'][-1], S)
        if v is None or isinstance(v, tuple):
            self.say(None, 'tested', n, 'where %s reports its status is not understood' % nm)
            return (S,)
        s = self.st(S, v)
        if nm in CLOSES:
            self.say(False if s == 'uninit' else True, 'init', n, 'the status handed to %s is set' % nm if s != 'uninit' else 'the status handed to %s is not initialised' % nm)
            return (self.owned(S, n['args'][0]),)
        if s is None and v in self.params:
            s = 'zero'
        self.say(False if s == 'uninit' else None if s is None else True, 'init', n,
                 'the status handed to %s is not initialised: the call does nothing if it happens to be positive' % nm if s == 'uninit' else 'the status handed to %s is set' % nm)
        # a status handed on keeps its failure: the call does nothing
        self.reached.setdefault(id(n), (n, set()))[1].add(s == 'bad')
        if s != 'bad':
            S = self.put(S, v, 'dirty')
        # copies of the former value say nothing any more
        S = frozenset(x for x in S if not (x[0] == 'c' and x[2] == v))
        for i, a in enumerate(n['args'][:-1]):
            p = peel(a)
            o = None
            if p.get('k') == 'un' and p['op'] == '&' and 'fitsfile' not in (p.get('t') or ''):
                e = peel(p['e'])
                o = e['id'] if e.get('k') == 'ref' and '[' not in (e.get('t') or '') else None
            if i in OUTPUT.get(nm, ()):
                e = peel(p['e']) if p.get('k') == 'un' and p['op'] == '&' else p
                o = e.get('id') if e.get('k') == 'ref' else None
            if o is not None:
                S = frozenset(x for x in S if not (x[0] == 't' and x[1] == o)) | {('t', o, v)}
        if nm in OPENS:
            h = self.var(n['args'][0], S)
            S = frozenset(x for x in S if not (x[0] == 'o' and x[1] == h)) | {('o', h, v)}
        return (S,)


class Own:
    """the functions that call the FITS library, with variables named apart from those of other translation units"""
    def __init__(self, F, files):
        self.funcs = {}
        for k, f in F.funcs.items():
            if f['file'] not in files or not f.get('body') or f.get('dep'):
                continue
            f = copy.deepcopy(f)
            for b in [f['body']] + [i['e'] for i in f.get('inits', ()) if i.get('e') is not None]:
                for n in walk(b):
                    if n.get('k') == 'ref' and n.get('dk') in ('var', 'parm'):
                        n['id'] = '%s#%s' % (k, n['id'])
                    for v in n.get('vars', ()) if n.get('k') == 'decl' else ():
                        v['id'] = '%s#%s' % (k, v['id'])
            for q in f['params']:
                q['id'] = '%s#%s' % (k, q['id'])
            self.funcs[k] = f


def statuses(ck, F):
    files = {f['file'] for f in F.funcs.values() if f['file'].startswith(REPO) and f.get('body') and any(isfits(n) for n in walk(f['body']))}
    n, said = 0, set()
    F, A = Own(F, files), F
    for f in sorted(F.funcs.values(), key=lambda f: (f['file'], f['l'])):
        if f['file'] not in files or not f.get('body') or f.get('dep'):
            continue
        c = Status(F, f, files)
        try:
            o = Flow(c).run(f, {frozenset()})
        except TooBig:
            ck.undecided('tested', f, 'too many paths')
            continue
        for nd, w in c.reached.values():
            c.say(False if w == {True} else True, 'cleared', nd, '%s is only called with a failure pending: it never does anything' % nd['n'] if w == {True} else '%s can be called with no failure pending' % nd['n'])
        for ok, rule, nd, msg in c.seen.values():
            if ok is True or (rule, nd.get('l'), msg) not in said:
                ck.ok(ok, rule, '%s:%s' % (f['file'], nd.get('l', f['l'])), msg)
            said.add((rule, nd.get('l'), msg))
        if not c.calls:
            continue
        n += 1
        outs = [(x, f.get('e', f['l']), 'returns') for x in o.next] + [(x, l, 'returns') for _, l, x in o.ret]
        bad = {}
        for S, l, how in outs:
            ret = {x[2] for x in S if x[1] == '$ret' and x[0] in ('a', 'c')}
            for x in S:
                if x[0] == 's' and x[2] in ('dirty', 'bad') and x[1] not in ret and x[1] not in c.params:
                    bad[(l, x[2])] = 'the function returns normally although %s' % ('a status was not tested' if x[2] == 'dirty' else 'a call failed')
        for (l, w), m in sorted(bad.items()):
            ck.ok(False, 'tested', '%s:%s' % (f['file'], l), m, key='%s:%s' % (f['n'], w))
        if not bad:
            ck.ok(True, 'tested', f, 'on all %d ways to return, every status was tested' % len(outs))
        leak = {(l, how) for S, l, how in outs + [(x, l, 'throws') for _, l, x in o.thr] for x in S if x[0] == 'o'}
        for l, how in sorted(leak):
            ck.ok(False, 'closed', '%s:%s' % (f['file'], l), 'the function %s with a file open that nothing closes' % how)
        if any(isfits(m) and m['n'] in OPENS for m in walk(f['body'])) and not leak:
            ck.ok(True, 'closed', f, 'every file opened is owned when the function is left')
    ck.ok(True if n else None, 'tested', 'SEFramework/src/lib/FITS', '%d functions call the FITS library' % n)
    # the owner closes
    F = A
    for r in F.rec(FF):
        for m in r.get('fields', []):
            if 'fitsfile' in m['t']:
                ck.ok(True if 'unique_ptr' in m['t'] or 'shared_ptr' in m['t'] else False, 'closed', '%s:%s' % (r['file'], m.get('l', r['l'])), 'the open file is held by an owning pointer: %s' % m['t'][:60])
    for g in F.methods(FF):
        for i in g.get('inits', ()):
            if i.get('n') == 'm_fits_ptr' or i.get('f') == 'm_fits_ptr' or i.get('m') == 'm_fits_ptr':
                fs = [x for x in walk(i['e']) if x.get('k') == 'ref' and x.get('dk') in ('func', 'function')]
                lam = [x for x in walk(i['e']) if x.get('k') == 'lambda']
                ds = [F.funcs.get(x.get('key')) or next((h for h in F.funcs.values() if h['n'] == x['n'] and h.get('body')), None) for x in fs] 
                bodies = [h['body'] for h in ds if h and h.get('body')] + [x.get('body') or x.get('b') for x in lam]
                ok = any(isfits(y) and y['n'] == 'ffclos' for b in bodies if b for y in walk(b))
                ck.ok(True if ok else None if not bodies else False, 'closed', g, 'the owner of the file closes it')


# ------------------------------------------------------------------ the right HDU
class Hdu(Client):
    """state: (is the file at the HDU of the image, is it opened for writing, aliases of the HDU number)"""
    def __init__(self, F, f, files):
        self.F, self.f, self.files = F, f, files
        self.seen = {}

    def say(self, ok, rule, n, msg):
        k = (rule, id(n))
        if k not in self.seen or self.seen[k][0] is True:
            self.seen[k] = (ok, rule, n, msg)

    def own(self, n, S):
        n = peel(n)
        while n is not None and n.get('k') == 'un' and n['op'] in ('&', '*'):
            n = peel(n['e'])
        if n is None:
            return False
        if n.get('k') == 'call' and n.get('n') == 'getHDU':
            return True
        return n.get('k') == 'mem' and n['n'] == 'm_hdu_number' or n.get('k') == 'ref' and n.get('id') in S[2]

    def inline(self, n, S):
        g = self.F.funcs.get(n.get('key'))
        return Status.inline(self, n, S) if g is not None and strip_targs(g.get('cls') or FIS) == FIS else None

    def event(self, n, S):
        k = n.get('k')
        if k == 'bind':
            return ((S[0], S[1], frozenset(S[2] | {i for i, a, t in n['pairs'] if self.own(a, S)})),)
        if k == 'vardecl' and n['v'].get('init') is not None and self.own(n['v']['init'], S):
            return ((S[0], S[1], S[2] | {n['v']['id']}),)
        if k == 'asg' and self.own(n['x'], S) and peel(n['x']).get('k') == 'mem':
            return ((False, S[1], frozenset()),)
        if k == 'call' and n.get('n') == 'getAccessor':
            w = any(x.get('n') == 'kWrite' for a in n['args'] for x in walk(a))
            return ((False, w, S[2]),)
        if k == 'call' and n.get('n') == 'refresh':
            return ((False, S[1], S[2]),)
        if isfits(n):
            nm = n['n']
            if nm == 'ffmahd':
                return ((self.own(n['args'][1], S), S[1], S[2]),)
            if nm == 'ffghdn':
                return ((True if self.own(n['args'][1], S) else S[0], S[1], S[2]),)
            if nm in ('ffcrim', 'ffcrtb', 'ffiimg', 'ffmrhd', 'ffmnhd', 'ffthdu'):
                S = (False, S[1], S[2])
            elif nm in READS | WRITES:
                self.say(True if S[0] else False, 'hdu', n, '%s works on the HDU of the image' % nm if S[0] else '%s works on whatever HDU the file, which images share, is positioned at' % nm)
            if nm in MODIFIES:
                self.say(True if S[1] else False, 'hdu', n, '%s works on a file opened for writing' % nm if S[1] else '%s works on a file not opened for writing' % nm)
        return (S,)


def hdus(ck, F):
    files = {f['file'] for f in F.funcs.values() if f['file'].startswith(REPO) and f.get('body') and any(isfits(n) for n in walk(f['body']))}
    n = 0
    F = Own(F, files)
    for f in F.funcs.values():
        if strip_targs(f.get('cls') or '') != FIS or f['n'] == 'switchHdu' or f.get('acc') != 'public':
            continue
        c = Hdu(F, f, files)
        Flow(c).run(f, {(False, False, frozenset())})
        for ok, rule, nd, msg in c.seen.values():
            n += 1
            ck.ok(ok, rule, '%s:%s' % (f['file'], nd.get('l', f['l'])), msg)
    ck.ok(True if n >= 4 else None, 'hdu', FIS, '%d accesses to an HDU' % n)


# ------------------------------------------------------------------ the right pixels
OPQ = [FIS + '::getDataType', FIS + '::getImageType', FIS + '::switchHdu', FIS + '::getMetadata', NS + 'ImageTile::create', NS + 'ImageTile::getDataPtr',
       NS + 'ImageTile::getPosX', NS + 'ImageTile::getPosY', NS + 'ImageTile::getWidth', NS + 'ImageTile::getHeight', FF + '::getFitsFilePtr', FF + '::getHDUHeaders', FF + '::refresh']


def cells(s, n, k):
    r = []
    for i in range(k):
        r.append(n)
    return r


def pixels(ck, F):
    for f in F.methods(FIS):
        if f['n'] not in ('getImageTile', 'saveTile') or not f.get('body'):
            continue
        want_n = {'getImageTile': 'ffgsv', 'saveTile': 'ffpss'}[f['n']]
        arr = {v['id']: v for n in walk(f['body']) if n.get('k') == 'decl' for v in n['vars'] if '[' in v.get('t', '')}
        calls = [n for n in walk(f['body']) if isfits(n) and n['n'] == want_n]
        if len(calls) != 1:
            ck.undecided('pixels', f, 'the pixels are not transferred by one call')
            continue
        c = calls[0]
        # the arrays are constants of the path: read their initialisers as the interpreter sees them
        s = summarise(F, f, opaque=OPQ)
        es = [e for e in s.effects if e.kind == 'call' and e.d['n'] == want_n]
        mk_ = [e for e in s.effects if e.kind == 'call' and e.d['n'] == 'create']
        if len(es) != 1:
            ck.undecided('pixels', f, 'the transfer was not reached once')
            continue
        e = es[0]
        if f['n'] == 'getImageTile':
            x, y, w, h = [s.params[p['n']] for p in f['params']]
        else:
            t = f['params'][0]['id']
            nm = {z.d['n']: z.d['ret'] for z in s.effects if z.kind == 'call'}
            if any(q not in nm for q in ('getPosX', 'getPosY', 'getWidth', 'getHeight')):
                ck.undecided('pixels', f, 'place and size of the tile are not read')
                continue
            x, y, w, h = nm['getPosX'], nm['getPosY'], nm['getWidth'], nm['getHeight']
        layer = s.it.hread(s.st, s.this, 'm_current_layer', 'int')
        lo = [add(x, num(1)), add(y, num(1)), add(layer, num(1))]
        hi = [add(x, w), add(y, h), add(layer, num(1))]
        for idx, wnt, what in ((2, lo, 'first'), (3, hi, 'last')):
            a = peel(c['args'][idx])
            v = arr.get(a.get('id')) if a.get('k') == 'ref' else None
            init = peel(v['init']) if v is not None and v.get('init') is not None else None
            if init is None or init.get('k') != 'init':
                ck.undecided('pixels', f, 'the %s pixel is not an array of coordinates' % what)
                continue
            need = 3 if f['n'] == 'getImageTile' else 2
            got = [s.it._t(s.it.val(s.it.ev(z, e.st if hasattr(e, 'st') else s.st), s.st), s.st) for z in init['e']]
            if len(got) < need:
                ck.ok(False, 'pixels', f, 'the %s pixel has %d coordinates' % (what, len(got)))
                continue
            for g, w_, ax in zip(got, wnt, ('column', 'row', 'layer')):
                ck.eqv('pixels', f, g, w_, what='%s of the %s pixel (FITS counts from one)' % (ax, what))
        if f['n'] == 'getImageTile':
            if len(mk_) == 1:
                for g, w_, what in zip(mk_[0].d['argt'][1:5], (x, y, w, h), ('column', 'row', 'width', 'height')):
                    ck.eqv('pixels', f, g, w_, what='%s of the tile made' % what)
            else:
                ck.undecided('pixels', f, 'the tile is not made once')


def layers(ck, F):
    for f in F.methods(FIS):
        if f['n'] == 'setLayer' and f.get('body'):
            s = summarise(F, f)
            layer, depth = s.params[f['params'][0]['n']], None
            st = [e for e in s.effects if e.kind == 'store' and 'm_current_layer' in str(e.d)]
            ck.ok(True if st else None, 'layer', f, 'the layer is set')
            depth = s.it.hread(s.st, s.this, 'm_depth', 'int')
            for e in st:
                ck.entail('layer', f, list(e.pc), ge(layer, num(0)), what='no layer before the first is selected')
                ck.entail('layer', f, list(e.pc), lt(layer, depth), what='no layer beyond the last is selected')
        if f.get('fk') == 'ctor' and f.get('body'):
            for n in walk(f['body']):
                if isfits(n) and n['n'] == 'ffgipr':
                    m, a = peel(n['args'][1]), peel(n['args'][4])
                    size = re.search(r'\[(\d+)\]', a.get('t') or '')
                    if m.get('k') != 'int' or not size:
                        ck.undecided('layer', '%s:%s' % (f['file'], n['l']), 'how many axes are asked for is not understood')
                        continue
                    size = int(size.group(1))
                    ck.ok(True if m['v'] <= size else False, 'layer', '%s:%s' % (f['file'], n['l']), '%d axes are asked for, with room for %d' % (m['v'], size))
                    ids = a.get('id')
                    rd = [peel(x['i'])['v'] for x in walk(f['body']) if x.get('k') in ('idx', 'index', 'sub') and peel(x.get('b') or x.get('x') or {}).get('id') == ids and peel(x['i']).get('k') == 'int']
                    for i in sorted(set(rd)):
                        ck.ok(True if i < m['v'] else False, 'layer', '%s:%s' % (f['file'], n['l']), 'size of axis %d is among the %d asked for' % (i + 1, m['v']))


def run(ck):
    ck.rule('init', 'a status is initialised before it is handed to the FITS library')
    ck.rule('tested', 'every status is tested before the results of the call are used and before the function returns normally')
    ck.rule('cleared', 'a failure is cleared before the status is used again')
    ck.rule('closed', 'an open file is owned by an object that closes it')
    ck.rule('hdu', 'an image reads and writes its own HDU, and writes only to files opened for writing')
    ck.rule('pixels', 'a tile is transferred from and to its pixels, counted from one, of the current layer')
    ck.rule('layer', 'only layers the cube has are selected, and the sizes of all axes used are asked for')
    F = ck.F = Facts(tus(*FILES))
    ck.section(statuses, ck, F)
    ck.section(hdus, ck, F)
    ck.section(pixels, ck, F)
    ck.section(layers, ck, F)
    return 30
