"""C14: no source is lost or duplicated between pipeline stages."""
from sx.props import *
from sx import own
from sx.own import peel, text
from sx.flow import Flow, Client, TooBig
from sx.facts import walk, REPO
from sx.interp import strip_targs, summarise
from sx.terms import *
import re

PIPE = ['SEFramework/src/lib/Pipeline/*.cpp', 'SEFramework/src/lib/Source/S*.cpp', 'SEMain/src/lib/Sorter.cpp',
        'SEImplementation/src/lib/Prefetcher/Prefetcher.cpp', 'SEImplementation/src/lib/Measurement/*.cpp',
        'SEImplementation/src/lib/Grouping/*.cpp', 'SEImplementation/src/lib/Partition/*.cpp',
        'SEImplementation/src/lib/Segmentation/*.cpp',
        'SEImplementation/src/lib/Plugin/AssocMode/AssocModePartitionStep.cpp',
        'SEImplementation/src/lib/Plugin/CoreThresholdPartition/CoreThresholdPartitionStep.cpp', 'SEImplementation/src/lib/Deblending/*.cpp']


def short(q):
    return strip_targs(q).split('::')[-1]


class Trace(Client):
    """the sequence of labelled events on every path (loops: repetitions beyond `cap` are cut)"""
    cap = 6

    def __init__(self, F, label, cls=None, into=()):
        self.F, self.label, self.cls, self.into = F, label, cls, set(into)

    def event(self, n, S):
        a = self.label(n)
        if a is None:
            return (S,)
        for x in (a if isinstance(a, list) else [a]):
            S = S + (x,) if S.count(x) < self.cap else S
        return (S,)

    def inline(self, n, S):
        return helper(self.F, n, self.cls, self.into)


def helper(F, n, cls, keep=()):
    """the body of a non-virtual member of the same class called on this"""
    o = n.get('obj')
    if cls is None or n.get('virt') or n.get('n') in keep or (o is not None and peel(o).get('k') != 'this'):
        return None
    f = F.funcs.get(n.get('key'))
    if f is None or not f.get('body') or strip_targs(f.get('cls', '') or '') != cls:
        return None
    return f['body']


def paths(F, f, label, cls=None, keep=(), body=None):
    c = Trace(F, label, cls, keep)
    fl = Flow(c)
    o = fl.run(f if body is None else {'body': body, 'params': []}, {()})
    return set(o.next) | {s for _, _, s in o.ret}


def calls(names):
    return lambda n: n.get('n') if n.get('k') == 'call' and n.get('n') in names else None


def receivers(F, name):
    for f in F.funcs.values():
        if f.get('body') and not f.get('dep') and short(f['q']) == name and f['file'].startswith(REPO):
            yield f


def cls_of(f):
    return strip_targs(f['q']).rsplit('::', 1)[0]


DROPS = ('partition',)          # may drop by their own documented rule (rule drop-rule)


def linear(ck, F):
    for f in sorted(F.funcs.values(), key=lambda f: (f['file'], f.get('l', 0))):
        if not f.get('body') or f.get('dep') or not f['file'].startswith(REPO):
            continue
        if short(f['q']) in DROPS or '/tests/' in f['file']:
            continue
        ps = [p for p in f.get('params', ()) if own.is_owner(p['t']) and not p['t'].rstrip().endswith('&')]
        if not ps and not any(own.OWNED.search(n.get('t', '') or '') for n in walk(f['body'])):
            continue
        if 'MultiThresholdPartitionStep' in f['q']:
            continue
        if short(f['q']) == 'receiveSource' and not any('PipelineEmitter' in b for b in bases(F, cls_of(f))):
            continue                            # the end of the pipeline
        caps = []
        if short(f['q']) == 'operator()':
            caps = captured(F, f)
        try:
            c, exits = own.analyse(f, owners=caps, F=F)
        except TooBig:
            ck.undecided('linear', f, 'too many paths')
            continue
        if not (c.handled or c.bad or c.unsure or ps):
            continue
        dim = own.opaque(f)
        for (l, m), n in sorted(c.bad.items(), key=lambda x: x[0][0]):
            if dim:
                ck.undecided('linear', f, 'line %d: %s (paths correlated through %s)' % (l, m, dim))
            else:
                ck.ok(False, 'linear', '%s:%d' % (f['file'], l or f.get('l', 0)), '%s: %s' % (f['q'].replace('SourceXtractor::', ''), m))
        for (l, m) in sorted(c.unsure):
            if short(f['q']) not in ('removeSource',):
                ck.undecided('linear', f, 'line %d: %s' % (l, m))
        if not c.bad:
            ck.ok(True, 'linear', f, '%d hand-overs, %d ways out: each object is passed on or kept exactly once' % (c.handled, len(exits)))


def captured(F, f):
    """the init-captured owners of a closure"""
    for g in F.funcs.values():
        if not g.get('body'):
            continue
        for n in walk(g['body']):
            if n.get('k') == 'lambda' and n.get('key') == f.get('key'):
                return [c['id'] for c in n.get('caps', ()) if c.get('init') is not None and own.is_owner(c.get('t', ''))]
    return []


def bases(F, cls):
    out, todo = set(), [cls]
    while todo:
        c = todo.pop()
        for r in F.rec(c) if F.rec(c) else ():
            for b in r.get('bases', ()):
                q = b if isinstance(b, str) else b.get('q') or b.get('t', '')
                if q not in out:
                    out.add(q)
                    todo.append(strip_targs(q))
    return out


def signals(ck, F):
    for f in receivers(F, 'receiveProcessSignal'):
        cls = cls_of(f)
        bs = bases(F, cls)
        if not any('PipelineEmitter' in b for b in bs):
            continue
        if any('SourceGroupingInterface' in b for b in bs):
            continue
        ev = f['params'][0]['id']

        def label(n):
            if n.get('k') == 'call' and n.get('n') == 'sendProcessSignal':
                a = peel(n['args'][0])
                while a.get('k') == 'ctor' and len(a.get('args', ())) == 1:
                    a = peel(a['args'][0])
                return 'forward' if a.get('k') == 'ref' and a.get('id') == ev else 'other'
            if n.get('k') == 'call' and n.get('n') in ('emplace_back', 'push_back') and n.get('obj') is not None:
                t = n['obj'].get('t', '')
                if 'ProcessSourcesEvent' in t:
                    return 'store-event'
                if 'EventType' in t:
                    return 'store-' + ('signal' if any(x.get('n') == 'PROCESS_SOURCE' for x in walk(n['args'])) else 'other')
            return None
        ts = paths(F, f, label, cls, ('sendProcessSignal',))
        good = ({('forward',)}, )
        if 'Prefetcher' in cls:
            ck.ok(all(sorted(t) == ['store-event', 'store-signal'] for t in ts), 'signal', f, 'the end-of-data signal is queued behind what was received before, once: %s' % sorted(ts))
        else:
            ck.ok(ts in good, 'signal', f, 'the end-of-data signal is passed on once on every path: %s' % sorted(ts))
    # the segmentation ends with a signal that selects everything
    for f in receivers(F, 'processFrame'):
        if not cls_of(f).endswith('Segmentation'):
            continue

        def label(n):
            if n.get('k') == 'call' and n.get('n') == 'sendProcessSignal':
                sel = [x.get('ta', '') or x.get('t', '') for x in walk(n) if x.get('n') == 'make_shared' or x.get('k') in ('ctor', 'new')]
                return 'flush' if any('SelectAllCriteria' in t for t in sel) else 'signal'
            return 'label' if n.get('k') == 'call' and n.get('n') == 'labelImage' else None
        ts = paths(F, f, label, cls_of(f))
        ck.ok(bool(ts) and all(t in ((('flush'),), ('label', 'flush')) for t in ts) and ('label', 'flush') in ts, 'signal', f, 'the frame is labelled and everything is flushed afterwards: %s' % sorted(ts))
    for f in receivers(F, 'mustBeProcessed'):
        if 'SelectAllCriteria' in f['q']:
            s = summarise(F, f)
            ck.eqv('signal', f, s.ret, TRUE, what='everything is selected')


def emitter(ck, F):
    fs = [f for f in receivers(F, 'sendSource') if 'PipelineEmitter' in f['q']]
    for f in fs:
        def label(n):
            if n.get('k') == 'call' and n.get('n') in ('notifyObservers', 'receiveSource'):
                return n['n']
        ts = paths(F, f, label, cls_of(f), ('notifyObservers',))
        ck.ok(ts <= {('notifyObservers',), ('notifyObservers', 'receiveSource')} and ('notifyObservers', 'receiveSource') in ts,
              'observers-first', f, 'observers are told before the object is handed over: %s' % sorted(ts))
        nxt = [n for n in walk(f['body']) if n.get('k') == 'if']
    for f in [f for f in receivers(F, 'sendProcessSignal') if 'PipelineEmitter' in f['q']]:
        p = f['params'][0]['id']

        def label(n):
            if n.get('k') == 'call' and n.get('n') == 'receiveProcessSignal':
                a = peel(n['args'][0])
                return 'pass' if a.get('id') == p else 'other'
        ts = paths(F, f, label)
        ck.ok(ts <= {(), ('pass',)} and ('pass',) in ts, 'signal', f, 'the signal reaches the next stage')
    for f in [f for f in receivers(F, 'notifyObservers') if 'Observable' in f['q']]:
        each(ck, F, f, 'handleMessage', 'm_observers', f['params'][0]['id'], 'observers-first', 'every observer is told once')
    for f in receivers(F, 'addObserver'):
        if 'Observable' in f['q']:
            ts = paths(F, f, calls({'push_back', 'emplace_back', 'push_front', 'emplace_front', 'insert', 'clear', 'erase', 'pop_back', 'pop_front'}))
            ck.ok(ts <= {('push_back',), ('emplace_back',)} and ts, 'observers-first', f, 'an observer is added, none is removed')


class Once(Client):
    """how often the call happens in one pass of the loop over `rng`"""

    def __init__(self, F, call, rng, arg, cls):
        self.F, self.call, self.rng, self.arg, self.cls = F, call, rng, arg, cls
        self.bad = []
        self.var = None
        self.loops = 0

    def iterate(self, n, S):
        if self.is_rng(n['range']):
            self.loops += 1
            self.seen(n, S)
            self.var = n['var']['id']
            return (('in', 0, S[2]),)
        return (S,)

    def is_rng(self, r):
        return any(x.get('n') == self.rng or x.get('id') == self.rng for x in walk(r) if x.get('k') in ('ref', 'mem'))

    def seen(self, n, S):
        if S[0] == 'in' and S[1] != 1:
            self.bad.append((n.get('l', 0), S[1]))

    def done(self, n, S):
        if self.is_rng(n['range']):
            self.seen(n, S)
            return (('out', 0, S[2] + 1),)
        return (S,)

    def event(self, n, S):
        if n.get('k') == 'call' and n.get('n') == self.call:
            ids = {x.get('id') for x in walk(n) if x.get('k') == 'ref'}
            if self.var in ids and (self.arg is None or self.arg in ids):
                return ((S[0], min(S[1] + 1, 3), S[2]),)
            self.bad.append((n.get('l', 0), 'with something else'))
        return (S,)


def each(ck, F, f, call, rng, arg, rule, what):
    c = Once(F, call, rng, arg, None)
    o = Flow(c).run(f, {('out', 0, 0)})
    ends = set(o.next) | {s for _, _, s in o.ret}
    if not c.loops:
        # an index or iterator loop, or an algorithm
        s = summarise(F, f)
        es = [e for e in s.effects if e.kind == 'call' and short(str(e.d.get('q', e.d.get('n', '')))) == call]
        if len(es) != 1 or len(es[0].loops) != 1 or es[0].pc not in (TRUE,):
            ck.undecided(rule, f, what)
        else:
            ck.ok(True, rule, f, what)
        return
    ck.ok(not c.bad and all(s[0] == 'out' and s[2] == 1 for s in ends), rule, f, what + ('' if not c.bad else ': %s' % c.bad[:2]))


def sink(ck, F):
    for f in receivers(F, 'receiveSource'):
        if not any('PipelineReceiver' in b for b in bases(F, cls_of(f))) or any('PipelineEmitter' in b for b in bases(F, cls_of(f))):
            continue
        each(ck, F, f, 'outputSource', f['params'][0]['id'], None, 'sink', 'every member of a group reaches the output exactly once')


# --------------------------------------------------------------------------- prefetcher
class Release(Client):
    """the loop that releases what was received, in the order it was received.
    state: (kind of the front entry, its source is finished, what was done with it, boolean locals)"""

    FULL = {'ev': frozenset(('signal', 'pop-event', 'pop')), 'src': frozenset(('send', 'erase', 'pop', 'release'))}

    def __init__(self, F, f, cls):
        self.F, self.f, self.cls = F, f, cls
        self.bad = {}
        self.seen = set()
        self.ev = {}
        self.inits = {}
        for n in walk(f['body']):
            if n.get('k') == 'decl':
                for v in n['vars']:
                    if v.get('init') is not None:
                        self.inits[v['id']] = v['init']

    def err(self, n, m):
        self.bad.setdefault((n.get('l', 0), m), n)

    def member(self, n):
        n = peel(n) if n is not None else {}
        return n.get('n') if n.get('k') == 'mem' else None

    def through(self, n):
        n = peel(n)
        for _ in range(6):
            if n.get('k') == 'ref' and n.get('id') in self.inits:
                n = peel(self.inits[n['id']])
            elif n.get('k') == 'ctor' and len(n.get('args', ())) == 1:
                n = peel(n['args'][0])
            else:
                break
        return n

    def balanced(self, n, S):
        k, fin, ops = S
        if ops and ops != self.FULL.get(k):
            self.err(n, 'an entry is left half released: %s' % ', '.join(sorted(ops)))
        return ('?', '?', frozenset())

    def op(self, n, S, what):
        k, fin, ops = S
        self.seen.add(what)
        if what in ops:
            self.err(n, '%s twice' % what)
        if k in self.FULL and what not in self.FULL[k]:
            self.err(n, '%s for a %s' % (what, 'signal' if k == 'ev' else 'source'))
        if k == '?':
            self.err(n, '%s before knowing what the front entry is' % what)
        if what in ('send', 'erase') and fin is not True:
            self.err(n, '%s of a source not known to be finished' % what)
        if what == 'pop' and not ops & {'signal', 'send'}:
            self.err(n, 'the front entry is dropped before it was released')
        if what == 'erase' and 'send' not in ops:
            self.err(n, 'the finished source is dropped before it was sent')
        return (k, fin, ops | {what})

    def event(self, n, S):
        if n.get('k') != 'call':
            return (S,)
        nm, o, args = n.get('n'), n.get('obj'), n.get('args', [])
        m = self.member(o)
        if m == 'm_received':
            if nm in ('empty', 'size'):
                return (self.balanced(n, S),)
            if nm == 'pop_front':
                return (self.op(n, S, 'pop'),)
            if nm in ('pop_back', 'clear', 'erase', 'push_back', 'emplace_back', 'push_front', 'back'):
                self.err(n, 'the received queue is changed out of order: ' + nm)
        if m == 'm_event_queue' and nm in ('pop_front', 'pop_back', 'clear', 'erase'):
            if nm != 'pop_front':
                self.err(n, 'the signal queue is changed out of order')
            return (self.op(n, S, 'pop-event'),)
        if m == 'm_finished_sources' and nm == 'erase':
            return (self.op(n, S, 'erase'),)
        if m == 'm_semaphore' and nm == 'release':
            return (self.op(n, S, 'release'),)
        if nm == 'sendSource':
            return (self.op(n, S, 'send'),)
        if nm == 'sendProcessSignal':
            a = self.through(args[0])
            if not (a.get('k') == 'call' and a.get('n') == 'front' and self.member(a.get('obj')) == 'm_event_queue') and a.get('k') != 'ref':
                self.err(n, 'another signal than the first queued one is sent')
            if 'pop-event' in S[2] and not self.copied(args[0]):
                self.err(n, 'the signal is dropped before it was sent')
            return (self.op(n, S, 'signal'),)
        return (S,)

    def copied(self, a):
        a = peel(a)
        return a.get('k') == 'ref' and a.get('id') in self.inits and not a.get('t', '').rstrip().endswith('&')

    def inline(self, n, S):
        return helper(self.F, n, self.cls, ('sendSource', 'sendProcessSignal'))

    def branch(self, c, truth, S):
        c = peel(c)
        k, fin, ops = S
        if c.get('k') == 'ref' and c.get('id') in self.inits:
            i = peel(self.inits[c['id']])
            if i.get('k') in ('bin', 'call'):
                c = i
        op, x, y = None, None, None
        if c.get('k') == 'un' and c.get('op') == '!':
            return self.branch(c['e'], not truth, S)
        if c.get('k') == 'bin' and c['op'] in ('==', '!='):
            op, x, y = c['op'], peel(c['x']), peel(c['y'])
        elif c.get('k') == 'call' and c.get('n') in ('operator==', 'operator!='):
            aa = [peel(a) for a in ([c['obj']] if c.get('obj') is not None else []) + c.get('args', [])]
            if len(aa) == 2:
                op, (x, y) = c['n'][8:], aa
        if op:
            for a, b in ((x, y), (y, x)):
                if a.get('k') == 'mem' and a['n'] == 'm_event_type' and b.get('dk') == 'enumc':
                    is_ev = (b['n'] == 'PROCESS_SOURCE') == ((op == '==') == truth)
                    want = 'ev' if is_ev else 'src'
                    if k not in ('?', want):
                        return ()
                    return ((want, fin, ops),)
                if b.get('k') == 'call' and b.get('n') in ('end', 'cend') and self.member(b.get('obj')) == 'm_finished_sources':
                    found = not ((op == '==') == truth)
                    if fin not in ('?', found):
                        return ()
                    return ((k, found, ops),)
        if c.get('k') == 'call' and c.get('n') in ('count', 'contains') and self.member(c.get('obj')) == 'm_finished_sources':
            if fin not in ('?', truth):
                return ()
            return ((k, truth, ops),)
        return (S,)


def prefetch(ck, F):
    for f in receivers(F, 'outputLoop'):
        cls = cls_of(f)
        c = Release(F, f, cls)
        o = Flow(c).run(f, {('?', '?', frozenset())})
        for s in set(o.next) | {s for _, _, s in o.ret}:
            c.balanced({'l': f.get('l', 0)}, s)
        missing = {'signal', 'pop-event', 'pop', 'send', 'erase', 'release'} - c.seen
        ck.ok(not c.bad and not missing, 'prefetch-order', f,
              'the front entry is released, removed and paid back exactly once, and nothing behind an unfinished source' if not c.bad and not missing
              else '; '.join('line %d: %s' % k for k in sorted(c.bad)) + (' never: %s' % sorted(missing) if missing else ''))
        # the key a source is looked up with
        keys = [n for n in walk(f['body']) if n.get('k') == 'call' and n.get('n') in ('find', 'at', 'operator[]', 'count') and c.member(n.get('obj')) == 'm_finished_sources']
        for n in keys:
            a = peel(n['args'][0])
            if a.get('k') == 'ref':
                a = c.through(a)
            src = c.through(a.get('b')) if a.get('k') == 'mem' else {}
            ck.ok(a.get('k') == 'mem' and a['n'] == 'm_source_addr' and src.get('k') == 'call' and src.get('n') == 'front' and c.member(src.get('obj')) == 'm_received',
                  'prefetch-order', f, 'the source looked for is the one at the front')
    for f in receivers(F, 'receiveSource'):
        if not cls_of(f).endswith('Prefetcher'):
            continue
        inits = {}
        for n in walk(f['body']):
            if n.get('k') == 'decl':
                for v in n['vars']:
                    if v.get('init') is not None:
                        inits[v['id']] = v['init']
            if n.get('k') == 'lambda':
                for cc in n.get('caps', ()):
                    if cc.get('init') is not None:
                        inits[cc['id']] = cc['init']

        def root(n):
            """the variable whose object's address this is"""
            for _ in range(12):
                n = peel(n)
                if n.get('k') == 'ref' and n.get('id') in inits:
                    n = inits[n['id']]
                elif n.get('k') == 'ctor' and len(n.get('args', ())) == 1:
                    n = n['args'][0]
                elif n.get('k') == 'call' and n.get('n') in ('get', 'move', 'operator->', 'operator*'):
                    n = n['obj'] if n.get('obj') is not None else n['args'][0]
                elif n.get('k') == 'un' and n.get('op') in ('&', '*'):
                    n = n['e']
                else:
                    break
            return n.get('id') if n.get('k') == 'ref' else None
        p = f['params'][0]['id']
        noted, stored = [], []
        for n in walk(f['body']):
            if n.get('k') == 'call' and n.get('n') in ('emplace_back', 'push_back') and peel(n['obj']).get('n') == 'm_received':
                noted.append(n)
            if n.get('k') == 'call' and n.get('n') in ('emplace', 'insert', 'try_emplace', 'emplace_hint', 'operator[]') and peel(n.get('obj') or {}).get('n') == 'm_finished_sources':
                stored.append(n)

        def label(n):
            if n in noted:
                return 'noted'
            if n.get('k') == 'call' and n.get('n') in ('submit', 'acquire'):
                return n['n']
        ts = paths(F, f, label)
        ck.ok(ts == {('acquire', 'noted', 'submit')}, 'prefetch-order', f, 'a received source waits for room, is noted in order and handed to the workers once: %s' % sorted(ts))
        for n, what in [(n, 'noted') for n in noted] + [(n, 'stored') for n in stored]:
            roots = [root(n['args'][-1] if what == 'noted' else n['args'][0])]
            if n in noted and len(n['args']) == 1:
                roots = [root(x) for a in n['args'] for x in walk(a) if x.get('k') == 'ref' and x.get('dk') in ('var', 'parm')]
                kinds = [x['n'] for x in walk(n['args']) if x.get('dk') == 'enumc']
            else:
                kinds = [x['n'] for x in walk(n['args']) if x.get('dk') == 'enumc']
            ck.ok(p in roots and (what == 'stored' or kinds == ['SOURCE']), 'prefetch-order', f, 'a source is %s under its own address' % what)
        for g in F.funcs.values():
            if g.get('body') and 'Prefetcher::receiveSource' in g['q'] and short(g['q']) == 'operator()' and any(n in stored for n in walk(g['body'])):
                pass


# --------------------------------------------------------------------------- shared source records
class PerIteration(Client):
    """the sequences of labelled events of each iteration of the loop that contains them"""

    def __init__(self, F, label, cls, keep):
        self.F, self.label, self.cls, self.keep = F, label, cls, keep
        self.seqs = {}
        self.vars = []

    def iterate(self, n, S):
        self.flush(n, S)
        return ((n['l'] if isinstance(n.get('l'), int) else 0, n['var']['id'], ()),)

    def done(self, n, S):
        self.flush(n, S)
        return ((0, None, ()),)

    def flush(self, n, S):
        if S[2]:
            self.seqs.setdefault(S[1], set()).add(S[2])

    def event(self, n, S):
        a = self.label(n, S[1])
        return ((S[0], S[1], (S[2] + (a,))[:8]),) if a else (S,)

    def inline(self, n, S):
        return helper(self.F, n, self.cls, self.keep)


def moffat(ck, F):
    for f in receivers(F, 'receiveSource'):
        cls = cls_of(f)
        if not cls.endswith('MoffatGrouping'):
            continue

        loose = []
        info = next((v['id'] for n in walk(f['body']) if n.get('k') == 'decl' for v in n['vars'] if 'SourceInfo' in v.get('t', '') and 'make_shared' in [x.get('n') for x in walk(v.get('init') or {})]), None)

        def label(n, v):
            if n.get('k') == 'asg' and peel(n['x']).get('n') == 'm_group_id':
                if v is None and not any(x.get('id') == info for x in walk(n['x'])):
                    loose.append(n)
                    return None
                return 'mark'
            if n.get('k') != 'call':
                return None
            nm, o = n.get('n'), n.get('obj')
            ids = {x.get('id') for x in walk(n) if x.get('k') == 'ref'}
            m = peel(o).get('n') if o is not None and peel(o).get('k') == 'mem' else None
            if nm == 'processGroup':
                return 'process' if v in ids else 'process-other'
            if m == 'm_groups' and nm == 'erase':
                return 'erase' if v in ids else 'erase-other'
            if m == 'm_groups' and nm in ('clear', 'extract', 'swap'):
                return 'erase-other'
            if m == 'm_tree' and nm in ('add', 'remove'):
                return nm
            if nm == 'operator=' and o is not None and peel(o).get('n') in ('operator[]', 'at') and peel(peel(o).get('obj') or {}).get('n') == 'm_groups':
                return 'register'
            if nm in ('emplace', 'insert', 'insert_or_assign') and m == 'm_groups':
                return 'register'
            if nm in ('insert', 'splice', 'merge') and 'SourceInfo' in (o or {}).get('t', ''):
                rng = [peel(x) for x in walk(n['args']) if x.get('k') == 'call' and x.get('n') in ('begin', 'end', 'cbegin', 'cend')]
                if any(x.get('k') == 'call' and x.get('n') in ('next', 'prev', 'operator+', 'operator-') for x in walk(n['args'])):
                    return 'merge-short'
                src = [x for x in rng if any(y.get('n') == 'm_groups' for y in walk(x))]
                names = sorted(x['n'].lstrip('c') for x in src)
                return 'merge' if v in ids and names == ['begin', 'end'] else 'merge-part'
            if nm in ('push_back', 'emplace_back') and 'SourceInfo' in (o or {}).get('t', ''):
                return 'self' if v is None else 'copy'
            return None
        c = PerIteration(F, label, cls, ('processGroup',))
        c.F = F
        o = Flow(c).run(f, {(0, None, ())})
        tail = {s[2] for s in set(o.next) | {s for _, _, s in o.ret}}
        head = c.seqs.pop(None, set())
        sets = list(c.seqs.values())
        if any('copy' in q or 'merge-part' in q for ss in sets for q in ss):
            ck.undecided('groups', f, 'how groups are merged: %s' % sets)
            continue
        loops = [ss for ss in sets if any(q != ('mark',) for q in ss)]
        marks = [ss for ss in sets if all(q == ('mark',) for q in ss)]
        ck.ok(loops == [{('process',), ('merge', 'erase')}], 'groups', f, 'a matching group is either processed or merged whole and removed: %s' % [sorted(x) for x in loops])
        ck.ok(True if len(marks) == 1 else (None if loose else False), 'groups', f, 'every member is told the group it is in')
        allseq = [h for h in head] + [t for t in tail]
        flat = [x for h in allseq for x in h]
        ck.ok(all(h.count('self') <= 1 and h.count('register') <= 1 and h.count('add') <= 1 for h in allseq) and 'self' in flat and 'register' in flat and all(t.count('add') == 1 for t in tail) and not any('other' in x for x in flat),
              'groups', f, 'the new source is put in its group once, the group is stored and the source is indexed once: %s / %s' % (sorted(head), sorted(tail)))
    for f in receivers(F, 'processGroup'):
        if not cls_of(f).endswith('MoffatGrouping'):
            continue

        def label(n, v):
            if n.get('k') != 'call':
                return None
            o = n.get('obj')
            m = peel(o).get('n') if o is not None and peel(o).get('k') == 'mem' else None
            if n.get('n') == 'addSource':
                return 'add' if v in {x.get('id') for x in walk(n) if x.get('k') == 'ref'} else 'other'
            if m == 'm_tree' and n['n'] == 'remove':
                return 'unindex' if v in {x.get('id') for x in walk(n) if x.get('k') == 'ref'} else 'other'
            if m == 'm_groups' and n['n'] == 'erase':
                return 'erase'
            if n.get('n') == 'sendSource':
                return 'send'
        c = PerIteration(F, label, cls_of(f), ())
        o = Flow(c).run(f, {(0, None, ())})
        tail = {s[2] for s in set(o.next) | {s for _, _, s in o.ret}}
        c.seqs.pop(None, None)
        ck.ok([{tuple(sorted(q)) for q in ss} for ss in c.seqs.values()] == [{('add', 'unindex')}], 'groups', f, 'every member is taken along and leaves the index once: %s' % list(c.seqs.values()))
        ck.ok(tail == {('send', 'erase')}, 'groups', f, 'the group is sent and removed once: %s' % sorted(tail))


# --------------------------------------------------------------------------- documented drops
def partitions(ck, F):
    from sx.util import pure
    for f in receivers(F, 'partition'):
        cls = cls_of(f).split('::')[-1]
        if cls in ('MultiThresholdPartitionStep',) or not any('PartitionStep' in b for b in bases(F, cls_of(f))):
            continue
        c, exits = own.analyse(f, F=F)
        p = f['params'][0]
        ends = {}
        for s in exits:
            ends.setdefault(c.get(s, ('v', p['id'])), 0)
            ends[c.get(s, ('v', p['id']))] += 1
        other = {k: n for k, n in c.bad.items() if k[1] != '%s is dropped with the object it owns' % p['n']}
        for (l, m) in sorted(other):
            ck.ok(False, 'linear', '%s:%d' % (f['file'], l), '%s: %s' % (f['q'], m))
        ck.ok(not other, 'linear', f, 'no object but the rejected input is dropped') if not other else None
        WANT.get(cls, lambda *a: None)(ck, F, f)


def kept(F, f, handlers=None):
    """the condition under which the received source is among the results, as pushed into the returned vector"""
    src = sym('source', 'o')
    s = summarise(F, f, args={0: src}, handlers=handlers or {})
    cond, n = FALSE, 0
    for e in s.effects:
        if e.kind == 'push' and e.d.get('val') is src:
            if e.loops:
                return s, None
            cond = bor(cond, band(*e.pc))
            n += 1
    return s, cond if n else None


def named(c, name, arg=None):
    """the applications of `name` in the term"""
    if c is None:
        return []
    return [x for x in subterms(c) if x.op == 'app' and x.a[0] == name and (arg is None or arg in x.a)]


def minarea(ck, F, f):
    s, c = kept(F, f)
    n = named(c, 'size')
    t = named(c, 'fld', 'm_min_pixel_count')
    if len(n) != 1 or not t or 'm_coordinate_list' not in str(n[0]):
        ck.undecided('drop-rule', f, 'the condition under which the source is kept')
        return
    ck.eqv('drop-rule', f, c, ge(n[0], t[0]), exact=s.it.exact, what='kept exactly when it has at least the minimum number of pixels')


def assocstep(ck, F, f):
    s, c = kept(F, f)
    m = named(c, 'fld', 'm_has_assoc')
    r = named(c, 'fld', 'm_match_required')
    if not m or not r:
        ck.undecided('drop-rule', f, 'the condition under which the source is kept')
        return
    ck.eqv('drop-rule', f, c, bor(band(m[0], r[0]), band(bnot(m[0]), bnot(r[0]))), exact=s.it.exact, what='kept exactly when it matches as required')


def core(ck, F, f):
    from sx.util import pure
    s, c = kept(F, f, pure('getValue', 'getLockedImage'))
    if c is None:
        ck.undecided('drop-rule', f, 'the condition under which the source is kept')
        return
    t = named(c, 'fld', 'm_min_pixel_count')
    sums = named(c, 'SUM')
    if len(sums) != 1 or not t:
        ck.undecided('drop-rule', f, 'the condition under which the source is kept: %s' % str(c)[:200])
        return
    ck.eqv('drop-rule', f, c, ge(sums[0], t[0]), exact=s.it.exact, what='kept exactly when enough pixels reach the level')
    body = sums[0].a[1]
    v = [x for x in subterms(body) if x.op == 'app' and str(x.a[0]).startswith('call:') and 'getValue' in x.a[0]]
    l = named(body, 'fld', 'm_snr_level')
    if len(v) != 1 or not l:
        ck.undecided('drop-rule', f, 'which pixels count: %s' % str(body)[:200])
        return
    ck.eqv('drop-rule', f, body, ite(ge(v[0], l[0]), num(1), num(0)), exact=s.it.exact, what='a pixel counts when it reaches the level')
    xs = [x for x in v[0].a if isinstance(x, T)][1:]
    ck.ok(len(xs) == 2 and xs[0].a[:2] == ('fld', 'm_x') and xs[1].a[:2] == ('fld', 'm_y') and xs[0].a[2] is xs[1].a[2] and 'm_coordinate_list' in str(xs[0]) if len(xs) == 2 else None,
          'drop-rule', f, 'the pixels of the source are counted')


def attract(ck, F, f):
    from sx.util import pure
    s, c = kept(F, f, pure('attractPixels', 'mergeAttractors'))
    n = named(c, 'size')
    if len(n) != 1:
        ck.undecided('drop-rule', f, 'the condition under which the source is kept: %s' % str(c)[:300])
        return
    ck.eqv('drop-rule', f, c, eq(n[0], num(1)), exact=s.it.exact, what='kept exactly when there is a single attractor')


WANT = {'MinAreaPartitionStep': minarea, 'CoreThresholdPartitionStep': core, 'AssocModePartitionStep': assocstep, 'AttractorsPartitionStep': attract}


# --------------------------------------------------------------------------- group selection
def groupings(ck, F):
    """a group is released exactly when one of its members is selected"""
    for f in receivers(F, 'receiveProcessSignal'):
        cls = cls_of(f)
        if not any('SourceGroupingInterface' in b for b in bases(F, cls)):
            continue
        c = Select(F, f)
        o = Flow(c).run(f, {(('hit', None), ('l', 0), ('g', None))})
        if not c.tests or not c.lists:
            ck.undecided('selection', f, 'how groups are selected')
            continue
        ck.ok(not c.bad, 'selection', f, 'a group is released exactly when one of its sources is selected' if not c.bad else '; '.join('line %d: %s' % k for k in sorted(c.bad)))


class Select(Client):
    """state: hit (a member of the current group was selected), l (times listed)"""

    def __init__(self, F, f):
        self.F, self.f = F, f
        self.bad, self.tests, self.lists = {}, 0, 0
        self.outer = None
        self.flags = {}
        # the loop that walks over the stored groups is the one whose body tests members
        loops = [n for n in walk(f['body']) if n.get('k') in ('rfor', 'for', 'while') and any(x.get('n') == 'mustBeProcessed' for x in walk(n))]
        self.loops = loops
        self.outer = loops[0] if loops else None
        self.inner = loops[1] if len(loops) == 2 and loops[1].get('k') == 'rfor' else None

    def err(self, n, m):
        self.bad.setdefault((n.get('l', 0), m), n)

    def at(self, S, k):
        return dict(S).get(k)

    def put(self, S, **kw):
        d = dict(S)
        d.update(kw)
        return tuple(d.items())

    def end(self, n, S):
        d = dict(S)
        if d['g']:
            if d['hit'] and d['l'] != 1:
                self.err(n, 'a selected group is not released' if not d['l'] else 'a group is released twice')
            if not d['hit'] and d['l']:
                self.err(n, 'a group without selected member is released')
            if self.inner and not d['hit'] and not d.get('all'):
                self.err(n, 'a group is passed over before all of its sources were looked at')
        return self.put(S, hit=None, l=0, g=None, all=None)

    def iterate(self, n, S):
        if n is self.outer:
            return (self.put(self.end(n, S), g=True),)
        return (S,)

    def done(self, n, S):
        if self.inner is n:
            return (self.put(S, all=True),)
        return (self.end(n, S),) if n is self.outer else (S,)

    def event(self, n, S):
        k = n.get('k')
        if k == 'call' and self.outer is not None and n.get('n') in ('begin', 'end', 'operator++', 'operator!=', 'operator==') and self.outer.get('k') != 'rfor':
            o = peel(n.get('obj') or {})
            if n['n'] == 'operator++' and o.get('k') == 'ref' and any(x is n for x in walk(self.outer.get('inc') or {})):
                return (self.put(self.end(n, S)),)
        if k == 'call' and n.get('n') == 'mustBeProcessed':
            self.tests += 1
            return (self.put(S, g=True),)
        if k == 'call' and n.get('n') in ('push_back', 'emplace_back', 'insert', 'emplace'):
            self.lists += 1
            return (self.put(S, l=min(dict(S)['l'] + 1, 2), g=True),)
        if k == 'asg' and peel(n['x']).get('k') == 'ref' and peel(n['x']).get('t') == 'bool' and peel(n['y']).get('k') == 'bool':
            return (self.put(S, **{'b%s' % peel(n['x'])['id']: peel(n['y'])['v']}),)
        if k == 'vardecl' and n['v'].get('t') == 'bool' and n['v'].get('init') is not None and peel(n['v']['init']).get('k') == 'bool':
            return (self.put(S, **{'b%s' % n['v']['id']: peel(n['v']['init'])['v']}),)
        return (S,)

    def branch(self, c, truth, S):
        c = peel(c)
        if c.get('k') == 'call' and c.get('n') == 'mustBeProcessed':
            return (self.put(S, hit=True, g=True),) if truth else (S,)
        if c.get('k') == 'ref' and 'b%s' % c.get('id') in dict(S):
            return (S,) if dict(S)['b%s' % c['id']] == truth else ()
        return (S,)


def run(ck):
    ck.rule('linear', 'every owned source or group is handed over, kept or returned exactly once on every path')
    ck.rule('signal', 'the end-of-data signal is passed on exactly once, after what was received before it')
    ck.rule('observers-first', 'observers see an object before it is handed over, each once')
    ck.rule('sink', 'the output receives every member of a group exactly once')
    ck.rule('prefetch-order', 'the prefetcher releases what it received in order, each entry once')
    ck.rule('selection', 'on a signal a grouping releases exactly the groups with a selected member')
    ck.rule('groups', 'groups whose members are shared records are merged whole or processed, and indexed exactly while stored')
    ck.rule('drop-rule', 'a partition step drops a source only by its documented rule')
    F = ck.F = Facts(tus(*PIPE))
    ck.section(linear, ck, F)
    ck.section(signals, ck, F)
    ck.section(emitter, ck, F)
    ck.section(sink, ck, F)
    ck.section(prefetch, ck, F)
    ck.section(groupings, ck, F)
    ck.section(moffat, ck, F)
    ck.section(partitions, ck, F)
    return 30
