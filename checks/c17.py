"""C17: worker, prefetch and output threads share data only under their locks."""
from sx.props import *
from sx import locks
from sx.own import peel
from sx.flow import Flow, Client, TooBig
from sx.facts import walk, REPO
from sx.interp import strip_targs
import re

CORE = ['SEImplementation/src/lib/Prefetcher/Prefetcher.cpp', 'SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp',
        'SEImplementation/src/lib/CheckImages/*.cpp', 'SEFramework/src/lib/Psf/VariablePsfStack.cpp',
        'SEFramework/src/lib/Task/TaskProvider.cpp', 'SEMain/src/lib/ProgressMediator.cpp', 'SEMain/src/lib/ProgressNCurses.cpp',
        'SEFramework/src/lib/CoordinateSystem/WCS.cpp', 'SEFramework/src/lib/FFT/FFT.cpp', 'SEFramework/src/lib/Image/TileManager.cpp']
USERS = ['SEImplementation/src/lib/Plugin/SourcePsf/SourcePsfTask.cpp', 'SEImplementation/src/lib/Plugin/Psf/PsfTask.cpp',
         'SEImplementation/src/lib/Plugin/AperturePhotometry/*.cpp', 'SEImplementation/src/lib/Plugin/AutoPhotometry/*.cpp',
         'SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFitting*Task.cpp', 'SEImplementation/src/lib/Plugin/MoffatModelFitting/*.cpp',
         'SEImplementation/src/lib/Plugin/ExternalFlag/*.cpp', 'SEImplementation/src/lib/Plugin/DetectionFrameSourceStamp/*.cpp']
NS = 'SourceXtractor::'
PF, MM, CI, TP, VP = NS + 'Prefetcher', NS + 'MultithreadedMeasurement', NS + 'CheckImages', NS + 'TaskProvider', NS + 'VariablePsfStack'

# the state several threads touch while sources flow; functions that only run before or after that are listed with it
SHARED = [(PF, ('m_received', 'm_event_queue', 'm_finished_sources'), ()),
          (MM, ('m_output_queue',), ()),
          (CI, ('m_measurement_aperture_images', 'm_measurement_auto_aperture_images', 'm_check_image_model_fitting', 'm_check_image_psf',
                'm_check_image_fitting_window', 'm_check_image_ml_detection'), ('configure', 'reportConfigDependencies')),
          (TP, ('m_tasks',), ('registerTask',)),
          (NS + 'ProgressMediator', ('m_segmentation_progress',), ()),
          (NS + 'ProgressMediator::ProgressCounter', ('m_segmentation_progress',), ()),
          (NS + 'ProgressNCurses::Dashboard', ('m_progress_info',), ())]
# reference -> what it is bound to at construction
BOUND = {NS + 'ProgressMediator::ProgressCounter::m_mutex': NS + 'ProgressMediator::m_mutex'}
SYNC = re.compile(r'\b(atomic|atomic_\w+|condition_variable\w*|Semaphore|shared_mutex|recursive_mutex|mutex|sem_t|thread)\b')
BLOCKING = {'join': 'joining a thread', 'block': 'waiting for the worker threads', 'acquire': 'waiting for a slot', 'sleep_for': 'sleeping',
            'sleep_until': 'sleeping', 'sem_wait': 'waiting on a semaphore', 'synchronize': 'waiting for a stage', 'synchronizeThreads': 'waiting for a stage',
            'stopThreads': 'waiting for a stage', 'try_acquire_for': 'waiting for a slot'}


def held(S):
    return sorted({m for _, m, mo in S if not mo.startswith('-')}, key=str)


def show(ms):
    return ', '.join(str(m[-1]).split('::')[-1] for m in ms) or 'nothing'


def where(a, f=None):
    f = f or a.f
    return '%s:%s (%s)' % (f['file'].replace(REPO + '/', ''), a.n.get('l') if hasattr(a, 'n') else a.get('l'), strip_targs(f['q']))


def inrepo(F):
    return [f for f in F.funcs.values() if f['file'].startswith(REPO) and f.get('body') and not f.get('dep')]


def outermost(f):
    return strip_targs(f['q'])


# ------------------------------------------------------------------ shared state under its lock
def shared(ck, F, A):
    by = A.by_var()
    for cls, fields, setup in SHARED:
        for fd in fields:
            v = ('f', cls + '::' + fd)
            accs = [a for a in by.get(v, []) if a.ctx != 'iterator' and a.f.get('fk') not in ('ctor', 'dtor') and a.f['n'] not in setup]
            # the body of a closure is also extracted on its own, without the context that created it
            accs = [a for a in accs if not a.f['q'].endswith('operator()') or 'lambda' not in a.f['q'] + str(a.f.get('cls'))]
            if not accs:
                ck.ok(None, 'guarded', cls.split('::')[-1], 'no access to %s found: the shared state has moved' % fd)
                continue
            com = locks.common(accs)
            if com:
                for a in accs:
                    ck.ok(True, 'guarded', where(a), '%s of %s under %s' % ('write' if a.w else 'read', fd, show(com)))
                continue
            # name the access that misses the lock most others hold
            cnt = {}
            for a in accs:
                for m in held(a.held):
                    cnt[m] = cnt.get(m, 0) + 1
            best = max(cnt, key=lambda m: cnt[m]) if cnt else None
            for a in accs:
                hs = {m: mo for _, m, mo in sorted(a.held, key=str) if not mo.startswith('-')}
                good = best in hs and (not a.w or any(m == best and mo == 'x' for _, m, mo in a.held))
                ck.ok(good, 'guarded', where(a), '%s of %s holding %s%s' % ('write' if a.w else 'read', fd, show(held(a.held)), '' if good or best is None else ': the other accesses hold %s' % show([best])))


def calls_under(ck, F, A):
    """library calls that are only safe one at a time"""
    n = 0
    for c, S, f in A.calls:
        q = strip_targs(f['q'])
        # CCfits reads through one shared handle
        if q == VP + '::getPsf' and c.get('n') == 'read':
            n += 1
            ck.ok(any(m == ('f', VP + '::m_mutex') for m in held(S)), 'guarded', where(c, f), 'the shared FITS handle is read holding %s' % show(held(S)))
        if c.get('n') in ('wcssub', 'wcscopy') or c.get('q') in ('wcssub',):
            n += 1
            ck.ok(any(m[0] in 'gs' for m in held(S)), 'guarded', where(c, f), 'wcssub is called holding %s' % show(held(S)))
        fn = c.get('fn')
        if fn is not None:
            nm = [x.get('n') for x in walk(fn) if x.get('n') in ('func_plan_fwd', 'func_plan_inv', 'func_destroy_plan')]
            if nm and nm[0] != 'func_destroy_plan':
                n += 1
                ck.ok(any(m == ('g', NS + 'fftw_global_plan_mutex') for m in held(S)), 'guarded', where(c, f), 'the FFTW planner runs holding %s' % show(held(S)))
    for v, accs in A.by_var().items():
        if v[0] == 's' and v[1].split(':')[-1] == 'plan_cache':
            com = locks.common(accs)
            for a in accs:
                n += 1
                ck.ok(bool(com) or any(held(a.held)) and not a.w, 'guarded', where(a), '%s of the plan cache holding %s' % ('write' if a.w else 'read', show(held(a.held))))
    ck.ok(True if n >= 4 else None, 'guarded', 'library', '%d calls into non-thread-safe library code located' % n)


def fftw_member(ck, F, A):
    pass


# ------------------------------------------------------------------ what other threads write
def started(F, fs):
    """functions a thread is started on, by key"""
    r = {}
    for f in fs:
        for n in walk(f['body']):
            if n['k'] in ('ctor', 'call') and re.search(r'\b(thread|jthread)\b', (n.get('t') or '')) and (n['k'] == 'ctor' or n.get('n') in ('make_unique', 'make_shared', 'async', 'emplace_back')):
                for a in n.get('args', ()):
                    for x in walk(a):
                        if x.get('k') in ('ref', 'mem') and x.get('dk') in ('func', 'method', 'smem') or x.get('k') == 'ref' and '(' in (x.get('t') or ''):
                            r.setdefault(x.get('key'), (f, n))
    return r


def asynchronous(ck, F, A, fs):
    st = started(F, fs)
    roots = [F.funcs[k] for k in st if k in F.funcs]
    ck.ok(True if len(roots) >= 3 else None, 'async', 'threads', '%d thread entry functions: %s' % (len(roots), ', '.join(sorted(strip_targs(r['q']).split('::', 1)[-1] for r in roots))))
    classes = {strip_targs(f.get('cls') or '') for f, _ in st.values()} | {PF, MM}
    # closure of thread entry functions inside their class
    todo, keys = list(roots), set()
    while todo:
        f = todo.pop()
        if f['key'] in keys:
            continue
        keys.add(f['key'])
        for n in walk(f.get('body')):
            g = F.funcs.get(n.get('key')) if n['k'] == 'call' else None
            if g is not None and g.get('body') and strip_targs(g.get('cls') or '') in classes:
                todo.append(g)
    lam = {}
    for n, f, inline in A.lamb:
        if not inline:
            for x in walk(n.get('body')):
                lam[id(x)] = f
    types = {}
    for r in F.records.values() if isinstance(F.records, dict) else F.records:
        for fd in r.get('fields', ()):
            types[strip_targs(r['q']) + '::' + fd['n']] = fd['t']
    per = {}
    for a in A.acc:
        if a.var[0] != 'f' or a.f.get('fk') in ('ctor', 'dtor') or a.ctx == 'iterator':
            continue
        cls, fd = a.var[1].rsplit('::', 1)
        if strip_targs(cls) not in classes or SYNC.search(re.sub(r'<.*', '', types.get(strip_targs(a.var[1]), ''))) or 'thread' in types.get(strip_targs(a.var[1]), ''):
            continue
        if 'lambda' in str(a.f.get('cls')) or a.f['n'] == 'operator()':
            continue
        ctx = 'worker' if id(a.n) in lam else ('thread:' + strip_targs(a.f['q'])) if a.f['key'] in keys else 'pipeline'
        per.setdefault(a.var, []).append((ctx, a))
    n = 0
    for v, L in sorted(per.items()):
        ctxs = {c for c, _ in L}
        ui = {c for c in ctxs if c.startswith('thread:')}
        # one thread entry reaches all functions of its closure: the same thread
        kinds = {('thread' if c.startswith('thread:') else c) for c in ctxs}
        wk = {('thread' if c.startswith('thread:') else c) for c, a in L if a.w}
        receive = [a for c, a in L if a.w and c == 'pipeline' and a.f['n'].startswith('receive')]
        if not (wk - {'pipeline'} or receive):
            continue
        if len(kinds) < 2 and 'worker' not in kinds:
            continue
        n += 1
        com = locks.common([a for _, a in L])
        bad = [(c, a) for c, a in L if not held(a.held)]
        c, a = bad[0] if bad else L[0]
        ck.ok(bool(com), 'async', where(a), '%s is written by one thread and used by another (%s) %s' % (v[1].split('::')[-1], ', '.join(sorted(kinds)), 'under ' + show(com) if com else 'without a common lock'))
    ck.ok(True if n >= 3 else None, 'async', 'fields', '%d fields are shared between thread contexts' % n)


# ------------------------------------------------------------------ never wait with a lock held
def blocking(ck, F, A):
    n = 0
    for c, S, f in A.calls:
        if f['n'] == 'operator()' and 'lambda' in str(f.get('cls')):
            continue
        nm = c.get('n')
        what = None
        if nm in BLOCKING and (c.get('obj') is not None or nm.startswith('sleep') or nm == 'sem_wait'):
            what = BLOCKING[nm]
        if nm in ('wait',) and 'condition_variable' not in (c.get('q') or '') and c.get('obj') is not None and re.search('future|thread|Prefetcher', (c['obj'].get('t') or '')):
            what = 'waiting'
        if strip_targs(f['q']).startswith(PF + '::') and nm in ('sendSource', 'sendProcessSignal'):
            what = 'calling the next pipeline stage'
        if what:
            n += 1
            ck.ok(not held(S), 'no-lock-while-waiting', where(c, f), '%s holding %s' % (what, show(held(S))))
    ck.ok(True if n >= 8 else None, 'no-lock-while-waiting', 'calls', '%d blocking calls located' % n)
    for c, S, f in A.waits:
        args = c.get('args', ())
        timed = c['n'] != 'wait'
        mine = set()
        for o, m, mo in S:
            if not mo.startswith('-'):
                mine.add(m)
        ck.ok(bool(mine), 'wait', where(c, f), '%s is called holding %s' % (c['n'], show(mine)))
        ck.ok(len(mine) <= 1, 'no-lock-while-waiting', where(c, f), 'only the lock of the condition is held while waiting (%s)' % show(mine))
        ck.ok(timed, 'failure', where(c, f), 'the wait is bounded in time' if timed else 'the wait is not bounded in time: a worker that fails never notifies, and the waiting thread never looks again')


def acquired(A):
    """mutexes each function takes, itself or through the functions it calls"""
    own = {k: set(v) for k, v in A.took.items() if isinstance(k, str)}
    edges = {}
    for c, S, f in A.calls:
        if c.get('key') in A.bykey:
            edges.setdefault(f['key'], set()).add(c['key'])
    ch = True
    while ch:
        ch = False
        for k, cs in edges.items():
            s = own.setdefault(k, set())
            for c in cs:
                new = {m for m in own.get(c, ()) if m[0] in 'fgs'} - s
                if new:
                    s |= new
                    ch = True
    return own


def norm(m):
    return (m[0], BOUND.get(m[1], m[1])) if m[0] == 'f' else m


def relock(ck, F, A):
    n = 0
    for nd, m, f in A.relocks.values():
        ck.ok(False, 'no-relock', where(nd, f), '%s is locked again while it is held: the thread waits for itself' % show([m]))
    acq = acquired(A)
    # the binding of reference mutexes is read from the constructor calls
    for a, b in BOUND.items():
        cls, fd = a.rsplit('::', 1)
        found = False
        for f in A.funcs:
            for x in list(walk(f['body'])) + [y for i in f.get('inits', ()) for y in walk(i.get('e'))]:
                if x.get('k') in ('ctor', 'call') and (strip_targs(x.get('q') or '') == 'std::make_shared' and cls.split('::')[-1] in (x.get('ta') or '') or x['k'] == 'ctor' and strip_targs(x.get('t') or '') == cls):
                    if any(y.get('q') == b for arg in x.get('args', ()) for y in walk(arg)):
                        found = True
        ck.ok(True if found else None, 'no-relock', cls, '%s is bound to %s' % (fd, b))
    for c, S, f in A.calls:
        t = acq.get(c.get('key'))
        if not t or not held(S) or f['n'] == 'operator()':
            continue
        n += 1
        o = c.get('obj')
        both = {norm(m) for m in t} & {norm(m) for m in held(S)}
        # members of another object of the same class have a mutex of their own
        both = {m for m in both if m[0] != 'f' or o is None or peel(o).get('k') == 'this' or peel(o).get('k') == 'mem'}
        ck.ok(not both, 'no-relock', where(c, f), '%s takes %s while %s is held' % (c.get('n'), show(sorted(t, key=str)), show(held(S))))
    ck.ok(True, 'no-relock', 'calls', '%d calls of locking functions under a lock, %d functions take a lock' % (n, len(acq)))


# ------------------------------------------------------------------ facts along a path
class Know(Client):
    """literals established by the conditions tested since the thread last waited, and the events in between"""
    limit = 20000

    def __init__(self, F, cls, flags, queues, ck, f):
        self.F, self.cls, self.flags, self.queues, self.ck, self.f = F, cls, flags, queues, ck, f
        self.inits = {}
        self.iters = {}
        self.bad = {}
        self.seen = {}
        for n in walk(f['body']):
            if n['k'] == 'decl':
                for v in n['vars']:
                    if v.get('init') is not None:
                        self.inits[v['id']] = v['init']

    def say(self, ok, rule, n, msg):
        k = (rule, id(n), msg)
        self.seen[k] = (self.seen.get(k, (True,))[0] and ok, rule, n, msg)

    def member(self, n):
        n = peel(n) if n is not None else None
        if n is None:
            return None
        if n.get('k') == 'mem' and (n.get('q') or '').startswith(self.cls + '::'):
            return n['n']
        if n.get('k') == 'call' and n.get('n') in ('operator->', 'operator*', 'get', 'load', 'operator bool') or n.get('k') == 'call' and (n.get('n') or '').startswith('operator '):
            return self.member(n.get('obj') or (n['args'][0] if n.get('args') else None))
        if n.get('k') == 'ref' and n.get('id') in self.inits:
            t = peel(self.inits[n['id']])
            if t.get('k') == 'mem':
                return self.member(t)
        return None

    # --- literals
    def atom(self, c):
        """condition -> [(key, value when true)], exact on both sides when one entry"""
        c = peel(c)
        k = c.get('k')
        if k == 'ref' and c.get('id') in self.inits:
            i = peel(self.inits[c['id']])
            if i.get('k') in ('call', 'bin', 'un', 'mem'):
                return self.atom(i)
            return None
        if k == 'un' and c.get('op') == '!':
            a = self.atom(c['e'])
            return None if a is None else [(x, not v) for x, v in a] if len(a) == 1 else None
        m = self.member(c)
        if m in self.flags:
            return [(('flag', m), True)]
        if k == 'call' and c.get('n') == 'empty' and self.member(c.get('obj')) in self.queues:
            return [(('empty', self.member(c['obj'])), True)]
        if k == 'call' and c.get('n') == 'checkForException':
            return [(('exc',), True)]
        if k == 'call' and c.get('n') == 'activeThreads':
            return [(('active',), True)]
        op, x, y = None, None, None
        if k == 'bin' and c['op'] in ('==', '!=', '<', '>', '<=', '>='):
            op, x, y = c['op'], peel(c['x']), peel(c['y'])
        elif k == 'call' and c.get('op') in ('==', '!=') and len(([c['obj']] if c.get('obj') is not None else []) + c.get('args', [])) == 2:
            op, (x, y) = c['op'], [peel(z) for z in ([c['obj']] if c.get('obj') is not None else []) + c['args']]
        if op is None:
            return None
        flip = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}
        if x.get('k') == 'int':
            x, y, op = y, x, flip.get(op, op)
        # p->begin() == p->end()
        if x.get('k') == 'call' and y.get('k') == 'call' and {x.get('n'), y.get('n')} in ({'begin', 'end'}, {'cbegin', 'cend'}) and op in ('==', '!='):
            a, b = self.member(x.get('obj')), self.member(y.get('obj'))
            if a == b and a in self.queues:
                return [(('empty', a), op == '==')]
        if y.get('k') == 'bool' and op in ('==', '!='):
            a = self.atom(x)
            return None if a is None or len(a) != 1 else [(a[0][0], a[0][1] == (y['v'] == (op == '==')))]
        if y.get('k') != 'int':
            return None
        z = (op, int(y['v']))
        zero = {('==', 0): True, ('<', 1): True, ('<=', 0): True, ('!=', 0): False, ('>', 0): False, ('>=', 1): False}.get(z)
        if zero is None:
            return None
        def terms(e):
            e = peel(e)
            if e.get('k') == 'bin' and e['op'] == '+':
                return terms(e['x']) + terms(e['y'])
            if e.get('k') == 'ref' and e.get('id') in self.inits:
                return terms(self.inits[e['id']])
            return [e]
        ts = terms(x)
        out = []
        for t in ts:
            nm = t.get('n') if t.get('k') == 'call' else None
            if nm == 'activeThreads':
                out.append((('active',), not zero))
            elif nm in ('running', 'queued'):
                out.append((('zero', nm), zero))
            elif nm == 'size' and self.member(t.get('obj')) in self.queues:
                out.append((('empty', self.member(t['obj'])), zero))
            else:
                return None
        return out

    def branch(self, c, truth, S):
        a = self.atom(c)
        if a is None:
            return (S,)
        d, ev = S
        d = dict(d)
        if len(a) == 1:
            k, v = a[0]
            v = v == truth
            if d.get(k, v) != v and k[0] not in ('active', 'exc', 'zero', 'flag'):
                return ()
            d[k] = v
        else:
            # a sum of counters is zero exactly when all are
            z = a[0][1] == truth
            if z:
                for k, _ in a:
                    d[k] = True
        return ((frozenset(d.items()), ev),)

    def put(self, S, **kw):
        d, ev = S
        e = dict(ev)
        e.update(kw)
        return (d, frozenset(e.items()))

    def forget(self, S, keep=()):
        d, ev = S
        return (frozenset((k, v) for k, v in d if k in keep), ev)

    def event(self, n, S):
        if n.get('k') != 'call':
            return (S,)
        nm = n.get('n')
        d, ev = S
        dd, e = dict(d), dict(ev)
        m = self.member(n.get('obj')) if n.get('obj') is not None else None
        if nm in ('wait', 'wait_for', 'wait_until') and 'condition_variable' in (n.get('q') or ''):
            # the state may have changed while waiting: everything is examined again
            r = self.onwait(n, dd, e)
            if r is not None:
                self.say(*r)
            return ((frozenset(), ev),)
        if nm in ('sleep_for', 'sleep_until', 'yield') and 'this_thread' in (n.get('q') or ''):
            for k, v, w in ((('exc',), False, 'a worker exception'), (('active',), True, 'that worker threads are alive')):
                self.say(dd.get(k) == v, 'failure', n, 'before waiting again the thread has checked for %s' % w)
            return ((frozenset(), ev),)
        if nm == 'checkForException' and n.get('args') and peel(n['args'][0]).get('k') == 'bool' and peel(n['args'][0])['v'] and dd.get(('exc',)) is True:
            return ()          # rethrows
        if m in self.queues:
            if nm in ('front', 'back', 'top') or nm in ('pop_front', 'pop_back', 'pop'):
                self.consume(n, nm, m, dd, e)
            if nm in ('pop_front', 'pop_back', 'pop', 'clear', 'erase', 'swap'):
                dd.pop(('empty', m), None)
                return (self.after(n, nm, m, frozenset(dd.items()), e),)
            if nm.startswith(('push', 'emplace', 'insert')):
                dd[('empty', m)] = False
                return ((frozenset(dd.items()), ev),)
        r = self.more(n, nm, m, dd, e)
        if r is not None:
            return r
        return (S,)

    def onwait(self, n, d, e):
        if any(k == ('active',) for k in d):
            return (d.get(('active',)) is True, 'failure', n, 'before waiting the thread has checked that worker threads are alive')
        return (False, 'failure', n, 'before waiting the thread has checked that worker threads are alive')

    def consume(self, n, nm, m, d, e):
        if m in self.tested:
            self.say(d.get(('empty', m)) is False, 're-examine', n, '%s.%s() is reached only after %s was seen not to be empty' % (m, nm, m))

    def after(self, n, nm, m, d, e):
        return (d, frozenset(e.items()))

    def more(self, n, nm, m, d, e):
        return None

    tested = ()

    def flush(self):
        for ok, rule, n, msg in self.seen.values():
            self.ck.ok(ok, rule, '%s:%s (%s)' % (self.f['file'].replace(REPO + '/', ''), n.get('l'), strip_targs(self.f['q'])), msg)


class Output(Know):
    """the output thread: consume only what is there, one slot per released source, entries leave the queue after they are passed on"""
    def __init__(self, *a, slots, main):
        Know.__init__(self, *a)
        self.slots, self.main = slots, main

    def consume(self, n, nm, m, d, e):
        Know.consume(self, n, nm, m, d, e)
        if nm.startswith('pop') and m == self.main:
            self.say(e.get('sent', 0) == 1, 'passed-on', n, 'an entry leaves %s only after it was passed to the next stage' % m)

    def after(self, n, nm, m, d, e):
        e = dict(e)
        if m == self.main:
            e['sent'] = 0
        return (d, frozenset(e.items()))

    def onwait(self, n, d, e):
        self.say(e.get('debt', 0) == 0, 'slot', n, 'the slot of every source passed on has been released when the thread waits again')
        return Know.onwait(self, n, d, e)

    def more(self, n, nm, m, d, e):
        e = dict(e)
        if nm in ('sendSource', 'sendProcessSignal'):
            self.say(e.get('sent', 0) == 0, 'passed-on', n, 'each entry is passed on once')
            e['sent'] = 1
            if nm == 'sendSource':
                self.say(e.get('debt', 0) <= 0, 'slot', n, 'the slot of the previous source has been released')
                e['debt'] = e.get('debt', 0) + self.slots
                if e['debt'] > 1:
                    return ()
            return ((frozenset(d.items()), frozenset(e.items())),)
        if nm == 'release' and 'emaphore' in (n.get('q') or '') + str((n.get('obj') or {}).get('t')):
            e['debt'] = e.get('debt', 0) - 1
            self.say(abs(e['debt']) <= 1 and e['debt'] >= (0 if e.get('sent', 0) or self.slots == 0 else -1), 'slot', n, 'a slot is released once for each source passed on')
            if abs(e['debt']) > 1:
                return ()
            return ((frozenset(d.items()), frozenset(e.items())),)
        return None


def outs(o):
    return set(o.next) | {s for _, _, s in o.ret}


def function(F, q):
    L = [f for f in F.funcs.values() if strip_targs(f['q']) == q and f.get('body')]
    return L[0] if L else None


def need(ck, rule, F, q):
    f = function(F, q)
    if f is None:
        ck.ok(None, rule, q, 'the function is not there any more')
    return f


def start():
    return (frozenset(), frozenset())


def loops(ck, F):
    for cls, fn, flag, main, queues, tested, idle in (
            (PF, 'outputLoop', 'm_stop', 'm_received', ('m_received', 'm_event_queue'), ('m_received',), False),
            (MM, 'outputThreadLoop', 'm_input_done', 'm_output_queue', ('m_output_queue',), ('m_output_queue',), True)):
        f = need(ck, 're-examine', F, cls + '::' + fn)
        rcv = need(ck, 'slot', F, cls + '::receiveSource')
        if f is None or rcv is None:
            continue
        # slots taken per received source
        acq = set()
        c = Count(F, cls)
        o = Flow(c).run(rcv, {0})
        acq = outs(o)
        ck.ok(len(acq) == 1 and max(acq) <= 1, 'slot', '%s:%s (%s)' % (rcv['file'].replace(REPO + '/', ''), rcv['l'], strip_targs(rcv['q'])), 'every received source takes the same number of slots (%s)' % sorted(acq))
        slots = max(acq) if acq else 0
        k = Output(F, cls, (flag,), queues, ck, f, slots=slots, main=main)
        k.tested = tested
        o = Flow(k).run(f, {start()})
        k.flush()
        bad = None
        for d, e in outs(o):
            d, e = dict(d), dict(e)
            done = d.get(('flag', flag)) is True and d.get(('empty', main)) is True and (not idle or d.get(('zero', 'running')) is True and d.get(('zero', 'queued')) is True)
            if not (done or d.get(('active',)) is False):
                bad = d
            if e.get('debt', 0) != 0:
                ck.ok(False, 'slot', '%s:%s (%s)' % (f['file'].replace(REPO + '/', ''), f['l'], strip_targs(f['q'])), 'the thread can end without releasing the slot of a source it passed on')
        ck.ok(bad is None, 'drain', '%s:%s (%s)' % (f['file'].replace(REPO + '/', ''), f['l'], strip_targs(f['q'])),
              'the thread ends only when it was told to and nothing is left%s, or when the worker threads are gone%s' % (' in the queue nor in the workers' if idle else ' in the queue', '' if bad is None else ': it can end knowing only %s' % {' '.join(map(str, x)): y for x, y in bad.items()}))
    for cls, fn, main, flags in ((PF, 'synchronize', 'm_received', ('m_stop',)), (MM, 'synchronizeThreads', 'm_output_queue', ('m_input_done',))):
        f = need(ck, 'failure', F, cls + '::' + fn)
        if f is None:
            continue
        k = Know(F, cls, flags, (main,), ck, f)
        o = Flow(k).run(f, {start()})
        k.flush()
        bad = [d for d, e in outs(o) if dict(d).get(('empty', main)) is not True]
        ck.ok(not bad, 'drain', '%s:%s (%s)' % (f['file'].replace(REPO + '/', ''), f['l'], strip_targs(f['q'])), '%s returns only after %s was seen empty' % (fn, main))
        ck.ok(True if outs(o) else None, 'drain', '%s:%s (%s)' % (f['file'].replace(REPO + '/', ''), f['l'], strip_targs(f['q'])), '%s returns' % fn)


class Count(Client):
    def __init__(self, F, cls):
        self.F, self.cls = F, cls

    def event(self, n, S):
        if n.get('k') == 'call' and n.get('n') in ('acquire', 'release') and 'emaphore' in (n.get('q') or '') + str((n.get('obj') or {}).get('t')):
            return (min(S + (1 if n['n'] == 'acquire' else -1), 3),)
        return (S,)


# ------------------------------------------------------------------ publish, then notify
class Publish(Client):
    """pending: something was made visible and not notified yet; told: a notification happened"""
    def __init__(self, cls, cont):
        self.cls, self.cont, self.bad, self.n = cls, cont, [], 0

    def event(self, n, S):
        if n.get('k') != 'call':
            return (S,)
        o = peel(n['obj']) if n.get('obj') is not None else None
        if o is not None and o.get('k') == 'mem' and o['n'] in self.cont and n['n'].startswith(('push', 'emplace', 'insert', 'try_emplace', 'splice', 'operator[]')):
            self.n += 1
            return ('pending',)
        if n.get('n') in ('notify_one', 'notify_all'):
            if S != 'pending':
                self.bad.append((n, 'the consumer is notified before anything was made visible to it'))
            return ('told',)
        return (S,)


def publish(ck, F, A):
    for cls, cont in ((PF, ('m_finished_sources', 'm_event_queue')), (MM, ('m_output_queue',))):
        total = 0
        for f in A.funcs:
            if strip_targs(f.get('cls') or '') != cls or f['n'] == 'operator()':
                continue
            bodies = [(f['body'], f['l'])] + [(n['body'], n.get('l')) for n, g, inline in A.lamb if g is f and not inline]
            for b, l in bodies:
                c = Publish(cls, cont)
                o = Flow(c).run({'body': b, 'params': []}, {'none'})
                w = '%s:%s (%s)' % (f['file'].replace(REPO + '/', ''), l, strip_targs(f['q']))
                for n, msg in {id(n): (n, m) for n, m in c.bad}.values():
                    ck.ok(False, 'publish', '%s:%s (%s)' % (f['file'].replace(REPO + '/', ''), n.get('l'), strip_targs(f['q'])), msg)
                if c.n:
                    total += 1
                    ck.ok('pending' not in outs(o), 'publish', w, 'what is made visible to the output thread is followed by a notification on every path')
        ck.ok(True if total >= len(cont) else None, 'publish', cls, '%d functions or tasks hand work to the output thread' % total)
    # the entry and the event it stands for become visible together
    f = need(ck, 'publish', F, PF + '::receiveProcessSignal')
    if f is not None:
        g = [[a for a in A.by_var().get(('f', PF + '::' + v), ()) if a.f is f and a.w] for v in ('m_received', 'm_event_queue')]
        ok = None
        if g[0] and g[1]:
            own = [{o for a in x for o, m, mo in a.held if not mo.startswith('-')} for x in g]
            ok = bool(own[0] & own[1])
        ck.ok(ok, 'publish', '%s:%s (%s)' % (f['file'].replace(REPO + '/', ''), f['l'], strip_targs(f['q'])), 'the entry of a signal and the signal itself are published in one critical section')


# ------------------------------------------------------------------ joining
class Join(Client):
    def __init__(self, F, cls, field, flag):
        self.F, self.cls, self.field, self.flag = F, cls, field, flag
        self.early = []

    def mem(self, n):
        n = peel(n) if n is not None else {}
        while n.get('k') == 'call' and n.get('n') in ('operator->', 'operator*', 'get'):
            n = peel(n.get('obj') or n['args'][0])
        if n.get('k') == 'un' and n.get('op') == '*':
            return self.mem(n['e'])
        return n.get('n') if n.get('k') == 'mem' else None

    def event(self, n, S):
        st, fl = S
        if n.get('k') == 'call' and n.get('n') == 'join' and self.mem(n.get('obj')) == self.field:
            if self.flag and not fl:
                self.early.append(n)
            return (('joined', fl),)
        if n.get('k') == 'call' and n.get('n') in ('operator=', 'store', 'exchange') and n.get('obj') is not None and self.mem(n['obj']) == self.flag and n.get('args') and peel(n['args'][0]).get('k') == 'bool' and peel(n['args'][0])['v']:
            return ((st, True),)
        if n.get('k') == 'asg' and self.mem(n['x']) == self.flag and peel(n['y']).get('k') == 'bool' and peel(n['y'])['v']:
            return ((st, True),)
        return (S,)

    def branch(self, c, truth, S):
        c = peel(c)
        while c.get('k') == 'un' and c.get('op') == '!':
            c, truth = peel(c['e']), not truth
        st, fl = S
        if c.get('k') == 'call' and c.get('n') == 'joinable' and self.mem(c.get('obj')) == self.field and not truth:
            return (('joined', fl),)
        if c.get('k') == 'call' and c.get('n') == 'operator bool' and self.mem(c.get('obj')) == self.field and not truth:
            return (('joined', fl),)
        if c.get('k') == 'mem' and c.get('n') == self.field and not truth:
            return (('joined', fl),)
        if c.get('k') == 'call' and c.get('n') in ('operator!=', 'operator==') and any(self.mem(x) == self.field for x in c.get('args', ())) and truth == (c['n'] == 'operator=='):
            return (('joined', fl),)
        return (S,)

    def inline(self, n, S):
        o = n.get('obj')
        if n.get('virt') and False or (o is not None and peel(o).get('k') != 'this'):
            return None
        f = self.F.funcs.get(n.get('key'))
        return f['body'] if f is not None and f.get('body') and strip_targs(f.get('cls') or '') == self.cls else None


def joins(ck, F, A, fs):
    n = 0
    for r in list(F.records.values()) if isinstance(F.records, dict) else F.records:
        if not r['file'].startswith(REPO):
            continue
        for fd in r.get('fields', ()):
            if not re.search(r'\b(std|boost)::thread\b', fd['t']):
                continue
            n += 1
            cls = strip_targs(r['q'])
            d = [f for f in fs if f.get('fk') == 'dtor' and strip_targs(f.get('cls') or '') == cls]
            if not d:
                ck.ok(None if not any(f.get('fk') == 'dtor' and strip_targs(f.get('cls') or '') == cls for f in F.funcs.values()) and False else False, 'join', '%s:%s (%s)' % (r['file'].replace(REPO + '/', ''), fd['l'], cls), 'the destructor does not join %s' % fd['n'])
                continue
            c = Join(F, cls, fd['n'], None)
            o = Flow(c).run(d[0], {('live', False)})
            ok = all(s[0] == 'joined' for s in outs(o))
            ck.ok(ok, 'join', '%s:%s (%s)' % (d[0]['file'].replace(REPO + '/', ''), d[0]['l'], strip_targs(d[0]['q'])), '%s is joined, or not running, when the object is destroyed' % fd['n'])
    ck.ok(True if n >= 3 else None, 'join', 'threads', '%d classes own a thread' % n)
    for cls, fn, field, flag in ((PF, 'wait', 'm_output_thread', 'm_stop'), (MM, 'stopThreads', 'm_output_thread', 'm_input_done')):
        f = need(ck, 'join', F, cls + '::' + fn)
        if f is None:
            continue
        c = Join(F, cls, field, flag)
        o = Flow(c).run(f, {('live', False)})
        w = '%s:%s (%s)' % (f['file'].replace(REPO + '/', ''), f['l'], strip_targs(f['q']))
        ck.ok(all(s[0] == 'joined' for s in outs(o)), 'join', w, '%s joins the output thread on every path' % fn)
        ck.ok(not c.early, 'join', w, 'the output thread is told to stop before it is joined')


# ------------------------------------------------------------------ check images
class Holding(Client):
    def __init__(self, ask, f):
        self.ask, self.f, self.bad, self.n = ask, f, {}, 0

    def asks(self, n):
        return [x for x in walk(n) if x.get('k') == 'call' and (x.get('key') in self.ask[0])]

    def event(self, n, S):
        if n.get('k') == 'vardecl':
            v = n['v']
            t = v.get('t', '')
            if v.get('init') is not None and 'WriteableImage' in t and 'shared_ptr' in t and self.asks(v['init']):
                return (S | {v['id']},)
        if n.get('k') == 'call' and (n.get('key') in self.ask[0] or n.get('key') in self.ask[1]):
            self.n += 1
            if S:
                self.bad[id(n)] = n
        if n.get('k') == 'call' and n.get('n') in ('reset', 'operator=') and n.get('obj') is not None and peel(n['obj']).get('id') in S:
            a = n.get('args', [])
            if not a or not self.asks(a[0]):
                return (S - {peel(n['obj'])['id']},)
        return (S,)

    def leave(self, v, S):
        return (S - {v['id']},)


def locked_images(ck, F):
    rec = F.rec(NS + 'LockedWriteableImage')
    rec = rec[0] if isinstance(rec, list) else rec
    w = 'SEImplementation/SEImplementation/Image/LockedWriteableImage.h:%s' % rec['l']
    gs = [fd for fd in rec['fields'] if locks.guard(fd['t'])]
    ck.ok(len(gs) == 1, 'locked-image', w, 'a locked image holds a lock for as long as it exists')
    n = 0
    for f in F.funcs.values():
        if not f.get('dep') and f.get('fk') == 'ctor' and strip_targs(f.get('cls') or '') == NS + 'LockedWriteableImage' and f.get('inits') and len(f['params']) == 1 and 'LockedWriteableImage' not in f['params'][0]['t']:
            n += 1
            # tags (defer_lock) would leave it open
            ok = False
            for i in f['inits']:
                ms = [x for x in walk(i.get('e')) if x.get('k') in ('mem',) and x.get('n') == 'm_write_mutex']
                own = any(x.get('k') == 'ref' and x.get('id') == f['params'][0].get('id') or x.get('k') == 'mem' and x.get('n') == 'm_img' for x in walk(i.get('e')))
                e = i.get('e') or {}
                if ms and own:
                    args = [x for x in walk(e) if x.get('k') == 'ctor' and locks.guard(x.get('t'))]
                    ok = bool(args) and len(args[0].get('args', ())) == 1 or not args
            ck.ok(ok, 'locked-image', '%s:%s' % (f['file'].replace(REPO + '/', ''), f['l']), 'the image wrapped is the one whose write mutex is locked')
    ck.ok(True if n else None, 'locked-image', w, '%d instantiations of the locked image' % n)
    lock = set()
    for f in F.funcs.values():
        if strip_targs(f.get('cls') or '') != CI or not f.get('body') or 'WriteableImage' not in (f.get('ret') or f.get('t') or '') or f['n'] == 'getWriteableCheckImage':
            continue
        rets = [x for x in walk(f['body']) if x['k'] == 'ret']
        verdict = True
        for r in rets:
            v = locked_value(r.get('e'), f)
            verdict = False if v is False or verdict is False else None if v is None or verdict is None else True
        ck.ok(verdict if rets else None, 'locked-image', '%s:%s (%s)' % (f['file'].replace(REPO + '/', ''), f['l'], f['q']), 'the check image handed out is locked (or there is none)')
        lock.add(f['key'])
    ck.ok(True if len(lock) >= 8 else None, 'locked-image', CI, '%d accessors hand out check images' % len(lock))
    return lock


def locked_value(e, f, depth=0):
    e = peel(e) if e is not None else {}
    while e.get('k') in ('ctor', 'cast') and len(e.get('args', ())) == 1:
        e = peel(e['args'][0])
    k = e.get('k')
    if k == 'null' or k == 'nullptr' or (k == 'ctor' and not e.get('args')) or 'nullptr_t' in (e.get('t') or ''):
        return True
    if k == 'init' and not e.get('ch'):
        return True
    if k == 'call' and e.get('n') in ('move', 'static_pointer_cast', 'dynamic_pointer_cast') and e.get('args'):
        return locked_value(e['args'][0], f, depth)
    if k == 'call':
        q = strip_targs(e.get('q') or '')
        return True if q == NS + 'LockedWriteableImage::create' or 'LockedWriteableImage' in (e.get('t') or '') else False if not q.startswith(CI) else None
    if k == 'cond':
        a, b = locked_value(e['a'], f, depth), locked_value(e['b'], f, depth)
        return a and b
    if k == 'mem':
        return False
    if k == 'ref' and depth < 3:
        if 'LockedWriteableImage' in (e.get('t') or ''):
            return True
        vals = [v['init'] for n in walk(f['body']) if n['k'] == 'decl' for v in n['vars'] if v['id'] == e['id'] and v.get('init') is not None]
        r = [locked_value(v, f, depth + 1) for v in vals]
        return None if not r else False if False in r else None if None in r else True
    return None


def check_images(ck, F, A):
    lock = locked_images(ck, F)
    # whoever takes the lock of the registry, or asks for an image, directly or through its callees
    reg = {f['key'] for f in A.funcs if ('f', CI + '::m_access_mutex') in A.took.get(f['key'], ())}
    fs = inrepo(F)
    ask = set()
    ch = True
    keys = lock | reg
    while ch:
        ch = False
        for f in fs:
            if f['key'] in keys or f['key'] in ask or f['n'] == 'operator()':
                continue
            if any(n['k'] == 'call' and (n.get('key') in keys or n.get('key') in ask) for n in walk(f['body'])):
                ask.add(f['key'])
                ch = True
    n = 0
    for f in fs:
        if not any(x['k'] == 'call' and x.get('key') in lock for x in walk(f['body'])) or f['key'] in lock:
            continue
        c = Holding((keys, ask), f)
        try:
            Flow(c).run(f, {frozenset()})
        except TooBig:
            ck.undecided('one-at-a-time', where(f['body'], f), 'too many paths')
            continue
        n += 1
        if not c.bad:
            ck.ok(True, 'one-at-a-time', '%s:%s (%s)' % (f['file'].replace(REPO + '/', ''), f['l'], strip_targs(f['q'])), 'no check image is requested while another one is held (%d requests)' % c.n)
        for x in c.bad.values():
            ck.ok(False, 'one-at-a-time', where(x, f), '%s is called while the function still holds another check image: two threads doing so wait for each other' % x['n'])
    ck.ok(True if n >= 6 else None, 'one-at-a-time', 'users', '%d functions draw on check images' % n)


# ------------------------------------------------------------------ the order of shutdown
class Shutdown(Client):
    def event(self, n, S):
        if n.get('k') == 'call' and n.get('obj') is not None:
            t = n['obj'].get('t') or ''
            o = peel(n['obj'])
            if o.get('k') == 'call' and o.get('args') is not None:
                t += str((o.get('obj') or {}).get('t'))
            if 'Prefetcher' in t and n['n'] in ('wait', 'synchronize'):
                return (S + ('p' + n['n'],),) if len(S) < 9 else (S,)
            if 'Measurement' in t and n['n'] in ('stopThreads', 'synchronizeThreads', 'startThreads'):
                return (S + ('m' + n['n'],),) if len(S) < 9 else (S,)
        return (S,)


def run(ck):
    ck.rule('guarded', 'state several threads use is accessed only with its lock held, exclusively when it is written')
    ck.rule('async', 'a field one thread writes and another uses is protected by one lock')
    ck.rule('no-lock-while-waiting', 'no lock is held while waiting for other threads or running the next stage of the prefetcher')
    ck.rule('no-relock', 'no thread locks a mutex it already holds')
    ck.rule('wait', 'a condition is waited for with its lock held')
    ck.rule('re-examine', 'a queue is consumed only after it was seen not to be empty since the last removal or wait')
    ck.rule('publish', 'work is made visible before the consumer is notified, and notified on every path')
    ck.rule('slot', 'one slot is taken per received source and released once per source passed on')
    ck.rule('passed-on', 'an entry leaves the queue a synchronisation waits on only after it was passed on')
    ck.rule('drain', 'threads end and synchronisations return only when nothing is left')
    ck.rule('failure', 'a waiting thread keeps looking for failed or vanished workers')
    ck.rule('join', 'every thread is joined')
    ck.rule('locked-image', 'check images are handed out locked')
    ck.rule('one-at-a-time', 'a thread holding a check image does not ask for another')
    F = ck.F = Facts(tus(*(CORE + USERS)))
    fs = inrepo(F)
    A = locks.Analysis(F, fs)
    ck.ok(True if not A.lost else None, 'guarded', 'analysis', 'every function was followed (%d functions, %d calls, %d accesses)' % (len(A.funcs), len(A.calls), len(A.acc)))
    ck.section(shared, ck, F, A)
    ck.section(calls_under, ck, F, A)
    ck.section(asynchronous, ck, F, A, fs)
    ck.section(blocking, ck, F, A)
    ck.section(relock, ck, F, A)
    ck.section(loops, ck, F)
    ck.section(publish, ck, F, A)
    ck.section(joins, ck, F, A, fs)
    ck.section(check_images, ck, F, A)
    return 100
