"""Obligations, verdicts, evidence and exit codes shared by all checks."""
import ctypes, json, os, re, sys, threading, time
from . import facts as FX
from .terms import *
from . import terms as TT

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# locally generated symbols that stand for information the abstraction lost
_LOST = ('phi', 'unk', 'join', 'any', 'anyidx', 'found', 'exit', 'cmp', 'n', 'b', 'uninit_', 'nothis', 'noret', 'fld', 'elem', 'lam', 'dyn', 'sizeof', 'it', 'k')


# a group of rules that a rewritten function makes too expensive is given up (undecided) rather than left to run
SECTION_LIMIT, TOTAL_LIMIT = float(os.environ.get('SX_SECTION', 180)), 600


class OutOfTime(BaseException):
    pass


def _watch(ident, seconds):
    t = threading.Timer(seconds, lambda: ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(ident), ctypes.py_object(OutOfTime)))
    t.daemon = True
    t.start()
    return t


def known_findings():
    p = os.path.join(VERIF, 'known_findings.txt')
    out = {}
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'^finding: property=(\S+) key=(\S+)\s*(.*)$', l.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def lost(t, exact=()):
    """atoms of t that do not denote a program quantity exactly"""
    out = []
    for x in subterms(t):
        if x in exact:
            continue
        if x.op == 'sym':
            s = str(x.a[0])
            if '#' in s:
                base = s.split('#')[0]
                if base in _LOST or base.startswith('uninit_'):
                    out.append(x)
        elif x.op == 'app' and isinstance(x.a[0], str):
            h = x.a[0]
            if h.startswith(('elem@', 'deref@')) or h == 'out':
                out.append(x)
    return out


def foreign(t, want=None):
    """unmodelled library calls inside t (their meaning is unknown to the value numbering)"""
    have = set()
    if want is not None:
        have = {x.a[0] for x in subterms(want) if x.op == 'app' and isinstance(x.a[0], str)}
    r = []
    for x in subterms(t):
        if x.op == 'app' and isinstance(x.a[0], str) and x.a[0] not in have:
            h = x.a[0]
            if h.startswith(('call:std::', 'call:boost::', 'call:__gnu', 'call:__builtin', 'new:std::', 'apply', 'val')):
                r.append(h)
            elif h.startswith('call:') and '::' not in h[5:]:
                r.append(h)
    return r


class Check:
    def __init__(self, pid, tier='quick'):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obs = []            # (verdict, rule, where, detail)
        self.fails = []
        self.rules = {}
        self.notes = []
        self.F = None
        self.counts = {}
        self.assumptions = []
        self.exact = set()       # loop counters of the function under analysis that take every value their path condition allows

    # ------------------------------------------------------------ recording
    def rule(self, name, text):
        self.rules[name] = text

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def _loc(self, where):
        if isinstance(where, FX.Func):
            return where.loc
        return str(where)

    def holds(self, rule, where, detail=''):
        self.obs.append(('holds', rule, self._loc(where), detail))
        return True

    def undecided(self, rule, where, detail=''):
        self.obs.append(('undecided', rule, self._loc(where), str(detail)[:400]))
        return None

    def fail(self, rule, where, detail, key=None, func=None):
        if self.F is not None and getattr(self.F, 'err_tus', None):
            return self.undecided(rule, where, 'sources did not parse cleanly: ' + detail)
        loc = self._loc(where)
        self.obs.append(('violated', rule, loc, str(detail)[:1500]))
        self.fails.append({'rule': rule, 'where': loc, 'detail': str(detail)[:3000], 'key': key or '%s@%s' % (rule, re.sub(r':\d+$', '', loc).replace(' ', '_'))})
        return False

    def ok(self, cond, rule, where, detail='', key=None):
        """cond True/False/None"""
        if cond is None:
            return self.undecided(rule, where, detail)
        return self.holds(rule, where, detail) if cond else self.fail(rule, where, detail, key)

    def section(self, fn, *args):
        """run one group of rules; constructs it cannot cope with are undecided and do not stop the other groups"""
        only = os.environ.get('SX_ONLY')
        if only and getattr(fn, '__name__', '?') not in only.split(','):
            return None
        left = min(SECTION_LIMIT, max(5, TOTAL_LIMIT - (time.time() - self.t0)))
        stop = _watch(threading.get_ident(), left)
        try:
            try:
                return fn(*args)
            finally:
                stop.cancel()
        except (Exception, OutOfTime) as e:
            import traceback
            tb = traceback.format_exc()
            if os.environ.get('SX_VERBOSE'):
                print(tb)
            self.undecided('analysis', getattr(fn, '__name__', '?'), '%s: %s' % (type(e).__name__, str(e)[:200]))

    # ------------------------------------------------------------ term obligations
    def eqv(self, rule, where, got, want, facts=(), exact=(), key=None, what=''):
        """the extracted value and the required value have the same value number (for every valuation satisfying facts)"""
        exact = set(exact) | self.exact
        if not isinstance(got, T):
            return self.undecided(rule, where, '%s: no value extracted (%s)' % (what, type(got).__name__))
        if got is want:
            return self.holds(rule, where, what)
        if got.sort == 'b' and is_num(want): got = to_num(got)
        if want.sort == 'b' and is_num(got): want = to_num(want)
        if (got.sort == 'o') or (want.sort == 'o'):
            if got.sort == want.sort == 'o':
                bad = lost(got, exact) or foreign(got, want)
                if bad:
                    return self.undecided(rule, where, '%s: %s' % (what, show(got)))
                r, why = TT.equal_obj(got, want, facts)
                if r:
                    return self.holds(rule, where, what)
                if r is None:
                    return self.undecided(rule, where, '%s: %s vs %s' % (what, show(got), show(want)))
                return self.fail(rule, where, '%s: code computes %s, required %s' % (what, show(got), show(want)), key)
            return self.undecided(rule, where, '%s: sort mismatch %s / %s' % (what, show(got), show(want)))
        r, why = equal(got, want, facts)
        if r:
            return self.holds(rule, where, what)
        bad = lost(got, exact)
        fr = foreign(got, want)
        if r is None or bad or fr:
            return self.undecided(rule, where, '%s: %s; got %s' % (what, why if r is None else ('imprecise: ' + ', '.join([show(b) for b in bad[:3]] + fr[:3])), show(got)))
        return self.fail(rule, where, '%s: code computes %s, required %s; differs for %s' % (what, show(got), show(want), why), key)

    def entail(self, rule, where, facts, goal, exact=(), key=None, what=''):
        exact = set(exact) | self.exact
        facts = [f for f in facts if f is not TRUE]
        if goal is TRUE or entails(facts, goal):
            return self.holds(rule, where, what)
        bad = []
        for t in [goal]:
            bad += lost(t, exact)
            bad += foreign(t)
        for f in facts:
            # a fact the abstraction lost can only make the context larger
            bad += [x for x in lost(f, exact)] + foreign(f)
        if bad:
            return self.undecided(rule, where, '%s: imprecise (%s)' % (what, ', '.join(x if isinstance(x, str) else show(x) for x in bad[:3])))
        v = refute(facts, goal)
        if v is None:
            return self.undecided(rule, where, '%s: not entailed, no distinguishing valuation: %s' % (what, show(goal)))
        return self.fail(rule, where, '%s: %s does not follow; counter-valuation %s' % (what, show(goal), describe(v, goal, *facts)), key)

    # ------------------------------------------------------------ finish
    def finish(self, min_obs=1):
        known = known_findings()
        viol, kf = [], []
        for f in self.fails:
            k = (self.pid, f['key'])
            (kf if k in known else viol).append(f)
        n = {v: sum(1 for o in self.obs if o[0] == v) for v in ('holds', 'undecided', 'violated')}
        per = {}
        for v, r, w, d in self.obs:
            e = per.setdefault(r, {'text': self.rules.get(r, ''), 'holds': 0, 'undecided': 0, 'violated': 0})
            e[v] += 1
        if n['holds'] + n['violated'] + n['undecided'] < min_obs:
            raise FX.Broken('only %d obligations were found (expected at least %d): the analysis no longer sees the code' % (len(self.obs), min_obs))
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
            'coverage': {
                'explanation': 'Static analysis of the type-checked program extracted from the current sources; one obligation per (rule, construct). "undecided" obligations are constructs the abstraction cannot decide; they are listed and are not counted as shown.',
                'obligations': len(self.obs), 'shown': n['holds'], 'undecided': n['undecided'], 'violated': n['violated'],
                'rules': per,
                'constructs': sorted({o[2] for o in self.obs})[:400],
                'undecided_list': [{'rule': r, 'where': w, 'why': d} for v, r, w, d in self.obs if v == 'undecided'][:200],
                'violations_list': self.fails[:50],
                'samples': [{'rule': r, 'where': w, 'what': d} for v, r, w, d in self.obs if v == 'holds'][:40],
                **({'translation_units': len(self.F.tus), 'functions_extracted': len(self.F.funcs), 'parse_errors': self.F.errors} if self.F is not None else {}),
                **self.counts,
            },
            'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(viol),
        }
        edir = os.environ.get('SX_EVID') or os.path.join(VERIF, 'evidence')
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, self.pid + '.json'), 'w') as o:
            json.dump(ev, o, indent=1, default=str)
        print('%s: %d obligations, %d shown, %d undecided, %d violated (%.1fs)' % (self.pid, len(self.obs), n['holds'], n['undecided'], n['violated'], time.time() - self.t0))
        if os.environ.get('SX_VERBOSE'):
            for v, r, w, d in self.obs:
                if v != 'holds' or os.environ['SX_VERBOSE'] == '2':
                    print('   %-9s %-28s %s  %s' % (v, r, w, d[:700]))
        for f in kf:
            print('KNOWN-FINDING: property=%s %s at %s: %s' % (self.pid, f['rule'], f['where'], f['detail'][:300]))
        if viol:
            rp = os.path.join(edir, self.pid + '.violation.json')
            json.dump(viol, open(rp, 'w'), indent=1)
            for f in viol:
                print('  rule %s violated at %s: %s' % (f['rule'], f['where'], f['detail'][:1200]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0
