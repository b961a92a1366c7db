"""Source/group properties as opaque values: getProperty<P>(i) of an object is one term per (object, P, i), getters of a property
are uninterpreted functions of it, and setProperty<P>(args) is an effect."""
from .util import *
from .interp import ctype, is_unsigned, sort_of, UNSIGNED, strip_targs

SRC = ('SourceXtractor::SourceInterface', 'SourceXtractor::SourceGroupInterface', 'SourceXtractor::PropertyHolder')


def first_targ(ta):
    """(first template argument, rest)"""
    ta = (ta or '').strip()
    if ta.startswith('<'):
        ta = ta[1:-1]
    d = 0
    for i, ch in enumerate(ta):
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        elif ch == ',' and d == 0:
            return ta[:i].strip(), ta[i + 1:].strip()
    return ta.strip(), ''


def short(c):
    return strip_targs(c).split('::')[-1]


def prop(cls, src, idx=None):
    return mk('app', ('prop', cls, src, idx if idx is not None else num(0)), 'o')


def handlers(F, extra=None):
    isprop = {}

    def is_property(t):
        t = ctype(t)
        t = t.rstrip('*').strip()
        t = ctype(t)
        if t not in isprop:
            rs = F.rec_q.get(strip_targs(t), [])
            isprop[t] = any(F.derives(r, 'Property') for r in rs)
        return isprop[t]

    def get(it, n, st):
        c, _ = first_targ(n.get('ta'))
        if not c:
            return None
        src = it.objval(n['obj'], st) if n.get('obj') is not None else it.frame['this']
        idx = num(0)
        if n['args']:
            idx = it._t(it.val(it.arg(n['args'][0], 'v', st), st), st)
        r = prop(short(c), src, idx)
        it.effect('getprop', st, n, cls=short(c), obj=src, index=idx, ret=r)
        return r

    def put(it, n, st):
        c, _ = first_targ(n.get('ta'))
        if not c:
            return None
        src = it.objval(n['obj'], st) if n.get('obj') is not None else it.frame['this']
        av = [it._t(it.val(it.arg(a, m, st), st), st) for a, m in zip(n['args'], n.get('pm', '') + 'v' * 40)]
        idx = num(0)
        if n['n'] == 'setIndexedProperty':
            idx, av = av[0], av[1:]
        it.effect('setprop', st, n, cls=short(c), obj=src, index=idx, argt=av)
        return num(0)

    def anycall(it, n, st):
        o = n.get('obj')
        if o is None or not is_property(o.get('t', '')) or n.get('q', '').split('::')[-2:-1] == ['Property']:
            return None
        obj = it.objval(o, st)
        if not (isinstance(obj, T) and (obj.op == 'app' and obj.a[0] == 'prop')):
            return None
        av = [it._t(it.val(it.arg(a, m, st), st), st) for a, m in zip(n['args'], n.get('pm', '') + 'v' * 20)]
        r = mk('app', ('get:' + n['n'], obj) + tuple(av), sort_of(n.get('t', '')))
        if is_unsigned(n.get('t', '')):
            UNSIGNED.add(r)
        return r

    h = {'getProperty': get, 'setProperty': put, 'setIndexedProperty': put, '#call': anycall}
    h.update(extra or {})
    return h


def getter(p, name, *a, sort='r'):
    return mk('app', ('get:' + name, p) + a, sort)


def setprops(s, cls):
    return [e for e in s.effects if e.kind == 'setprop' and e.d['cls'] == cls]
