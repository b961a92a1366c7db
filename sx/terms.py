"""Term domain used by the value-numbering analyses.

Numeric values are polynomials over interned atoms (symbols, uninterpreted applications, conditional values) with
rational coefficients; two values that are equal under the commutative-ring axioms get the same value number.
Conditions are comparisons against zero of such polynomials.  Linear entailment between conditions (the relational
domain used for the in-bounds obligations) is decided exactly over the rationals with integer tightening.
"""
from fractions import Fraction
from math import gcd
import math, zlib, random, itertools

_intern = {}


class T:
    __slots__ = ('op', 'a', 'sort', 'h', 'sk', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.sk < o.sk


def mk(op, a, sort):
    k = (op, a, sort)
    t = _intern.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.sort = op, a, sort
        t.h = hash(k)
        t.sk = _sk(op, a)
        _intern[k] = t
    return t


def _sk(op, a):
    s = op + '(' + ','.join(x.sk if isinstance(x, T) else repr(x) for x in _flat(a)) + ')'
    if len(s) > 160:
        s = s[:60] + '#%08x%08x' % (zlib.crc32(s.encode()), zlib.adler32(s[::-1].encode()))
    return s


def _flat(a):
    for x in a:
        if isinstance(x, tuple):
            yield '<'
            yield from _flat(x)
            yield '>'
        else:
            yield x


# ------------------------------------------------------------------ constructors
def num(v, sort=None):
    if isinstance(v, float):
        v = Fraction(repr(v))
    v = Fraction(v)
    return poly({(): v}, sort)


def sym(name, sort='i'):
    return mk('sym', (name,), sort)


def app(name, args=(), sort='r'):
    """uninterpreted application: args are terms or hashable python constants"""
    if name in _APPN:
        r = _APPN[name](*args)
        if r is not None:
            return r
    return mk('app', (name,) + tuple(args), sort)


TRUE = mk('true', (), 'b')
FALSE = mk('false', (), 'b')


def boolc(b):
    return TRUE if b else FALSE


def is_num(t):
    return t.sort in ('i', 'r')


def monos(t):
    """dict monomial->coef of a numeric term"""
    if t.op == 'poly':
        return dict(t.a)
    return {((t, 1),): Fraction(1)}


def _mono_key(m):
    return tuple((x.sk, e) for x, e in m)


def poly(d, sort=None):
    d = {m: c for m, c in d.items() if c != 0}
    if sort is None:
        s = 'i'
        for m, c in d.items():
            if c.denominator != 1:
                s = 'r'
            for x, e in m:
                if x.sort != 'i' or e < 0:
                    s = 'r'
        sort = s
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: (len(mc[0]), _mono_key(mc[0]))))
    # value equality decides the sort: a constant has one representation
    return mk('poly', items, sort)


def const(t):
    """Fraction if t is a numeric constant else None"""
    if t.op == 'poly':
        if not t.a:
            return Fraction(0)
        if len(t.a) == 1 and t.a[0][0] == ():
            return t.a[0][1]
    return None


ZERO = None


def add(*ts):
    d = {}
    for t in ts:
        for m, c in monos(t).items():
            d[m] = d.get(m, 0) + c
    return poly(d)


def scale(t, k):
    k = Fraction(k)
    return poly({m: c * k for m, c in monos(t).items()})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def _mmul(m1, m2):
    d = {}
    for x, e in m1:
        d[x] = d.get(x, 0) + e
    for x, e in m2:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda xe: xe[0].sk))


def mul(*ts):
    r = {(): Fraction(1)}
    for t in ts:
        mt = monos(t)
        n = {}
        for m1, c1 in r.items():
            for m2, c2 in mt.items():
                m = _mmul(m1, m2)
                n[m] = n.get(m, 0) + c1 * c2
        if len(n) > 4000:
            return mk('app', ('bigmul',) + tuple(ts), 'r')
        r = n
    return _powfix(poly(r))


def _powfix(t):
    """sqrt(x)^2 -> x, exp(a)^n merge"""
    if t.op != 'poly':
        return t
    changed = False
    out = None
    for m, c in t.a:
        need = False
        ex = None
        for x, e in m:
            if x.op == 'app' and x.a[0] == 'sqrt' and (e >= 2 or e <= -2):
                need = True
            if x.op == 'app' and x.a[0] == 'inv' and e < 0:
                need = True
            if x.op == 'app' and x.a[0] == 'sin' and e >= 2:
                need = True
            if x.op == 'app' and x.a[0] == 'exp':
                if ex is not None:
                    need = True
                ex = x
        if need:
            changed = True
    if not changed:
        return t
    out = num(0)
    for m, c in t.a:
        f = num(c)
        ex = None
        for x, e in m:
            if x.op == 'app' and x.a[0] == 'sqrt' and abs(e) >= 2:
                k = int(math.copysign(abs(e) // 2, e))
                r = e - 2 * k
                f = _rawmul(f, ipow(x.a[1], k))
                if r:
                    f = _rawmul(f, poly({((x, r),): Fraction(1)}))
            elif x.op == 'app' and x.a[0] == 'sin' and e >= 2:
                cs = app('cos', (x.a[1],), 'r')
                f = _rawmul(f, ipow(sub(num(1), mul(cs, cs)), e // 2))
                if e % 2:
                    f = _rawmul(f, poly({((x, 1),): Fraction(1)}))
            elif x.op == 'app' and x.a[0] == 'inv' and e < 0:
                f = _rawmul(f, ipow(x.a[1], -e))
            elif x.op == 'app' and x.a[0] == 'exp':
                ex = scale(x.a[1], e) if ex is None else add(ex, scale(x.a[1], e))
            else:
                f = _rawmul(f, poly({((x, e),): Fraction(1)}))
        if ex is not None:
            f = _rawmul(f, app('exp', (ex,)))
        out = add(out, f)
    return out


def _rawmul(a, b):
    n = {}
    for m1, c1 in monos(a).items():
        for m2, c2 in monos(b).items():
            m = _mmul(m1, m2)
            n[m] = n.get(m, 0) + c1 * c2
    return poly(n)


def ipow(t, k):
    if k == 0:
        return num(1)
    if k < 0:
        return div(num(1), ipow(t, -k))
    r = t
    for _ in range(k - 1):
        r = mul(r, t)
    return r


def div(a, b):
    """real division"""
    cb = const(b)
    if cb is not None:
        if cb == 0:
            return mk('app', ('div0', a), 'r')
        return _real(scale(a, 1 / cb))
    mb = monos(b)
    if len(mb) == 1:
        (m, c), = mb.items()
        inv = {tuple((x, -e) for x, e in m): 1 / c}
        return _powfix(_real(_rawmul(a, poly(inv))))
    # nested fractions: multiply numerator and denominator by the inner denominators
    D = _denom(b)
    if D is not None:
        n2 = clear_inv(b)
        return div(mul(a, D), n2)
    # normalise leading coefficient
    lead = b.a[0][1] if b.op == 'poly' else Fraction(1)
    bn = scale(b, 1 / lead)
    q = _exact(a, bn)
    if q is not None:
        return _real(scale(q, 1 / lead))
    inv = mk('app', ('inv', bn), 'r')
    return _real(_rawmul(scale(a, 1 / lead), inv))


def _denom(t):
    """common denominator of the monomials of t (None when there is none)"""
    invs, negs = {}, {}
    for m, c in monos(t).items():
        for x, e in m:
            if x.op == 'app' and x.a[0] == 'inv' and e > 0:
                invs[x] = max(invs.get(x, 0), e)
            elif e < 0:
                negs[x] = max(negs.get(x, 0), -e)
    if not invs and not negs:
        return None
    d = num(1)
    for x, e in invs.items():
        d = mul(d, ipow(x.a[1], e))
    for x, e in negs.items():
        d = mul(d, poly({((x, e),): Fraction(1)}))
    return d if _denom(d) is None and _denom(_mulsafe(d, t)) is None else None


def _mulsafe(d, t):
    return clear_inv(t)


def _exact(a, b):
    """a / b when a is a constant multiple of b"""
    ma, mb = monos(a), monos(b)
    if len(ma) != len(mb):
        return None
    k = None
    for m, c in mb.items():
        if m not in ma:
            return None
        r = ma[m] / c
        if k is None:
            k = r
        elif k != r:
            return None
    return num(k)


def _real(t):
    return t


def clear_inv(t, depth=0):
    """multiply out ('inv', p) atoms: returns a term that is zero iff t is zero (denominators non-zero)"""
    while True:
        invs = {}
        for m, c in monos(t).items():
            for x, e in m:
                if x.op == 'app' and x.a[0] == 'inv' and e > 0:
                    invs[x] = max(invs.get(x, 0), e)
                elif e < 0:
                    invs[x] = max(invs.get(x, 0), 0)
        targets = [x for x, e in invs.items() if e > 0]
        negs = {}
        for m, c in monos(t).items():
            for x, e in m:
                if e < 0:
                    negs[x] = max(negs.get(x, 0), -e)
        if not targets and not negs:
            return t
        out = num(0)
        for m, c in monos(t).items():
            d = dict(m)
            f = num(c)
            for x in targets:
                e = d.pop(x, 0)
                f = _rawmul(f, ipow(x.a[1], invs[x] - e)) if invs[x] - e else f
            for x, k in negs.items():
                d[x] = d.get(x, 0) + k
            f = _rawmul(f, poly({tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda z: z[0].sk)): Fraction(1)}))
            out = add(out, f)
        t = _powfix(out)
        depth += 1
        if depth > 6:
            return t


# ------------------------------------------------------------------ functions with normal forms
def _exp(x):
    c = const(x)
    if c == 0:
        return num(1)
    # canonical sign: exp(-a) = 1/exp(a)
    if x.op == 'app' and x.a[0] == 'log':
        return x.a[1]
    if x.op == 'poly':
        # pull integer multiples of logs out: exp(n*log(a) + r)
        f = None
        rest = {}
        for m, cc in x.a:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].a[0] == 'log' and cc.denominator == 1 and abs(cc) <= 4:
                p = ipow(m[0][0].a[1], int(cc))
                f = p if f is None else mul(f, p)
            else:
                rest[m] = cc
        if f is not None:
            return mul(f, app('exp', (poly(rest),)))
        lead = x.a[0][1] if x.a[0][0] != () or len(x.a) == 1 else x.a[1][1]
        k = 0
        for m, cc in x.a:
            k = gcd(k, cc.numerator) if cc.denominator == 1 else 1
        k = max(1, k) * (-1 if lead < 0 else 1)
        if k != 1:
            return poly({((mk('app', ('exp', scale(x, Fraction(1, k))), 'r'), k),): Fraction(1)})
    return None


def _log(x):
    c = const(x)
    if c == 1:
        return num(0)
    m = monos(x)
    if len(m) == 1:
        (mm, cc), = m.items()
        if mm and cc > 0:
            parts = []
            if cc != 1:
                parts.append(mk('app', ('log', num(cc)), 'r'))
            for y, e in mm:
                if y.op == 'app' and y.a[0] == 'exp':
                    parts.append(scale(y.a[1], e))
                elif y.op == 'app' and y.a[0] == 'sqrt':
                    parts.append(scale(app('log', (y.a[1],)), Fraction(e, 2)))
                elif y.op == 'app' and y.a[0] == 'inv':
                    parts.append(scale(mk('app', ('log', y.a[1]), 'r'), -e))
                else:
                    parts.append(scale(mk('app', ('log', y), 'r'), e))
            if len(parts) > 1 or (mm and mm[0][1] != 1) or parts[0].op != 'app':
                return add(*parts)
    return None


def _sqrt(x):
    c = const(x)
    if c is not None and c >= 0:
        n, d = c.numerator, c.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return num(Fraction(rn, rd))
    return None


def _odd(name):
    def f(x):
        if const(x) == 0:
            return num(0)
        if x.op == 'poly' and x.a[0][1] < 0:
            return neg(app(name, (neg(x),)))
        return None
    return f


def _even(name):
    def f(x):
        if const(x) == 0 and name == 'cos':
            return num(1)
        if x.op == 'poly' and x.a[0][1] < 0:
            return app(name, (neg(x),))
        return None
    return f


def _round(name):
    def f(x):
        if x.sort == 'i':
            return x
        c = const(x)
        if c is not None:
            if name == 'trunc':
                return num(int(c))
            if name == 'floor':
                return num(math.floor(c))
            if name == 'ceil':
                return num(math.ceil(c))
            if name == 'round':
                return num(math.floor(c + Fraction(1, 2)) if c >= 0 else math.ceil(c - Fraction(1, 2)))
        # integer part moves out
        if x.op == 'poly' and name in ('floor', 'ceil'):
            ip, rp = {}, {}
            for m, cc in x.a:
                if cc.denominator == 1 and all(y.sort == 'i' and e > 0 for y, e in m):
                    ip[m] = cc
                else:
                    rp[m] = cc
            if ip and rp:
                return add(poly(ip), mk('app', (name, poly(rp)), 'i'))
        return mk('app', (name, x), 'i')
    return f


def _pow(x, y):
    c = const(y)
    if c is not None and c.denominator == 1 and abs(c) <= 6:
        return ipow(x, int(c))
    if c == Fraction(1, 2):
        return app('sqrt', (x,))
    if const(x) == 1:
        return num(1)
    return None


def _idiv(a, b):
    ca, cb = const(a), const(b)
    if cb == 1:
        return a
    if ca is not None and cb not in (None, 0):
        q = abs(ca) // abs(cb)
        return num(q if (ca >= 0) == (cb > 0) else -q)
    if cb is not None and cb != 0:
        q = scale(a, 1 / cb)
        if q.sort == 'i' and q.op != 'app':
            return q
    return mk('app', ('idiv', a, b), 'i')


def _imod(a, b):
    ca, cb = const(a), const(b)
    if ca is not None and cb not in (None, 0):
        return num(int(math.fmod(int(ca), int(cb))))
    if cb == 1:
        return num(0)
    return mk('app', ('imod', a, b), 'i')


def _bit(op):
    def f(*args):
        if len(args) != 2 or not all(isinstance(x, T) and is_num(x) for x in args):
            return None
        a, b = args
        x, y = const(a), const(b)
        if x is not None and y is not None and x.denominator == 1 and y.denominator == 1 and x >= 0 and y >= 0:
            x, y = int(x), int(y)
            return num(x | y if op == 'bor' else x & y if op == 'band' else x ^ y)
        if op in ('bor', 'bxor'):
            if x == 0:
                return b
            if y == 0:
                return a
        if op == 'band' and (x == 0 or y == 0):
            return num(0)
        if op in ('bor', 'band') and a is b:
            return a
        return None
    return f


_APPN = {
    'bor': _bit('bor'), 'band': _bit('band'), 'bxor': _bit('bxor'),
    'exp': _exp, 'log': _log, 'sqrt': _sqrt, 'sin': _odd('sin'), 'cos': _even('cos'), 'tan': _odd('tan'), 'asinh': _odd('asinh'), 'sinh': _odd('sinh'),
    'atan': _odd('atan'), 'asin': _odd('asin'), 'trunc': _round('trunc'), 'floor': _round('floor'), 'ceil': _round('ceil'), 'round': _round('round'), 'pow': _pow, 'idiv': _idiv, 'imod': _imod,
}


# ------------------------------------------------------------------ conditions
def _normp(p, strict_scale=True):
    """positive scaling to primitive integer coefficients"""
    m = monos(p)
    if not m:
        return p
    g = 0
    l = 1
    for c in m.values():
        l = l * c.denominator // gcd(l, c.denominator)
    for c in m.values():
        g = gcd(g, int(c * l))
    return scale(p, Fraction(l, g or 1))


def int_valued(p):
    return all(all(x.sort == 'i' and e > 0 for x, e in m) for m in monos(p))


def _tight(p):
    """p<0 over integers with integer-valued atoms: tighten constant"""
    m = monos(p)
    if not int_valued(p):
        return _normp(p)
    l = 1
    for c in m.values():
        l = l * c.denominator // gcd(l, c.denominator)
    m = {k: int(c * l) for k, c in m.items()}
    g = 0
    for k, c in m.items():
        if k != ():
            g = gcd(g, c)
    if g == 0:
        return p
    k0 = m.get((), 0)
    # sum(g*x)+k0 < 0  <=>  sum(g*x) <= -k0-1  <=> sum(x) <= floor((-k0-1)/g)  <=> sum(x) - floor(..) - 1 < 0
    fl = (-k0 - 1) // g
    d = {k: Fraction(c, g) for k, c in m.items() if k != ()}
    d[()] = Fraction(-fl - 1)
    return poly(d)


def lt0(p):
    c = const(p)
    if c is not None:
        return boolc(c < 0)
    if int_valued(p):
        return mk('lt', (_tight(p),), 'b')
    return mk('lt', (_normp(p),), 'b')


def le0(p):
    c = const(p)
    if c is not None:
        return boolc(c <= 0)
    if int_valued(p):
        # p <= 0 : scale to ints first
        l = 1
        for cc in monos(p).values():
            l = l * cc.denominator // gcd(l, cc.denominator)
        return lt0(sub(scale(p, l), num(1)))
    return mk('le', (_normp(p),), 'b')


def eq0(p):
    c = const(p)
    if c is not None:
        return boolc(c == 0)
    p = _normp(p)
    if p.op == 'poly' and p.a[-1][1] < 0:
        p = neg(p)
    return mk('eq', (p,), 'b')


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return le0(sub(a, b))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if is_num(a) and is_num(b):
        return eq0(sub(a, b))
    if a.sort == 'b' and b.sort == 'b':
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return bnot(b)
        if b is FALSE: return bnot(a)
        return bor(band(a, b), band(bnot(a), bnot(b)))
    if a.op == 'app' and b.op == 'app' and a.a[0] == 'str' and b.a[0] == 'str':
        return FALSE
    x, y = sorted((a, b), key=lambda t: t.sk)
    return mk('same', (x, y), 'b')


_bnot = {}


def bnot(c):
    r = _bnot.get(c)
    if r is None:
        r = _bnot[c] = _bnot0(c)
    return r


def _bnot0(c):
    if c is TRUE: return FALSE
    if c is FALSE: return TRUE
    if c.op == 'not': return c.a[0]
    if c.op == 'lt': return le0(neg(c.a[0]))
    if c.op == 'le': return lt0(neg(c.a[0]))
    if c.op == 'and': return bor(*[bnot(x) for x in c.a])
    if c.op == 'or': return band(*[bnot(x) for x in c.a])
    return mk('not', (c,), 'b')


def band(*cs):
    s = set()
    for c in cs:
        if c is TRUE: continue
        if c is FALSE: return FALSE
        if c.op == 'and': s.update(c.a)
        else: s.add(c)
    for c in s:
        if bnot(c) in s:
            return FALSE
    if not s: return TRUE
    if len(s) == 1: return next(iter(s))
    return mk('and', tuple(sorted(s, key=lambda t: t.sk)), 'b')


def bor(*cs):
    s = set()
    for c in cs:
        if c is FALSE: continue
        if c is TRUE: return TRUE
        if c.op == 'or': s.update(c.a)
        else: s.add(c)
    for c in s:
        if bnot(c) in s:
            return TRUE
    if not s: return FALSE
    if len(s) == 1: return next(iter(s))
    return mk('or', tuple(sorted(s, key=lambda t: t.sk)), 'b')


def to_bool(t):
    if t.sort == 'b':
        return t
    if is_num(t):
        return bnot(eq0(t))
    return mk('app', ('truthy', t), 'b')


def to_num(t):
    if t.sort == 'b':
        return ite(t, num(1), num(0))
    return t


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == 'b' and b.sort == 'b':
        return bor(band(c, a), band(bnot(c), b))
    if a.sort == 'b' or b.sort == 'b':
        a, b = to_num(a), to_num(b)
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if c.op == 'le' :
        return ite(bnot(c), b, a)
    s = 'o'
    if is_num(a) and is_num(b):
        s = 'i' if a.sort == 'i' and b.sort == 'i' else 'r'
    return mk('ite', (c, a, b), s)


def tmin(a, b):
    return ite(lt(b, a), b, a)


def tmax(a, b):
    return ite(lt(a, b), b, a)


def tabs(a):
    c = const(a)
    if c is not None:
        return num(abs(c))
    return ite(lt0(a), neg(a), a)


# ------------------------------------------------------------------ traversal
def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(children(x))
    return seen


def children(t):
    if t.op == 'poly':
        return [x for m, c in t.a for x, e in m]
    return [x for x in _flat(t.a) if isinstance(x, T)]


def rebuild(t, f):
    """rebuild t with children mapped by f (bottom-up caller memoises)"""
    if t.op == 'poly':
        out = []
        for m, c in t.a:
            fs = [num(c)]
            for x, e in m:
                y = to_num(f(x))
                fs.append(ipow(y, e) if is_num(y) else mk('app', ('opow', y, num(e)), 'r'))
            out.append(mul(*fs))
        return add(*out) if out else t
    if t.op in ('sym', 'true', 'false'):
        return t
    def g(x):
        if isinstance(x, T): return f(x)
        if isinstance(x, tuple): return tuple(g(y) for y in x)
        return x
    a = tuple(g(x) for x in t.a)
    if a == t.a:
        return t
    if t.op == 'app': 
        if a[0] == 'inv': return div(num(1), a[1])
        return app(a[0], a[1:], t.sort)
    if t.op == 'ite': return ite(*a)
    if t.op == 'lt': return lt0(to_num(a[0]))
    if t.op == 'le': return le0(to_num(a[0]))
    if t.op == 'eq': return eq0(to_num(a[0]))
    if t.op == 'same': return eq(*a)
    if t.op == 'not': return bnot(a[0])
    if t.op == 'and': return band(*a)
    if t.op == 'or': return bor(*a)
    return mk(t.op, a, t.sort)


def subst(t, env, memo=None):
    if memo is None:
        memo = {}
    def f(x):
        if x in env:
            return env[x]
        r = memo.get(x)
        if r is None:
            r = rebuild(x, f)
            memo[x] = r
        return r
    return f(t)


def deriv(t, v):
    """d t / d v; raises ValueError on unknown functions of v"""
    if t is v:
        return num(1)
    if t.op == 'poly':
        out = [num(0)]
        for m, c in t.a:
            for i, (x, e) in enumerate(m):
                dx = deriv(x, v)
                if const(dx) == 0:
                    continue
                rest = [poly({((y, f),): Fraction(1)}) for j, (y, f) in enumerate(m) if j != i]
                out.append(mul(num(c * e), poly({((x, e - 1),): Fraction(1)}) if e != 1 else num(1), dx, *rest))
        return add(*out)
    if v not in subterms(t):
        return num(0)
    if t.op == 'app':
        n, x = t.a[0], t.a[1]
        if n == 'inv':
            return neg(mul(deriv(x, v), t, t))
        if n == 'exp': return mul(t, deriv(x, v))
        if n == 'log': return div(deriv(x, v), x)
        if n == 'sqrt': return div(deriv(x, v), scale(t, 2))
        if n == 'sin': return mul(app('cos', (x,)), deriv(x, v))
        if n == 'cos': return neg(mul(app('sin', (x,)), deriv(x, v)))
        if n == 'tanh': return mul(sub(num(1), mul(t, t)), deriv(x, v))
        if n == 'pow': 
            if v not in subterms(t.a[2]):
                return mul(t.a[2], app('pow', (x, sub(t.a[2], num(1)))), deriv(x, v))
    if t.op == 'ite' and v not in subterms(t.a[0]):
        return ite(t.a[0], deriv(t.a[1], v), deriv(t.a[2], v))
    if t.op == 'ite':
        return ite(t.a[0], deriv(t.a[1], v), deriv(t.a[2], v))
    raise ValueError('no derivative for %s' % show(t))


# ------------------------------------------------------------------ linear entailment (relational domain)
def _lin(p):
    """linear form over monomials"""
    return {m: c for m, c in monos(p).items()}


class Infeasible(Exception):
    pass


def feasible(cons, want_point=False):
    """cons: list of (linear dict incl. () const, kind) meaning  lin < 0 ('lt'), <= 0 ('le'), == 0 ('eq').
    Exact rational feasibility by Fourier-Motzkin with Gaussian elimination of equalities.
    Returns (bool, point or None). Gives up (True, None) when too large."""
    rows = []
    for lin, kind in cons:
        rows.append((dict(lin), kind))
    order = []          # (var, lowers, uppers) or (var, 'eq', expr) for back substitution
    while True:
        # constants
        nr = []
        for lin, k in rows:
            lin = {m: c for m, c in lin.items() if c != 0}
            vs = [m for m in lin if m != ()]
            if not vs:
                c = lin.get((), Fraction(0))
                if (k == 'lt' and not c < 0) or (k == 'le' and not c <= 0) or (k == 'eq' and c != 0):
                    return False, None
                continue
            nr.append((lin, k))
        # dedupe (scale)
        seen = {}
        for lin, k in nr:
            vs = sorted((m for m in lin if m != ()), key=_mono_key)
            s = abs(lin[vs[0]])
            key = (tuple((m, lin[m] / s) for m in vs), k == 'eq')
            c = lin.get((), Fraction(0)) / s
            if k == 'eq':
                key = (key[0], c, 'eq')
                seen[key] = (lin, k)
            else:
                o = seen.get(key)
                if o is None or c > o[2] or (c == o[2] and k == 'lt'):
                    seen[key] = (lin, k, c)
        rows = [(v[0], v[1]) for v in seen.values()]
        if not rows:
            break
        # equality elimination
        e = next(((lin, k) for lin, k in rows if k == 'eq'), None)
        if e is not None:
            lin = e[0]
            v = min((m for m in lin if m != ()), key=_mono_key)
            cv = lin[v]
            expr = {m: -c / cv for m, c in lin.items() if m != v}
            order.append((v, 'eq', expr))
            out = []
            first = True
            for l2, k2 in rows:
                if l2 is lin:
                    continue
                if v in l2:
                    f = l2[v]
                    n = {m: c for m, c in l2.items() if m != v}
                    for m, c in expr.items():
                        n[m] = n.get(m, Fraction(0)) + f * c
                    out.append((n, k2))
                else:
                    out.append((l2, k2))
            rows = out
            continue
        # choose variable with minimal product
        cnt = {}
        for lin, k in rows:
            for m, c in lin.items():
                if m != ():
                    p = cnt.setdefault(m, [0, 0])
                    p[c > 0] += 1
        v = min(cnt, key=lambda m: (cnt[m][0] * cnt[m][1] - cnt[m][0] - cnt[m][1], _mono_key(m)))
        lo, up, rest = [], [], []
        for lin, k in rows:
            c = lin.get(v, 0)
            if c == 0:
                rest.append((lin, k))
            else:
                ex = {m: -x / c for m, x in lin.items() if m != v}
                (up if c > 0 else lo).append((ex, k))
        order.append((v, lo, up))
        if len(lo) * len(up) + len(rest) > 1500:
            return True, None
        for e1, k1 in lo:
            for e2, k2 in up:
                n = dict(e1)
                for m, c in e2.items():
                    n[m] = n.get(m, Fraction(0)) - c
                rest.append((n, 'lt' if 'lt' in (k1, k2) else 'le'))
        rows = rest
    if not want_point:
        return True, None
    pt = {}
    def ev(ex):
        return sum((c * (pt.get(m, Fraction(0)) if m != () else 1) for m, c in ex.items()), Fraction(0))
    for ent in reversed(order):
        if ent[1] == 'eq':
            pt[ent[0]] = ev(ent[2])
        else:
            v, lo, up = ent
            L = max([(ev(e), k == 'lt') for e, k in lo], default=None)
            U = min([(ev(e), k != 'lt') for e, k in up], default=None)
            if L is None and U is None:
                x = Fraction(0)
            elif L is None:
                x = Fraction(math.floor(U[0])) if not (U[0].denominator == 1 and not U[1]) else U[0] - 1
            elif U is None:
                x = Fraction(math.ceil(L[0])) if not (L[0].denominator == 1 and L[1]) else L[0] + 1
            else:
                a, b = L[0], U[0]
                x = (a + b) / 2
                for cand in (math.ceil(a), math.ceil(a) + 1, math.floor(b)):
                    if (a < cand or (a == cand and not L[1])) and (cand < b or (cand == b and U[1])):
                        x = Fraction(cand)
                        break
            pt[v] = x
    return True, pt


def _literals_to_cons(lits):
    cons, diseq = [], []
    for l in lits:
        if l.op == 'lt':
            p = l.a[0]
            if int_valued(p):
                cons.append((_lin(add(p, num(1))), 'le'))
            else:
                cons.append((_lin(p), 'lt'))
        elif l.op == 'le':
            cons.append((_lin(l.a[0]), 'le'))
        elif l.op == 'eq':
            cons.append((_lin(l.a[0]), 'eq'))
        elif l.op == 'not' and l.a[0].op == 'eq':
            diseq.append(l.a[0].a[0])
    return cons, diseq


def axioms(terms_):
    """defining inequalities of rounding/division atoms occurring in the terms"""
    ax = []
    seen = set()
    for t in terms_:
        subterms(t, seen)
    for x in list(seen):
        if x.op != 'app':
            continue
        n = x.a[0]
        if n == 'floor':
            ax += [le(x, x.a[1]), lt(x.a[1], add(x, num(1)))]
        elif n == 'ceil':
            ax += [le(x.a[1], x), lt(x, add(x.a[1], num(1)))]
        elif n == 'trunc':
            ax += [lt(sub(x, x.a[1]), num(1)), lt(sub(x.a[1], x), num(1))]
            ax += [('split', ge(x.a[1], num(0)), le(x, x.a[1]), le(x.a[1], x)), ('split', ge(x.a[1], num(0)), ge(x, num(0)), le(x, num(0)))]
        elif n == 'round':
            ax += [le(sub(x, x.a[1]), num(Fraction(1, 2))), le(sub(x.a[1], x), num(Fraction(1, 2)))]
        elif n == 'idiv':
            b = const(x.a[2])
            if b is not None and b > 0:
                r = sub(x.a[1], scale(x, b))
                ax += [lt(r, num(b)), lt(neg(r), num(b))]
                ax += [('split', ge(x.a[1], num(0)), band(ge(r, num(0)), ge(x, num(0))), band(le(r, num(0)), le(x, num(0))))]
        elif n == 'imod':
            b = const(x.a[2])
            if b is not None and b > 0:
                ax += [lt(x, num(b)), lt(neg(x), num(b))]
                ax += [('split', ge(x.a[1], num(0)), ge(x, num(0)), le(x, num(0)))]
            else:
                B = x.a[2]
                ax += [('split', gt(B, num(0)), band(lt(x, B), lt(neg(x), B)), TRUE)]
                ax += [('split', ge(x.a[1], num(0)), ge(x, num(0)), le(x, num(0)))]
        elif n == 'sqrt':
            ax += [ge(x, num(0))]
        elif n == 'exp':
            ax += [gt(x, num(0))]
        elif n in ('size', 'vsize'):
            ax += [ge(x, num(0))]
    return ax


def dnf_literals(c):
    """list of conjunction-lists (small)"""
    if c.op == 'and':
        r = [[]]
        for x in c.a:
            d = dnf_literals(x)
            r = [p + q for p in r for q in d]
            if len(r) > 512:
                raise OverflowError
        return r
    if c.op == 'or':
        r = []
        for x in c.a:
            r += dnf_literals(x)
        return r
    if c is TRUE:
        return [[]]
    if c is FALSE:
        return []
    return [[c]]


def split_ites(ts):
    """first conditional atom inside the list of terms (innermost condition first)"""
    for t in ts:
        r = _split.get(t, 0)
        if r == 0:
            r = _split[t] = _split_ites(t)
        if r is not None:
            return r
    return None


_split = {}


def _split_ites(t):
    for x in sorted(subterms(t), key=lambda z: len(z.sk)):
        if x.op == 'ite':
            c = x.a[0]
            if not any(y.op == 'ite' for y in subterms(c)):
                return atom_of(c)
    return None


def atom_of(c):
    while c.op in ('and', 'or', 'not'):
        c = c.a[0]
    return c


def replace_cond(t, c, val):
    """substitute truth value of condition atom c (and of its negation)"""
    if t.op in ('sym', 'true', 'false'):
        return boolc(val) if t is c else t
    k = (t, c, val)
    r = _rc.get(k)
    if r is None:
        if len(_rc) > 2000000:
            _rc.clear()
        r = _rc[k] = subst(t, {c: boolc(val), bnot(c): boolc(not val)})
    return r


_rc = {}


MAXCASES = 4000


class Giveup(Exception):
    pass


def cases(conj, goals=()):
    """split a conjunction of conditions + goal terms into leaves without conditional values;
    yields (list of literals, list of goal terms)"""
    budget = [MAXCASES]

    def rec(lits, pend, goals):
        budget[0] -= 1
        if budget[0] < 0:
            raise Giveup('too many cases')
        lits = list(lits)
        pend = list(pend)
        while pend:
            c = pend.pop()
            if c is TRUE:
                continue
            if c is FALSE:
                return
            if c.op == 'and':
                pend.extend(c.a)
                continue
            if c.op == 'or':
                rest = list(c.a)
                done = []
                for x in rest:
                    yield from rec(lits, pend + [x] + [bnot(y) for y in done], goals)
                    done.append(x)
                return
            it = split_ites([c])
            if it is not None:
                for v in (True, False):
                    lit = it if v else bnot(it)
                    if bnot(lit) in lits or lit not in lits and not lits_feasible([z for z in lits if z.op != 'not'] + [lit]):
                        continue
                    yield from rec([replace_cond(z, it, v) for z in lits], [replace_cond(z, it, v) for z in pend] + [replace_cond(c, it, v), lit], [replace_cond(g, it, v) for g in goals])
                return
            if c not in lits:
                if bnot(c) in lits:
                    return
                lits.append(c)
        it = split_ites(list(goals))
        if it is not None:
            if not lits_feasible(lits):
                return
            for v in (True, False):
                lit = it if v else bnot(it)
                yield from rec(lits, [lit], [replace_cond(g, it, v) for g in goals])
            return
        yield lits, list(goals)

    yield from rec([], list(conj), list(goals))


def lits_feasible(lits, want_point=False):
    if FALSE in lits:
        return (False, None) if want_point else False
    cons, diseq = _literals_to_cons(lits)
    ok, pt = feasible(cons, want_point)
    if not ok:
        return (False, None) if want_point else False
    if want_point and pt is not None:
        for lin, _ in cons:
            for m in lin:
                if m != () and m not in pt:
                    pt[m] = Fraction(0)          # the value back substitution assumed
    # disequalities: convex set must not lie in the hyperplane
    for p in diseq:
        a, _ = feasible(cons + [(_lin(add(p, num(1)) if int_valued(p) else p), 'le' if int_valued(p) else 'lt')])
        b, _ = feasible(cons + [(_lin(add(neg(p), num(1)) if int_valued(p) else neg(p)), 'le' if int_valued(p) else 'lt')])
        if not a and not b:
            return (False, None) if want_point else False
    return (True, pt) if want_point else True


def _with_axioms(lits, goals=()):
    """expand lits with axioms; yields literal lists (splits produce several)"""
    ax = axioms(list(lits) + [g for g in goals])
    lits = list(lits) + _cleared(lits)
    sets = [list(lits)]
    for a in ax:
        if isinstance(a, tuple):
            _, c, x, y = a
            new = []
            for s in sets:
                s1 = s + [c]
                s2 = s + [bnot(c)]
                f1, f2 = lits_feasible(s1), lits_feasible(s2)
                if f1:
                    new.append(s1 + _conjlits(x))
                if f2:
                    new.append(s2 + _conjlits(y))
            sets = new
            if len(sets) > 64:
                raise Giveup('axiom splits')
        else:
            if a is FALSE:
                return []
            if a is not TRUE:
                sets = [s + _conjlits(a) for s in sets]
    return sets


def _cleared(lits):
    """inequalities with positive denominators, multiplied out"""
    out = []
    for l in lits:
        if l.op not in ('lt', 'le'):
            continue
        den = {x for m in monos(l.a[0]) for x, e in m if e < 0}
        if not den:
            continue
        if all(x.sort in 'ir' and not lits_feasible(list(lits) + [le(x, num(0))]) for x in den):
            p = clear_inv(l.a[0])
            q = lt(p, num(0)) if l.op == 'lt' else le(p, num(0))
            if q is not TRUE:
                out.append(q)
    return out


def _conjlits(c):
    if c is TRUE:
        return []
    if c.op == 'and':
        return [x for y in c.a for x in _conjlits(y)]
    return [c]


def entails(facts, goal):
    """facts (conjunction) imply goal?  True only when proved."""
    try:
        return not any(True for _ in models(facts, goal))
    except (Giveup, OverflowError):
        return False


def models(facts, goal, point=False):
    """yield literal sets (consistent in the relational domain) of facts and not goal"""
    for lits, _ in cases(list(facts) + [bnot(goal)]):
        if not lits_feasible(lits):
            continue
        for s in _with_axioms(lits):
            ok = lits_feasible(s, True)
            if ok[0]:
                yield (s, ok[1]) if point else s


# ------------------------------------------------------------------ evaluation (used only to confirm that two different value numbers really differ)
class NoValue(Exception):
    pass


def _h(*a):
    return zlib.crc32(repr(a).encode())


class Valuation:
    def __init__(self, seed, base=None, irange=(-4, 9), rrange=(-3.0, 5.0), pos=()):
        self.seed, self.base = seed, dict(base or {})
        self.irange, self.rrange = irange, rrange
        self.memo = {}

    def atom(self, t):
        if t in self.base:
            return self.base[t]
        h = _h(self.seed, t.sk, t.op) & 0xffffff
        if t.sort == 'i':
            lo, hi = self.irange
            return lo + h % (hi - lo)
        if t.sort == 'b':
            return bool(h & 1)
        if t.sort == 'r':
            lo, hi = self.rrange
            return lo + (hi - lo) * (h / float(0xffffff))
        return ('o', t.sk)

    def ev(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._ev(t)
            self.memo[t] = r
        return r

    def _ev(self, t):
        if t in self.base:
            return self.base[t]
        op = t.op
        if op == 'poly':
            s = 0
            exact = True
            for m, c in t.a:
                v = c if c.denominator != 1 else int(c)
                for x, e in m:
                    xv = self.ev(x)
                    if isinstance(xv, bool):
                        xv = int(xv)
                    if not isinstance(xv, (int, float, Fraction)):
                        raise NoValue
                    if e < 0:
                        if xv == 0:
                            raise NoValue
                        v = v / (Fraction(xv) if isinstance(xv, int) else xv) ** (-e) if not isinstance(v, int) or not isinstance(xv, int) else Fraction(v) / Fraction(xv) ** (-e)
                    else:
                        try:
                            v = v * xv ** e
                        except (OverflowError, TypeError):
                            raise NoValue
                s = s + v if not (isinstance(s, float) != isinstance(v, float)) else float(s) + float(v)
            return s
        if op == 'sym':
            return self.atom(t)
        if op == 'true': return True
        if op == 'false': return False
        if op == 'ite': return self.ev(t.a[1] if self.ev(t.a[0]) else t.a[2])
        if op == 'lt': return self.ev(t.a[0]) < 0
        if op == 'le': return self.ev(t.a[0]) <= 0
        if op == 'eq': return self.ev(t.a[0]) == 0
        if op == 'same': return self.ev(t.a[0]) == self.ev(t.a[1])
        if op == 'not': return not self.ev(t.a[0])
        if op == 'and': return all(self.ev(x) for x in t.a)
        if op == 'or': return any(self.ev(x) for x in t.a)
        if op == 'app':
            n = t.a[0]
            f = _EV.get(n)
            args = [self.ev(x) if isinstance(x, T) else x for x in t.a[1:]]
            if f:
                try:
                    return f(*[a for a in args])
                except (ValueError, OverflowError, ZeroDivisionError, TypeError):
                    raise NoValue
            key = tuple(round(float(a), 6) if isinstance(a, (float, Fraction)) else a for a in args)
            h = _h(self.seed, n, key) & 0xffffff
            if t.sort == 'i':
                lo, hi = self.irange
                if n in ('size', 'vsize'):
                    lo = 0
                return lo + h % (hi - lo)
            if t.sort == 'b': return bool(h & 1)
            if t.sort == 'r':
                lo, hi = self.rrange
                return lo + (hi - lo) * (h / float(0xffffff))
            return ('o', n, key)
        return ('o', op, tuple(self.ev(x) if isinstance(x, T) else x for x in _flat(t.a)))


def _r(x):
    return int(math.floor(x + 0.5)) if x >= 0 else int(math.ceil(x - 0.5))


_EV = {
    'exp': lambda x: math.exp(x), 'log': lambda x: math.log(x), 'sqrt': lambda x: math.sqrt(x), 'sin': lambda x: math.sin(x), 'cos': lambda x: math.cos(x), 'tan': lambda x: math.tan(x),
    'atan': lambda x: math.atan(x), 'atan2': lambda y, x: math.atan2(y, x), 'asinh': lambda x: math.asinh(x), 'sinh': lambda x: math.sinh(x), 'tanh': lambda x: math.tanh(x), 'asin': lambda x: math.asin(x),
    'floor': lambda x: math.floor(x), 'ceil': lambda x: math.ceil(x), 'trunc': lambda x: int(x), 'round': _r, 'pow': lambda x, y: float(x) ** float(y),
    'inv': lambda x: 1 / (Fraction(x) if isinstance(x, int) else x), 'idiv': lambda a, b: int(abs(a) // abs(b)) * (1 if (a >= 0) == (b > 0) else -1), 'imod': lambda a, b: int(math.fmod(a, b)),
    'hypot': lambda a, b: math.hypot(a, b), 'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3.), x),
}


def leafset(t):
    return {x for x in subterms(t) if x.op == 'sym' or x.op == 'app' and x.a[0] not in _EV and isinstance(x.a[0], str)}


def connected(facts, goals):
    """the facts that share an atom (transitively) with the goals; the others concern other variables and must merely be possible"""
    seen = set()
    for g in goals:
        seen |= leafset(g)
    rest = [(f, leafset(f)) for f in facts]
    if all(s & seen for _, s in rest):
        return list(facts)
    keep = []
    ch = True
    while ch:
        ch = False
        for f, s in list(rest):
            if s & seen or not s:
                keep.append(f)
                rest.remove((f, s))
                seen |= s
                ch = True
    if rest:
        try:
            if not any(lits_feasible(l) for l, _ in cases([f for f, _ in rest], ())):
                return list(facts)
        except (Giveup, OverflowError):
            return list(facts)
    return keep


def differ(a, b, facts=(), tries=400, seed=1, must=()):
    """a valuation satisfying facts that tells a and b apart, or None; literals must are evaluated whatever they mention"""
    facts = connected(facts, (a, b) + tuple(must))
    for k in range(tries):
        rng = random.Random(seed * 7919 + k)
        v = Valuation(rng.randrange(1 << 30), irange=rng.choice([(-4, 9), (0, 5), (-2, 3), (0, 20)]), rrange=rng.choice([(-3.0, 5.0), (0.1, 2.0), (0.0, 10.0)]))
        try:
            if not all(v.ev(f) is True for f in facts):
                continue
            x, y = v.ev(a), v.ev(b)
        except NoValue:
            continue
        if _neq(x, y):
            return v
    return None


def _neq(x, y):
    if isinstance(x, (int, float, Fraction)) and isinstance(y, (int, float, Fraction)) and not isinstance(x, bool) and not isinstance(y, bool):
        x, y = float(x), float(y)
        if math.isnan(x) or math.isnan(y) or math.isinf(x) or math.isinf(y):
            return False
        return abs(x - y) > 1e-6 * (1 + abs(x) + abs(y))
    return x != y


def concretise(lits, budget=None):
    """integer/real values of the symbols for which all literals hold (linear point, then non-linear monomials and fractional integers are fixed one symbol at a time); a dict or None"""
    budget = budget if budget is not None else [150]

    def rec(lits, fixed):
        budget[0] -= 1
        if budget[0] < 0:
            return None
        out = []
        for l in lits:
            l = subst(l, fixed[-1]) if fixed else l
            if l is FALSE:
                return None
            if l is not TRUE:
                out.extend(_conjlits(l))
        try:
            sets = _with_axioms(out)
        except (Giveup, OverflowError):
            return None
        for st in sets[:4]:
            ok, pt = lits_feasible(st, True)
            if not ok or pt is None:
                continue
            # disequalities need not hold at the chosen point
            pick = None
            vals = {}
            for m, v in pt.items():
                if len(m) == 1 and m[0][1] == 1:
                    vals[m[0][0]] = v
            deg = {}
            for m in pt:
                if m and not (len(m) == 1 and m[0][1] == 1):
                    for x, e in m:
                        deg[x] = deg.get(x, 0) + e
            for l in out:
                for x in subterms(l):
                    if x.op == 'app' and x.a[0] in ('idiv', 'imod', 'floor', 'ceil', 'trunc', 'round', 'inv'):
                        for y in x.a[1:]:
                            for z in subterms(y):
                                if (z.op == 'sym' or z.op == 'app' and isinstance(z.a[0], str) and z.a[0] not in _EV and z.a[0] != 'fld') and z.sort in 'ir':
                                    deg[z] = deg.get(z, 0) + (3 if y is x.a[-1] else 1)
            leafs = [x for x in deg if x.op == 'sym' or (x.op == 'app' and x.a[0] not in _EV)]
            if leafs:
                pick = max(leafs, key=lambda x: (deg[x], x.sk))
            else:
                pick = next((x for x, v in vals.items() if x.sort == 'i' and v.denominator != 1 and (x.op == 'sym' or x.a[0] not in _EV)), None)
            if pick is None:
                res = {x: v for x, v in vals.items() if x.op == 'sym' or (x.op == 'app' and x.a[0] not in _EV)}
                bad = [l for l in out if l.op == 'not' and l.a[0].op == 'eq' and const(subst(l.a[0].a[0], {k: num(v, k.sort) for k, v in res.items()})) == 0]
                if not bad:
                    for f in fixed:
                        for k, v in f.items():
                            res[k] = const(v)
                    # integer rounding and division are only relaxed by the linear relations: the point must satisfy the literals as they are
                    if exact:
                        vv = Valuation(0, {k: (int(v) if v.denominator == 1 else v) for k, v in res.items()})
                        try:
                            if not all(vv.ev(l) is True for l in lits0):
                                # move on: fix one more symbol under a rounding
                                free = sorted((z for z in relax if z in res and not any(z in f for f in fixed)), key=lambda z: z.sk)
                                if not free:
                                    return None
                                z = free[0]
                                for c in (1, 2, 0, 3, 4, -1):
                                    r = rec(out, fixed + [{z: num(c, z.sort)}])
                                    if r is not None:
                                        return r
                                return None
                        except NoValue:
                            pass
                    return res
                p = bad[0].a[0].a[0]
                for side in (lt0(p), lt0(neg(p))):
                    r = rec(out + [side], fixed + [{}])
                    if r is not None:
                        return r
                continue
            v0 = vals.get(pick, Fraction(1))
            cand = []
            for c in ((math.floor(v0), math.ceil(v0)) if pick.sort == 'i' else (v0,)) + (math.floor(v0) + 1, 1, 2, math.floor(v0) - 1, 3, 0, -1):
                if c not in cand:
                    cand.append(c)
            for c in cand:
                r = rec(out, fixed + [{pick: num(c, pick.sort)}])
                if r is not None:
                    return r
        return None

    lits0 = list(lits)
    relax = set()
    for l in lits0:
        for x in subterms(l):
            if x.op == 'app' and x.a[0] in ('idiv', 'imod', 'floor', 'ceil', 'trunc', 'round'):
                relax |= {z for y in x.a[1:] for z in subterms(y) if z.sort in 'ir' and (z.op == 'sym' or z.op == 'app' and z.a[0] not in _EV)}
    exact = bool(relax)
    try:
        return rec(list(lits), [])
    except (Giveup, OverflowError, ZeroDivisionError):
        return None


def _diffargs(x, y):
    """argument pairs in which uninterpreted applications of x and y differ"""
    ax = [z for z in subterms(x) if z.op == 'app' and z.a[0] not in _EV and isinstance(z.a[0], str)]
    ay = [z for z in subterms(y) if z.op == 'app' and z.a[0] not in _EV and isinstance(z.a[0], str)]
    sx_, sy_ = set(ax), set(ay)
    out = []
    for p in ax:
        if p in sy_ and x is not y:
            continue
        for q in ay:
            if (q in sx_ and x is not y) or q is p or q.a[0] != p.a[0] or len(p.a) != len(q.a):
                continue
            for u, v in zip(p.a[1:], q.a[1:]):
                if isinstance(u, T) and isinstance(v, T) and u is not v and is_num(u) and is_num(v):
                    out.append((u, v))
    return out[:8]


def witness(lits, x, y, facts=()):
    """a valuation satisfying literals lits (and facts) for which x and y differ, found from points of the relational domain"""
    x, y = to_num(x) if x.sort == 'b' else x, to_num(y) if y.sort == 'b' else y
    tries = []
    if is_num(x) and is_num(y):
        for u, v in _diffargs(x, y):
            tries.append([lt(u, v)])
            tries.append([lt(v, u)])
        la = mk('tuple', tuple(lits), 'o')
        for u, v in _diffargs(la, la):
            tries.append([lt(u, v)])
            tries.append([lt(v, u)])
        d = sub(x, y)
        tries.append([lt0(d)])
        tries.append([lt0(neg(d))])
    tries.append([])
    for extra in tries:
        ex = []
        for e in extra:
            if e is FALSE:
                break
            try:
                leaf = [l for l, _ in cases(list(lits) + [e])][:6]
            except (Giveup, OverflowError):
                continue
            for l in leaf:
                res = concretise(l)
                if res is None:
                    continue
                base = {k: (int(v) if v.denominator == 1 else (v if k.sort == 'r' else math.floor(v))) for k, v in ((k, Fraction(v)) for k, v in res.items())}
                w = _try_base(base, x, y, list(facts) + list(lits))
                if w is not None:
                    return w
        if not extra:
            res = concretise(lits)
            if res is not None:
                base = {k: (int(v) if v.denominator == 1 else (v if k.sort == 'r' else math.floor(v))) for k, v in ((k, Fraction(v)) for k, v in res.items())}
                w = _try_base(base, x, y, list(facts) + list(lits))
                if w is not None:
                    return w
    return None


def _try_base(base, a, b, facts, n=12):
    # values of uninterpreted applications are only kept where a literal needs them
    for bs in ({k: v for k, v in base.items() if k.op == 'sym'}, base):
        for k in range(n):
            v = Valuation(k, bs)
            try:
                if all(v.ev(f) is True for f in facts) and _neq(v.ev(a), v.ev(b)) and functional(v, bs, [a, b] + list(facts)):
                    return v
            except NoValue:
                pass
    return None


def equal(a, b, facts=()):
    """(True, None) equal value numbers on every leaf; (False, why) a distinguishing witness exists; (None, why) undecided"""
    if a is b:
        return True, None
    bads = []
    gave = False
    try:
        if is_num(a) and is_num(b) or (a.sort == 'b' and b.sort == 'b'):
            if a.sort == 'b':
                a2, b2 = to_num(a), to_num(b)
            else:
                a2, b2 = a, b
            for lits, (x, y) in cases(list(facts), (a2, b2)):
                if x is y:
                    continue
                d = clear_inv(sub(x, y))
                if const(d) == 0:
                    continue
                if _samelog(x, y):
                    continue
                if not lits_feasible(lits):
                    continue
                sets = _with_axioms(lits)
                if not any(lits_feasible(s) for s in sets):
                    continue
                # equality implied by the facts?
                if entails(lits, eq0(sub(x, y))):
                    continue
                if congruent(lits, x, y) or solved(lits, x, y):
                    continue
                bads.append((lits, x, y))
                if len(bads) >= 6:
                    gave = True
                    break
            if not bads and not gave:
                return True, None
    except (Giveup, OverflowError):
        pass
    w = differ(a, b, facts)
    for lits, x, y in bads if w is None else ():
        w = differ(x, y, list(facts) + lits, tries=60, must=lits)
        if w is None:
            try:
                w = witness(lits, x, y, facts)
            except (Giveup, OverflowError):
                w = None
        # leaf-guided point
        if w is None:
            ok, pt = lits_feasible(lits, True)
            if ok and pt:
                w = _point_val(pt, x, y, list(facts) + lits)
        if w is not None:
            break
    if w is not None:
        return False, describe(w, a, b)
    return None, 'no normal form equality and no distinguishing valuation'


def solved(lits, x, y):
    """x = y after solving the equations among the literals for an atom (A == 0 makes A f(..) vanish)"""
    for l in lits:
        if l.op != 'eq':
            continue
        m = monos(l.a[0])
        for k, c in m.items():
            if len(k) == 1 and k[0][1] == 1 and not any(k2 != k and any(k[0][0] in subterms(z) for z, _ in k2) for k2 in m):
                at = k[0][0]
                if any(at in subterms(z) and z is not at for z in subterms(at) if z is not at):
                    continue
                v = scale(sub(l.a[0], scale(at, c)), -1 / Fraction(c))
                x2, y2 = subst(x, {at: v}), subst(y, {at: v})
                if x2 is y2 or const(clear_inv(sub(x2, y2))) == 0:
                    return True
    return False


def congruent(lits, x, y):
    """x = y by replacing applications of x by ones of y whose arguments are equal under the literals"""
    ax = [z for z in subterms(x) if z.op == 'app' and z.a[0] not in _EV and isinstance(z.a[0], str)]
    ay = {z for z in subterms(y) if z.op == 'app' and z.a[0] not in _EV and isinstance(z.a[0], str)}
    env = {}
    for p in ax:
        if p in ay:
            continue
        for q in ay:
            if q.a[0] == p.a[0] and len(p.a) == len(q.a) and all(u is v or (isinstance(u, T) and isinstance(v, T) and is_num(u) and is_num(v) and entails(lits, eq0(sub(u, v)))) for u, v in zip(p.a[1:], q.a[1:])):
                env[p] = q
                break
    if not env:
        return False
    x2 = subst(x, env)
    return x2 is y or const(clear_inv(sub(x2, y))) == 0


def _samelog(x, y):
    """x = y because both are products whose logarithms have the same normal form"""
    if not any(z.op == 'app' and z.a[0] == 'exp' and any(w.op == 'app' and w.a[0] == 'inv' for w in subterms(z)) for t in (x, y) for z in subterms(t)):
        return False
    if len(monos(x)) != 1 or len(monos(y)) != 1:
        return False
    return const(clear_inv(sub(app('log', (x,), 'r'), app('log', (y,), 'r')))) == 0


def _point_val(pt, a, b, facts):
    base = {}
    for m, v in pt.items():
        if len(m) == 1 and m[0][1] == 1:
            x = m[0][0]
            if x.op == 'sym' or (x.op == 'app' and x.a[0] not in _EV):
                base[x] = int(v) if v.denominator == 1 else (v if x.sort == 'r' else math.floor(v))
    for k in range(60):
        v = Valuation(k, base)
        try:
            if all(v.ev(f) is True for f in facts) and _neq(v.ev(a), v.ev(b)) and functional(v, base, [a, b] + list(facts)):
                return v
        except NoValue:
            pass
    return None


def functional(v, base, terms_):
    """uninterpreted applications that were given values still form a function of their evaluated arguments"""
    if not any(x.op == 'app' for x in base):
        return True
    seen = set()
    for t in terms_:
        subterms(t, seen)
    val = {}
    for x in seen:
        if x.op == 'app' and x.a[0] not in _EV and x.sort in 'irb':
            try:
                k = (x.a[0],) + tuple(v.ev(y) if isinstance(y, T) else y for y in x.a[1:])
                r = v.ev(x)
            except NoValue:
                continue
            if k in val and _neq(val[k], r):
                return False
            val[k] = r
    return True


def refute(facts, goal, tries=600, seed=3):
    """valuation satisfying facts and violating goal (concrete confirmation of a failed entailment) or None"""
    try:
        n = 0
        for s, pt in models(facts, goal, point=True):
            n += 1
            if n > 40:
                break
            base = {}
            for m, v in (pt or {}).items():
                if len(m) == 1 and m[0][1] == 1:
                    x = m[0][0]
                    if x.op == 'sym' or (x.op == 'app' and x.a[0] not in _EV):
                        base[x] = int(v) if v.denominator == 1 else (float(v) if x.sort == 'r' else math.floor(v))
            for k in range(8):
                v = Valuation(k, base)
                try:
                    if all(v.ev(f) is True for f in facts) and v.ev(goal) is False and functional(v, base, [goal] + list(facts)):
                        return v
                except NoValue:
                    pass
    except (Giveup, OverflowError):
        pass
    for k in range(tries):
        rng = random.Random(seed * 104729 + k)
        v = Valuation(rng.randrange(1 << 30), irange=rng.choice([(-4, 9), (0, 5), (-2, 3), (0, 20), (-20, 40)]), rrange=rng.choice([(-3.0, 5.0), (0.1, 2.0), (0.0, 10.0)]))
        try:
            if all(v.ev(f) is True for f in facts) and v.ev(goal) is False:
                return v
        except NoValue:
            continue
    return refute_slices(facts, goal)


def refute_slices(facts, goal, tries=14):
    """counter-valuation on a slice where the real quantities are fixed to simple constants (rounding then becomes integer arithmetic)"""
    rs = sorted({x for t in list(facts) + [goal] for x in subterms(t) if x.op == 'sym' and x.sort == 'r'}, key=lambda z: z.sk)
    if not rs:
        return None
    vals = [Fraction(1), Fraction(1), Fraction(1), Fraction(0), Fraction(1, 2), Fraction(2), Fraction(1, 4), Fraction(5), Fraction(-1)]
    for k in range(tries):
        rng = random.Random(77 + k)
        m = {x: num(Fraction(1) if k == 0 else rng.choice(vals), 'r') for x in rs}
        try:
            fs = [subst(f, m) for f in facts]
            g = subst(goal, m)
        except ZeroDivisionError:
            continue
        if any(f is FALSE for f in fs) or g is TRUE:
            continue
        try:
            n = 0
            for s, pt in models([f for f in fs if f is not TRUE], g, point=True):
                n += 1
                if n > 12:
                    break
                base = {x: float(const(c)) for x, c in m.items()}
                for mm, v in (pt or {}).items():
                    if len(mm) == 1 and mm[0][1] == 1:
                        x = mm[0][0]
                        if x.op == 'sym' or (x.op == 'app' and x.a[0] not in _EV):
                            base[x] = int(v) if v.denominator == 1 else (float(v) if x.sort == 'r' else math.floor(v))
                for q in range(4):
                    v = Valuation(q, base)
                    try:
                        if all(v.ev(f) is True for f in facts) and v.ev(goal) is False and functional(v, base, [goal] + list(facts)):
                            return v
                    except (NoValue, ZeroDivisionError, OverflowError):
                        pass
        except (Giveup, OverflowError):
            pass
    return None


def describe(v, *ts):
    out = []
    seen = set()
    for t in ts:
        subterms(t, seen)
    for x in sorted(seen, key=lambda z: z.sk):
        if x.op == 'sym' and x.sort in 'irb':
            try:
                val = v.ev(x)
                out.append('%s=%s' % (show(x), ('%.4g' % val) if isinstance(val, float) else val))
            except NoValue:
                pass
    return ', '.join(out[:12])


# ------------------------------------------------------------------ printing
def show(t, depth=0):
    if not isinstance(t, T):
        return str(t)
    if depth > 12:
        return '...'
    s = lambda x: show(x, depth + 1)
    op = t.op
    if op == 'sym': return str(t.a[0])
    if op == 'true': return 'true'
    if op == 'false': return 'false'
    if op == 'poly':
        if not t.a:
            return '0'
        out = []
        for m, c in t.a:
            f = '*'.join(s(x) + ('^%d' % e if e != 1 else '') for x, e in m)
            if not m: out.append(str(c))
            elif c == 1: out.append(f)
            elif c == -1: out.append('-' + f)
            else: out.append('%s*%s' % (c, f))
        return '(' + ' + '.join(out).replace('+ -', '- ') + ')' if len(out) > 1 else out[0]
    if op == 'ite': return '(%s ? %s : %s)' % tuple(s(x) for x in t.a)
    if op == 'lt': return '%s < 0' % s(t.a[0])
    if op == 'le': return '%s <= 0' % s(t.a[0])
    if op == 'eq': return '%s == 0' % s(t.a[0])
    if op == 'same': return '%s == %s' % (s(t.a[0]), s(t.a[1]))
    if op == 'not': return '!(%s)' % s(t.a[0])
    if op == 'and': return '(' + ' && '.join(s(x) for x in t.a) + ')'
    if op == 'or': return '(' + ' || '.join(s(x) for x in t.a) + ')'
    if op == 'app': return '%s(%s)' % (t.a[0], ', '.join(s(x) if isinstance(x, T) else str(x) for x in t.a[1:]))
    return '%s%s' % (op, tuple(s(x) if isinstance(x, T) else x for x in t.a))


def mkiter(cont, idx):
    """iterator value: position idx of container cont"""
    return mk('app', ('iter', cont, idx), 'o')


def isiter(v):
    return isinstance(v, T) and v.op == 'app' and v.a[0] == 'iter'




def equal_obj(a, b, facts=()):
    """object-valued terms: structural comparison, numeric sub-terms compared by value number"""
    if a is b:
        return True, None
    if a.sort != 'o' and b.sort != 'o':
        return equal(a, b, facts)
    if a.op == 'ite' or b.op == 'ite':
        c = a.a[0] if a.op == 'ite' else b.a[0]
        for v, f in ((True, c), (False, bnot(c))):
            x = replace_cond(a, c, v)
            y = replace_cond(b, c, v)
            if not list(models(list(facts) + [f], FALSE))[:1]:
                continue
            r, w = equal_obj(x, y, list(facts) + [f])
            if r is not True:
                return r, w
        return True, None
    if a.op != b.op or (a.op == 'app' and (a.a[0] != b.a[0] or len(a.a) != len(b.a))):
        return False, '%s is not %s' % (show(a), show(b))
    if a.op == 'sym':
        return False, '%s is not %s' % (show(a), show(b))
    res = True
    for x, y in zip(a.a, b.a):
        if isinstance(x, T) and isinstance(y, T):
            r, w = equal_obj(x, y, facts) if x.sort == 'o' or y.sort == 'o' else equal(x, y, facts)
            if r is False:
                return False, w
            if r is None:
                res = None
        elif x != y:
            return False, '%s is not %s' % (x, y)
    return res, None


def div_cases(lits, goals, kmax=8):
    """leaves in which every truncating division a/D, a%D inside literals and goals has a known quotient; yields (literals, goals) or None when a quotient may exceed kmax"""
    ds = [x for t in list(lits) + list(goals) for x in subterms(t) if x.op == 'app' and x.a[0] in ('idiv', 'imod')]
    ds = [x for x in ds if not any(y is not x and y.op == 'app' and y.a[0] in ('idiv', 'imod') for y in subterms(x))]
    if not ds:
        yield lits, goals
        return
    x = min(ds, key=lambda z: z.sk)
    a, D = x.a[1], x.a[2]
    lin = lambda extra: [l for l in lits if l.op in ('lt', 'le', 'eq') and not any(y.op == 'app' and y.a[0] in ('idiv', 'imod') for y in subterms(l))] + extra
    if lits_feasible(lin([lt(a, scale(D, -kmax))] if True else [])) or lits_feasible(lin([gt(a, scale(D, kmax))])):
        yield None
    if lits_feasible(lin([le(D, num(0))])):
        yield None
        return
    for k in range(-kmax, kmax + 1):
        kd = scale(D, k)
        alts = []
        if k >= 0:
            alts.append([ge(a, num(0)), ge(a, kd), lt(a, add(kd, D))])
        if k <= 0:
            alts.append([lt(a, num(0)), le(a, kd), gt(a, sub(kd, D))])
        for c in alts:
            c = [l for l in c if l is not TRUE]
            if FALSE in c or not lits_feasible(lin(c)):
                continue
            env = {app('idiv', (a, D), 'i'): num(k, 'i'), app('imod', (a, D), 'i'): sub(a, kd)}
            ls = [subst(l, env) for l in lits]
            if FALSE in ls:
                continue
            yield from div_cases([z for l in ls if l is not TRUE for z in _conjlits(l)] + c, [subst(g, env) for g in goals], kmax)


def equal_div(a, b, facts=(), kmax=8):
    """equality of terms with truncating divisions by symbolic divisors, by quotient cases"""
    open_ = None
    try:
        for lits, gs in cases(list(facts), (a, b)):
            if not lits_feasible(lits):
                continue
            for r in div_cases(lits, gs, kmax):
                if r is None:
                    open_ = 'quotient out of the range considered'
                    continue
                for l2, (x, y) in cases(r[0], tuple(r[1])):
                    if x is y or not lits_feasible(l2) or entails(l2, eq0(sub(x, y))):
                        continue
                    w = witness(l2, x, y)
                    if w is not None:
                        return False, describe(w, x, y, *l2)
                    open_ = 'no distinguishing valuation: %s / %s' % (show(x), show(y))
    except (Giveup, OverflowError):
        return None, 'too many cases'
    return (True, None) if open_ is None else (None, open_)
