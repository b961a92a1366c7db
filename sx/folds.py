"""Sums over pixel rectangles: what one summation adds per pixel and which pixels it runs over."""
from .images import *
from . import terms as TT
from .report import lost, foreign


class Fold:
    """base + SUM over ranges of body"""
    def __init__(self, base, body, rngs):
        self.base, self.body, self.rngs = base, body, rngs      # rngs: [(bound symbol, count)] outermost first


def unfold(t):
    """Fold of t = base + SUM(..(SUM(body, n0)).., nk), or None"""
    if not isinstance(t, T) or t.op not in ('poly', 'app'):
        return None
    base, S, c = num(0), None, None
    for m, k in monos(t).items():
        sums = [x for x, e in m if x.op == 'app' and x.a[0] == 'SUM']
        if not sums:
            base = add(base, poly({m: k}))
        elif S is None and len(sums) == 1:
            S = sums[0]
            c = poly({tuple(z for z in m if z[0] is not S): k})
        else:
            return None
    if S is None:
        return None
    body, rngs = flat(S)
    return Fold(base, mul(c, body), rngs)


def flat(S):
    body, ns = S.a[1], S.a[2:]
    # ranges of the bound variables of this level: the deepest numbering inside the body belongs to it
    d = -1
    for x in subterms(body):
        if x.op == 'sym' and str(x.a[0]).startswith('$'):
            d = max(d, int(str(x.a[0])[1:].split('.')[0]))
    inner = [x for x in subterms(body) if x.op == 'app' and x.a[0] == 'SUM']
    depth = d
    if inner:
        di = max(int(str(x.a[0])[1:].split('.')[0]) for y in inner for x in [y] if False) if False else None
    g, b, w = TRUE, body, num(1)
    # SUM(c * SUM(..)) and SUM(g ? SUM(..) : 0)
    while True:
        if b.op == 'ite' and const(b.a[2]) == 0:
            g, b = band(g, b.a[0]), b.a[1]
            continue
        if b.op == 'ite' and const(b.a[1]) == 0:
            g, b = band(g, bnot(b.a[0])), b.a[2]
            continue
        f = unfold(b) if inner else None
        break
    outer = [(mk('sym', ('$%d.%d' % (lvl(S), i),), 'i'), n) for i, n in enumerate(ns)]
    if f is not None and const(f.base) == 0:
        bb = f.body if g is TRUE else ite(g, f.body, num(0))
        return bb, outer + f.rngs
    return body, outer


def lvl(S):
    """nesting level of a summation: number of summations nested in it"""
    n = 0
    for x in subterms(S.a[1]):
        if x.op == 'app' and x.a[0] == 'SUM':
            n = max(n, lvl(x) + 1)
    return n


def over_rect(f, i, j, w, h, facts=()):
    """the body of fold f for pixel (i, j) when it runs over exactly w x h pixels: (body, None) or (None, why) / (False, why) when it provably does not"""
    if f is None:
        return None, 'not a sum'
    facts = list(facts)
    if len(f.rngs) == 2:
        (s0, n0), (s1, n1) = f.rngs
        for (sy, ny), (sx_, nx) in (((s0, n0), (s1, n1)), ((s1, n1), (s0, n0))):
            a, b = equal(nx, w, facts), equal(ny, h, facts)
            if a[0] and b[0]:
                return subst(f.body, {sx_: i, sy: j}), None
        # neither orientation: a definite mismatch?
        r = [equal(nx, w, facts) for nx in (n0, n1)] + [equal(ny, h, facts) for ny in (n0, n1)]
        if all(x[0] is not None for x in r) and not any(lost(n) or foreign(n, band(eq(w, num(0)), eq(h, num(0)), *facts)) for n in (n0, n1)) and (not (r[0][0] or r[1][0]) or not (r[2][0] or r[3][0])):
            return False, 'the loops run over %s x %s pixels instead of %s x %s' % (show(n1), show(n0), show(w), show(h))
        return None, 'loop ranges %s, %s' % (show(n0), show(n1))
    if len(f.rngs) == 1:
        s, n = f.rngs[0]
        if equal(n, mul(w, h), facts)[0]:
            lin = add(i, mul(j, w))
            b = subst(f.body, {s: lin})
            env = {}
            for x in subterms(b):
                if x.op == 'app' and x.a[0] in ('imod', 'idiv') and equal(x.a[2], w)[0] and equal(x.a[1], lin)[0]:
                    env[x] = i if x.a[0] == 'imod' else j
            return subst(b, env), None
        return None, 'single loop over %s' % show(n)
    return None, '%d loops' % len(f.rngs)


def sum_check(ck, rule, f, t, i, j, w, h, want, facts, what, base=None):
    """t = base + sum over the w x h pixels (i, j) of want"""
    fo = unfold(t)
    if fo is None:
        return ck.undecided(rule, f, '%s: not recognised as a sum: %s' % (what, show(t) if isinstance(t, T) else t))
    fs = list(facts) + inrect(i, j, w, h)
    b, why = over_rect(fo, i, j, w, h, facts)
    if b is False:
        return ck.fail(rule, f, '%s: %s' % (what, why))
    if b is None:
        return ck.undecided(rule, f, '%s: %s' % (what, why))
    if base is not None:
        ck.eqv(rule, f, fo.base, base, facts=facts, what=what + ': initial value')
    return ck.eqv(rule, f, b, want, facts=fs, what=what)


def inbounds(ck, rule, f, effects, facts=(), what='', skip=lambda e: False):
    """every chunk requested and every pixel read lies inside its image / chunk"""
    for e in effects:
        if e.kind not in ('getchunk', 'readpix', 'writepix') or skip(e):
            continue
        d = e.d
        pcs = [p for p in e.pc if p is not TRUE] + list(facts)
        img = d['img']
        if e.kind == 'getchunk':
            g = band(ge(d['x'], num(0)), ge(d['y'], num(0)), le(add(d['x'], d['w']), dim(img, 'width')), le(add(d['y'], d['h']), dim(img, 'height')))
            t = 'chunk of %s stays inside it' % show(img)
        else:
            g = band(ge(d['x'], num(0)), ge(d['y'], num(0)), lt(d['x'], dim(img, 'width')), lt(d['y'], dim(img, 'height')))
            t = 'pixel of %s is %s inside it' % (show(img)[:60], 'read' if e.kind == 'readpix' else 'written')
        ck.entail(rule, f, pcs, g, what='%s: %s' % (what, t))
