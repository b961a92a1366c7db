"""C28: background cells, replacement of undefined cells, median filter, background-aware convolution and the assembly of the background model."""
from sx.images import *
from sx.folds import unfold, over_rect
from sx.report import lost, foreign
from checks import c29
from checks.c29 import xyt, solve2, pixel_terms, written, W, H, inrect
from checks.c31 import rec, body
import re

B = 'SEImplementation/src/lib/Background/SE/'
SEG = 'SEImplementation/src/lib/Segmentation/BgConvolutionImageSource.cpp'
THIS = sym('this', 'o')
ONE, HALF = num(1), num(Fraction(1, 2))
I, J = sym('i', 'i'), sym('j', 'i')
_ck = [None]


def summ(F, f, **k):
    k.setdefault('this', THIS)
    k.setdefault('st', State())
    s = summarise(F, f, **k)
    _ck[0].exact = s.it.exact
    return s


def fld(n, o=THIS, s='r'):
    return mk('app', ('fld', n, o), s)


def run(ck):
    _ck[0] = ck
    ck.rule('cells', 'the background cells partition the image and a cell collects exactly its valid pixels')
    ck.rule('cell-value', 'a cell with less than half of its pixels valid is marked invalid in every output, any other gets the estimate of its pixels')
    ck.rule('undef', 'defined cells are kept, undefined ones become the average of the nearest defined cells')
    ck.rule('median', 'the median filter replaces a pixel by the median of the symmetric box clipped to the image, and its variance with it')
    ck.rule('convolution', 'background-aware convolution weights exactly the in-image pixels below the variance threshold and writes zero elsewhere')
    ck.rule('bounds', 'no pixel outside an image, chunk or list is read')
    ck.rule('model', 'the background model is built from the masked image, its variance and the filtered cells, at the size of the image')
    F = ck.F = Facts([B + 'ImageMode.cpp', B + 'ReplaceUndefImage.cpp', B + 'SEBackgroundLevelAnalyzer.cpp', SEG, VERIF + '/drivers/background.cpp'])
    if F.errors:
        ck.undecided('cells', B, '%d parse errors' % F.errors)
    for g in (cell, modes, guess, undef, undef_all, boxes, medians, filt, convolution, scaling, analyzer):
        ck.exact = set()
        ck.section(g, ck, F)
    ck.assumptions = ['cell sizes, box sizes and image dimensions are at least one', 'the distance between two cells is below the largest floating point value', 'the background variance map has the dimensions of the image']
    return 10


# ---------------------------------------------------------------- helpers
def flat(t, memo=None):
    """pixels of a chunk written as pixels of the image it was taken from"""
    def go(t):
        if t.op == 'app' and isinstance(t.a[0], str) and t.a[0].startswith('elem') and isinstance(t.a[1], T) and t.a[1].op == 'app' and t.a[1].a[0] == 'chunk' and t.a[2].op == 'app' and t.a[2].a[0] == 'xy':
            c = t.a[1]
            return go(mk('app', ('elem', c.a[1], xyt(add(go(c.a[2]), go(t.a[2].a[1])), add(go(c.a[3]), go(t.a[2].a[2])))), t.sort))
        if not any(x.op == 'app' and x.a[0] == 'chunk' for x in subterms(t)):
            return t
        if t.op == 'app' and t.a[0] == 'chunk':
            return t
        return rebuild(t, go)
    return go(t) if isinstance(t, T) else t


def bounds(ck, f, s, facts, what):
    seen = set()
    for e in s.effects:
        pcs = facts + [p for p in e.pc if p is not TRUE]
        if e.kind == 'at':
            g = band(*inrect(e.d['x'], e.d['y'], W(e.d['img']), H(e.d['img'])))
        elif e.kind == 'getchunk':
            g = band(ge(e.d['x'], num(0)), ge(e.d['y'], num(0)), ge(e.d['w'], num(0)), ge(e.d['h'], num(0)), le(add(e.d['x'], e.d['w']), W(e.d['img'])), le(add(e.d['y'], e.d['h']), H(e.d['img'])))
        else:
            continue
        k = (e.kind, g, tuple(pcs))
        if k in seen:
            continue
        seen.add(k)
        ck.entail('bounds', f, pcs, g, what='%s: %s of %s' % (what, 'a pixel' if e.kind == 'at' else 'a chunk', show(e.d['img'])[:60]))


def collected(s, e, px):
    """guard under which the pixel (I, J) of the image is collected by push e whose value is the pixel px"""
    fake = type('E', (), {})()
    fake.d = {'lv': ('elem', px.a[1], px.a[2])}
    fake.loops = e.loops
    fake.pc = [flat(p) for p in e.pc]
    m = solve2(fake, I, J)
    if m is None:
        return None
    return band(*[subst(p, m) for p in fake.pc])


def same_region(ck, rule, f, facts, got, want, what, exact=()):
    ck.entail(rule, f, facts + [want], got, exact=exact, what=what + ': none is missed')
    ck.entail(rule, f, facts + [got], want, exact=exact, what=what + ': no other one is used')


# ---------------------------------------------------------------- cells
def cell(ck, F):
    f = [g for g in F.fn('ImageMode<float>::processCell') if g.get('body')][0]
    img, om, os_ = sym('img', 'o'), sym('out_mode', 'o'), sym('out_sigma', 'o')
    x, y = sym('x', 'i'), sym('y', 'i')
    s = summ(F, f, args={0: img, 1: x, 2: y, 3: om, 4: os_}, handlers={**c29.hs(F), 'getBackGuess': rec('guess', 'o')})
    cw, ch, inv = fld('m_cell_w', s='i'), fld('m_cell_h', s='i'), fld('m_invalid')
    facts = [ge(cw, ONE), ge(ch, ONE), ge(x, num(0)), ge(y, num(0)), lt(mul(cw, x), W(img)), lt(mul(ch, y), H(img)), ge(mul(cw, x), num(0)), ge(mul(ch, y), num(0)), lt(x, W(om)), lt(y, H(om)), lt(x, W(os_)), lt(y, H(os_))]
    bounds(ck, f, s, facts, 'cell')
    ps = [e for e in s.effects if e.kind == 'push']
    if len(ps) != 1:
        return ck.undecided('cells', f, '%d statements collect pixels' % len(ps))
    e = ps[0]
    v = flat(e.d['val'])
    px = pixel_terms(v)
    if len(px) != 1 or px[0] is not v or v.a[1] is not img:
        return ck.undecided('cells', f, 'collected value ' + show(v)[:120])
    g = collected(s, e, v)
    if g is None:
        return ck.undecided('cells', f, 'collected pixels')
    P = mk('app', ('elem', img, xyt(I, J)), v.sort)
    cwx, chy = mul(cw, x), mul(ch, y)
    want = band(ge(I, cwx), lt(I, add(cwx, cw)), lt(I, W(img)), ge(J, chy), lt(J, add(chy, ch)), lt(J, H(img)), bnot(eq(P, inv)))
    same_region(ck, 'cells', f, facts, g, want, 'valid pixels of a cell')
    # outputs
    gs = [q for q in s.effects if q.kind == 'guess']
    if len(gs) != 1 or gs[0].d['args'][-1] is not e.d['obj']:
        return ck.undecided('cell-value', f, '%d estimates' % len(gs))
    G = mk('app', ('guess',) + tuple(gs[0].d['args']), 'o')
    area = mul(tmin(cw, sub(W(img), cwx)), tmin(ch, sub(H(img), chy)))
    n = sym('count', 'i')
    for o, k in ((om, 0), (os_, 1)):
        es = written(s, o)
        bad = [q for q in es if q.d['val'] is inv]
        good = [q for q in es if q not in bad]
        if len(bad) != 1 or len(good) != 1:
            # a write that only happens with few valid pixels
            dec = False
            for q in es:
                g = band(*q.pc)
                tops = [c for c in subterms(g) if c.op == 'app' and c.a[0] == 'SUM' and not any(c is not d and c in set(subterms(d)) for d in subterms(g) if d.op == 'app' and d.a[0] == 'SUM')]
                if len(tops) == 1 and isinstance(q.d['val'], T) and q.d['val'] is not inv:
                    a_, b_ = sym('cell_width', 'i'), sym('cell_height', 'i')
                    g2 = subst(subst(g, {tops[0]: n}), {tmin(cw, sub(W(img), cwx)): a_, tmin(ch, sub(H(img), chy)): b_})
                    if entails([g2, ge(n, num(0)), ge(a_, ONE), ge(b_, ONE)], lt(scale(n, 2), mul(a_, b_))):
                        dec = True
                        ck.eqv('cell-value', f, q.d['val'], inv, what='value of a cell with few valid pixels in ' + show(o))
            if not dec:
                ck.undecided('cell-value', f, '%d writes to %s' % (len(es), show(o)))
            continue
        for q in es:
            ck.eqv('cell-value', f, q.d['lv'][2].a[1], x, what='column of the cell in ' + show(o))
            ck.eqv('cell-value', f, q.d['lv'][2].a[2], y, what='row of the cell in ' + show(o))
        val = good[0].d['val']
        comp = [c for c in subterms(val) if c.op == 'app' and c.a[0] == 'fld' and c.a[2] is G]
        if val in comp:
            num_ = re.sub(r"\W", '', str(val.a[1]))
            ck.ok(True if num_ == str(k) else (False if num_.isdigit() else None), 'cell-value', f, '%s gets component %s of the estimate' % (show(o), num_))
        else:
            ck.undecided('cell-value', f, 'value of %s: %s' % (show(o), show(val)[:120]))
        sums = {c for p in good[0].pc + bad[0].pc for c in subterms(p) if c.op == 'app' and c.a[0] == 'SUM'}
        top = {c for c in sums if not any(c is not d and c in set(subterms(d)) for d in sums)}
        if len(top) != 1:
            ck.undecided('cell-value', f, 'number of valid pixels')
            continue
        top = top.pop()
        fo = unfold(top)
        r, why = over_rect(fo, sym('u', 'i'), sym('v', 'i'), tmin(cw, sub(W(img), cwx)), tmin(ch, sub(H(img), chy)), facts + [ge(tmin(cw, sub(W(img), cwx)), ONE), ge(tmin(ch, sub(H(img), chy)), ONE)])
        if r is None or r is False:
            (ck.fail if r is False else ck.undecided)('cell-value', f, 'number of valid pixels: %s' % (why,))
        gb = [subst(band(*[p for p in q.pc if p in set(q.pc) and top in set(subterms(p))]), {top: n}) for q in (bad[0], good[0])]
        a_, b_ = sym('cell_width', 'i'), sym('cell_height', 'i')
        dims = {tmin(cw, sub(W(img), cwx)): a_, tmin(ch, sub(H(img), chy)): b_}
        gb = [subst(g, dims) for g in gb]
        if any(t in (W(img), H(img)) for g in gb for t in subterms(g)):
            ck.undecided('cell-value', f, 'number of pixels of a cell')
            continue
        ge_ = [ge(n, num(0)), ge(a_, ONE), ge(b_, ONE), le(a_, cw), le(b_, ch)]
        ck.eqv('cell-value', f, to_num(gb[0]), to_num(lt(scale(n, 2), mul(a_, b_))), facts=ge_, what='%s is invalid when less than half of the pixels are valid' % show(o))
        ck.eqv('cell-value', f, to_num(gb[1]), to_num(ge(scale(n, 2), mul(a_, b_))), facts=ge_, what='%s gets the estimate when at least half of the pixels are valid' % show(o))


def modes(ck, F):
    fs = [g for g in F.fn('ImageMode<float>::ImageMode') if g.get('body') and g.get('fk') == 'ctor']
    f = fs[0]
    img, var = sym('image', 'o'), sym('variance', 'o')
    cw, ch = sym('cell_w', 'i'), sym('cell_h', 'i')
    def sdiv(it, n, st):
        a = [it._t(it.val(it.ev(q, st), st), st) for q in n['args']]
        o = it.fresh('div', 'o')
        st.heap[(o, 'quot')] = app('idiv', tuple(a), 'i')
        st.heap[(o, 'rem')] = app('imod', tuple(a), 'i')
        return o
    for nn in (True, False):
        st = State()
        c = mk('app', ('nonnull', var), 'b')
        st.pc = [c if nn else bnot(c)]
        s = summ(F, f, args={0: img, 1: var, 2: cw, 3: ch}, st=st, handlers={**c29.hs(F), 'processCell': rec('cell', 'i'), 'std::div': sdiv, 'div': sdiv})
        facts = [ge(cw, ONE), ge(ch, ONE), ge(W(img), ONE), ge(H(img), ONE)]
        tag = 'with a variance map' if nn else 'without a variance map'
        o = {n: s.st.heap.get((THIS, n)) for n in ('m_mode', 'm_sigma', 'm_var_mode', 'm_var_sigma', 'm_cell_w', 'm_cell_h', 'm_invalid')}
        ck.ok(True if o['m_cell_w'] is cw else None, 'cells', f, 'cell width is kept')
        ck.ok(True if o['m_cell_h'] is ch else None, 'cells', f, 'cell height is kept')
        rc = lambda t: replace_cond(t, c, nn) if isinstance(t, T) else t
        def made(v):
            v = rc(v)
            l = {x for x in subterms(v) if x.op == 'app' and x.a[0] == 'newimg'} if isinstance(v, T) and v.op == 'ite' else ()
            return next(iter(l)) if len(l) == 1 else v
        o = {k: made(v) for k, v in o.items()}
        es = []
        for e in s.effects:
            if e.kind == 'cell':
                e.pc = [rc(p) for p in e.pc]
                e.d['args'] = [made(a) for a in e.d['args']]
                if FALSE not in e.pc:
                    es.append(e)
        want = [('m_mode', 'm_sigma', img)] + ([('m_var_mode', 'm_var_sigma', var)] if nn else [])
        qw, qh = sym('cells_w', 'i'), sym('cells_h', 'i')
        for a, b, src in want:
            ms = [e for e in es if len(e.d['args']) >= 5 and e.d['args'][-5] is src]
            if not ms:
                for e in es:
                    if e.d['args'][-2] is o[a] and e.d['args'][-5] in (img, var):
                        ck.fail('cells', f, '%s: the cells of %s are computed from %s' % (tag, show(src), show(e.d['args'][-5])))
            if len(ms) != 1:
                ck.undecided('cells', f, '%s: %d passes over %s' % (tag, len(ms), show(src)))
                continue
            e = ms[0]
            x, y, m1, m2 = e.d['args'][-4:]
            ck.ok(True if (m1 is o[a] and m2 is o[b]) else (False if isinstance(m1, T) and m1 in o.values() and m2 in o.values() else None), 'cells', f, '%s: %s goes to %s and %s' % (tag, show(src), a, b))
            for m in (o[a], o[b]):
                if not (isinstance(m, T) and m.op == 'app' and m.a[0] == 'newimg'):
                    ck.undecided('cells', f, '%s: dimensions of a cell image' % tag)
                    continue
                for d, n, c, t in ((W(m), W(img), cw, 'columns'), (H(m), H(img), ch, 'rows')):
                    ceil_(ck, f, d, n, c, '%s: %s of cells' % (tag, t))
            vx = [(q, v0, k) for L in e.loops for q, v0, k in L.vars if q is x]
            vy = [(q, v0, k) for L in e.loops for q, v0, k in L.vars if q is y]
            if len(vx) != 1 or len(vy) != 1:
                ck.undecided('cells', f, '%s: cell loops' % tag)
                continue
            m = {x: I, y: J}
            g = subst(band(*[p for p in e.pc if x in subterms(p) or y in subterms(p)]), m)
            same_region(ck, 'cells', f, facts, g, band(*inrect(I, J, W(o[a]), H(o[a]))), '%s: cells of %s' % (tag, show(src)))


def ceil_(ck, f, got, n, c, what):
    """got = ceil(n / c), by its defining inequalities with the quotient and remainder as unknowns"""
    if not isinstance(got, T):
        return ck.undecided('cells', f, what)
    Q, R = sym('quot', 'i'), sym('rem', 'i')
    env = {app('idiv', (n, c), 'i'): Q, app('imod', (n, c), 'i'): R}
    g = subst(got, env)
    if any(t.op == 'app' and t.a[0] in ('idiv', 'imod') for t in subterms(g)):
        # another way to round up: compare values for every remainder
        return ck.eqv('cells', f, got, ite(eq(app('imod', (n, c), 'i'), num(0)), app('idiv', (n, c), 'i'), add(app('idiv', (n, c), 'i'), ONE)), facts=[ge(n, ONE), ge(c, ONE)], what=what)
    ck.eqv('cells', f, g, ite(eq(R, num(0)), Q, add(Q, ONE)), facts=[ge(R, num(0)), ge(Q, num(0))], what=what)


def guess(ck, F):
    f = [g for g in F.fn('ImageMode<float>::getBackGuess') if g.get('body')][0]
    data = sym('data', 'o')
    st = State()

    def stats(it, n, st):
        it.k = getattr(it, 'k', 0) + 1
        it.effect('stats', st, n)
        return Tup([sym('mean', 'r'), sym('median', 'r'), sym('sigma', 'r')])
    s = summ(F, f, args={0: data}, st=st, handlers={**c29.hs(F), 'getStats': stats, 'Euclid::Histogram::Histogram::getStats': stats, 'Euclid::Histogram::Histogram<double, long>::getStats': stats,
                                                   'Euclid::Histogram::Histogram<double, long>::clip': rec('clip', 'i'), 'clip': rec('clip', 'i')})
    mean, med, sig = sym('mean', 'r'), sym('median', 'r'), sym('sigma', 'r')
    r = s.ret
    v = list(r.vals) if isinstance(r, Tup) else None
    if not v or len(v) != 2:
        return ck.undecided('cell-value', f, 'estimate')
    # values after the clipping loop are those of the last statistics
    m = {}
    for L in s.it.all_loops:
        for q, (v0, v1) in L.step.items():
            if v1 in (mean, med, sig) and v0 in (v1,):
                m[q] = v1
    v = [subst(t, m) if isinstance(t, T) else t for t in v]
    ab = lambda t: ite(lt(t, num(0)), neg(t), t)
    ck.eqv('cell-value', f, v[1], sig, what='second component of the estimate')
    want = ite(eq(sig, num(0)), mean, ite(lt(ab(sub(mean, med)), scale(sig, Fraction(3, 10))), sub(scale(med, Fraction(5, 2)), scale(mean, Fraction(3, 2))), med))
    ck.eqv('cell-value', f, v[0], want, facts=[ge(sig, num(0))], what='background of a cell: mean without noise, 2.5 median - 1.5 mean when they agree, median otherwise')
    for e in s.effects:
        if e.kind == 'clip':
            a = [subst(t, m) for t in e.d['args'][-2:]]
            k = fld('m_kappa3')
            ck.eqv('cell-value', f, a[0], sub(med, mul(sig, k)), what='lower clipping limit')
            ck.eqv('cell-value', f, a[1], add(med, mul(sig, k)), what='upper clipping limit')


# ---------------------------------------------------------------- undefined cells
def undef(ck, F):
    f = [g for g in F.fn('getMaskedValue') if g.get('body') and 'type-param' not in ''.join(p['t'] for p in g['params'])][0]
    img, x, y, inv = sym('img', 'o'), sym('x', 'i'), sym('y', 'i'), sym('invalid', 'r')
    s = summ(F, f, args={0: x, 1: y, 2: img, 3: inv}, handlers=c29.hs(F))
    bounds(ck, f, s, inrect(x, y, W(img), H(img)), 'undefined cells')
    P = [p for p in pixel_terms(s.ret) if p.a[2] is xyt(x, y)]
    if not P:
        return ck.undecided('undef', f, 'value ' + show(s.ret)[:120])
    P = P[0]
    A, C = None, None
    ck.eqv('undef', f, restrict(s.ret, bnot(eq(P, inv))), P, facts=[bnot(eq(P, inv))], what='a defined cell is kept')
    r = restrict(s.ret, eq(P, inv))
    ph = [t for t in subterms(r) if t.op == 'sym' and '#' in str(t.a[0])]
    outer = [L for L in s.it.all_loops if ph and all(t in L.step for t in ph)]
    if len(ph) != 2 or not outer:
        return ck.undecided('undef', f, 'average of the nearest cells: ' + show(r)[:120])
    Lo = outer[-1]
    a, c = sym('acc', 'r'), sym('count', 'i')
    done = False
    for pa, pc in (ph, ph[::-1]):
        q = subst(r, {pa: a, pc: c})
        if entail_eq(q, div(a, c), [gt(c, num(0))]):
            done = True
            break
    if not done:
        return ck.undecided('undef', f, 'average of the nearest cells: ' + show(r)[:120])
    ck.holds('undef', f, 'an undefined cell gets the accumulated sum over the count')
    # inner loop whose exit values feed the outer ones
    Li = [L for L in s.it.all_loops if Lo.step[pa][1] in L.step and Lo.step[pc][1] in L.step]
    if len(Li) != 1:
        return ck.undecided('undef', f, 'inner loop')
    Li = Li[0]
    ia, ic = Lo.step[pa][1], Lo.step[pc][1]
    na, nc = Li.step[ia][1], Li.step[ic][1]
    cnt = [(q, v0, k) for q, v0, k in Li.vars if k in (1, -1)]
    cnto = [(q, v0, k) for q, v0, k in Lo.vars if k in (1, -1)]
    if len(cnt) != 1 or len(cnto) != 1:
        return ck.undecided('undef', f, 'loop counters')
    other = [q for q in subterms(na) if q in Li.step and q not in (ia, ic, cnt[0][0])]
    other = [q for q in other if not pixel_terms(Li.step[q][1]) or q in set(subterms(nc))]
    if not other and not [q for q in subterms(na) if q.op == 'sym' and '#' in str(q.a[0]) and q not in (ia, ic, cnt[0][0], cnto[0][0])]:
        return ck.fail('undef', f, 'what a cell adds does not depend on the distance of the other cells, so not only the nearest ones are averaged')
    if len(other) != 1:
        return ck.undecided('undef', f, 'smallest distance so far')
    im = other[0]
    nm = Li.step[im][1]
    px = {t for t in pixel_terms(na) + pixel_terms(nc) + pixel_terms(nm) if t.a[1] is img}
    if len(px) != 1:
        return ck.undecided('undef', f, 'compared cells')
    px = px.pop()
    u, v = px.a[2].a[1], px.a[2].a[2]
    V, M = sym('v', 'r'), sym('m', 'i')
    d = add(mul(sub(u, x), sub(u, x)), mul(sub(v, y), sub(v, y)))
    D = sym('d', 'i')
    # the polynomial of the distance is replaced by one symbol wherever it occurs
    q_, p_ = cnt[0][0], cnto[0][0]
    lin = sub(D, sub(d, mul(q_, q_)))
    env = {px: V, ia: a, ic: c, im: M}
    eps = [t for z in (na, nc, nm) for t in subterms(z) if t.op == 'app' and t.a[0] == 'limit' and 'eps' in str(t.a[1])]
    E = sym('eps', 'r')
    for t in eps:
        env[t] = E
    sq = ipow(q_, 2)
    def mp(t):
        return elim(subst(t, env), q_, d, D)
    ea, ec, em = mp(na), mp(nc), mp(nm)
    if any(z is None for z in (ea, ec, em)):
        lv = []

        def leaves(t):
            if t.op == 'ite':
                leaves(t.a[1])
                leaves(t.a[2])
            elif t is not im:
                lv.append(t)
        leaves(nm)
        for t in set(lv):
            ck.eqv('undef', f, subst(t, {u: I, v: J}), subst(d, {u: I, v: J}), what='compared distance')
        return ck.undecided('undef', f, 'distance')
    facts = [gt(E, num(0)), lt(E, ONE), ge(D, num(0)), ge(M, num(0)), ge(c, num(0))]
    und = eq(V, inv)
    ck.eqv('undef', f, ea, ite(und, a, ite(lt(D, M), V, ite(eq(D, M), add(a, V), a))), facts=facts, what='sum over the nearest cells')
    ck.eqv('undef', f, to_num(ec), ite(und, c, ite(lt(D, M), ONE, ite(eq(D, M), add(c, ONE), c))), facts=facts, what='number of nearest cells')
    ck.eqv('undef', f, em, ite(und, M, ite(lt(D, M), D, M)), facts=facts, what='smallest distance')
    ck.eqv('undef', f, Lo.step[pa][0], num(0), what='the sum starts empty')
    ck.eqv('undef', f, Lo.step[pc][0], num(0), what='the count starts empty')
    # all cells are visited
    at = [e for e in s.effects if e.kind == 'at' and len(e.loops) == 2]
    if at:
        e = at[0]
        fake = type('E', (), {})()
        fake.d, fake.loops, fake.pc = {'lv': ('elem', img, xyt(e.d['x'], e.d['y']))}, e.loops, e.pc
        m = solve2(fake, I, J)
        if m:
            g = band(*[subst(p, m) for p in e.pc if any(z in m for z in subterms(p))])
            ck.entail('undef', f, inrect(I, J, W(img), H(img)), g, what='every cell is compared')


def elim(t, q, d, D):
    """write t with the squared distance d (polynomial in counter q, with q^2 coefficient one) as symbol D; None when q survives"""
    def go(t):
        if t.op == 'poly':
            ms = monos(t)
            k = ms.get(((q, 2),), 0)
            if k:
                t2 = add(sub(t, scale(d, k)), scale(D, k))
                if q in set(subterms(t2)):
                    return None
                return rb(t2)
            return rb(t)
        if t is q:
            return None
        return rb(t)

    bad = []

    def rb(t):
        def h(z):
            r = go(z)
            if r is None:
                bad.append(z)
                return z
            return r
        return rebuild(t, h) if t.op not in ('sym',) and t.op != 'poly' else (rebuild(t, lambda z: h(z) if z.op != 'sym' else z) if t.op == 'poly' else t)
    r = go(t)
    return None if bad or r is None or q in set(subterms(r)) else r


def restrict(t, c):
    """t where condition c holds"""
    def go(t):
        if t.op == 'ite':
            if t.a[0] is c or entails([c], t.a[0]):
                return go(t.a[1])
            if entails([c], bnot(t.a[0])):
                return go(t.a[2])
        return t
    return go(t)


def entail_eq(a, b, facts):
    try:
        return equal(a, b, facts)[0]
    except Exception:
        return False


def undef_all(ck, F):
    f = [g for g in F.fn('ReplaceUndef') if g.get('body') and 'type-param' not in ''.join(p['t'] for p in g['params'])][0]
    o, mask = sym('original', 'o'), sym('mask', 'r')
    s = summ(F, f, args={0: o, 1: mask}, handlers={**c29.hs(F), 'getMaskedValue': rec('mv', 'r'), 'SourceXtractor::getMaskedValue': rec('mv', 'r')})
    full(ck, 'undef', f, s, s.ret, W(o), H(o), [ge(W(o), ONE), ge(H(o), ONE)], lambda v: ck.eqv('undef', f, v, mk('app', ('mv', I, J, o, mask), 'r'), what='replaced value of a cell'), 'replaced cells')


def full(ck, rule, f, s, img, w, h, facts, value, what):
    """img is a new w x h image of which every pixel is written once; value checks the value at (I, J)"""
    if not (isinstance(img, T) and img.op == 'app' and img.a[0] == 'newimg'):
        return ck.undecided(rule, f, what + ': new image')
    ck.eqv(rule, f, img.a[2], w, facts=facts, what=what + ': width')
    ck.eqv(rule, f, img.a[3], h, facts=facts, what=what + ': height')
    es = written(s, img)
    cov, out = [], []
    for e in es:
        m = solve2(e, I, J)
        if m is None or not isinstance(e.d['val'], T):
            return ck.undecided(rule, f, what + ': written pixels')
        g = band(*[subst(flat(p), m) for p in e.pc])
        cov.append(g)
        out.append((g, subst(flat(e.d['val']), m)))
    if not out:
        return ck.undecided(rule, f, what + ': nothing is written')
    if value:
        if len(out) == 1:
            value(out[0][1])
        else:
            v = out[-1][1]
            for g, z in out[-2::-1]:
                v = ite(g, z, v)
            value(v)
    ck.entail(rule, f, facts + inrect(I, J, w, h), bor(*cov), what=what + ': every pixel is written')
    return out


# ---------------------------------------------------------------- median filter
def boxes(ck, F):
    f = [g for g in F.fn('MedianFilter<float>::getBox') if g.get('body')][0]
    img, x, y = sym('img', 'o'), sym('x', 'i'), sym('y', 'i')
    s = summ(F, f, args={0: img, 1: x, 2: y}, handlers=c29.hs(F))
    bw, bh = fld('m_box_width', s='i'), fld('m_box_height', s='i')
    facts = inrect(x, y, W(img), H(img)) + [ge(bw, ONE), ge(bh, ONE)]
    bounds(ck, f, s, facts, 'box')
    ps = [e for e in s.effects if e.kind == 'push']
    if len(ps) != 1:
        return ck.undecided('median', f, '%d statements collect pixels' % len(ps))
    v = flat(ps[0].d['val'])
    if v not in pixel_terms(v):
        return ck.undecided('median', f, 'collected value ' + show(v)[:100])
    ck.ok(True if v.a[1] is img else False, 'median', f, 'the box is read from ' + show(v.a[1])[:40])
    g = collected(s, ps[0], v)
    if g is None:
        return ck.undecided('median', f, 'collected pixels')
    Q, R = sym('half_w', 'i'), sym('half_h', 'i')
    env = {app('idiv', (bw, num(2)), 'i'): Q, app('idiv', (bh, num(2)), 'i'): R}
    hw = tmin(tmin(Q, x), sub(sub(W(img), ONE), x))
    hh = tmin(tmin(R, y), sub(sub(H(img), ONE), y))
    want = band(le(sub(x, I), hw), le(sub(I, x), hw), le(sub(y, J), hh), le(sub(J, y), hh))
    same_region(ck, 'median', f, inrect(x, y, W(img), H(img)) + [ge(Q, num(0)), ge(R, num(0))], subst(g, env), want, 'pixels of a box')


def medians(ck, F):
    for q, what in (('MedianFilter<float>::getMedian', 'median of a box'), ('SourceXtractor::getMedian', 'median of the cells')):
        fs = [g for g in F.fn(q) if g.get('body') and 'MedianFilter<T' not in g['q']]
        for f in fs[:1]:
            s = summ(F, f, handlers=c29.hs(F))
            so = [k for k, e in enumerate(s.effects) if e.kind == 'call' and e.d.get('q') in ('std::sort', 'std::stable_sort')]
            ix = [k for k, e in enumerate(s.effects) if e.kind == 'index']
            nth = [e for e in s.effects if e.kind == 'call' and e.d.get('q') == 'std::nth_element']
            if nth:
                ck.undecided('median', f, what + ': selection')
                continue
            if not so:
                (ck.fail if ix else ck.undecided)('median', f, what + ': values are used without being sorted')
                continue
            a = s.effects[so[0]].d['args']
            ck.ok(so[0] < min(ix or [0]), 'median', f, what + ': values are sorted first')
            if len(a) != 2 or not all(isiter(z) for z in a):
                ck.undecided('median', f, what + ': sorted range')
                continue
            N = a[1].a[2]
            ck.eqv('median', f, a[0].a[2], num(0), what=what + ': sorted from the first')
            n = sym('n', 'i')
            h = app('idiv', (n, num(2)), 'i')
            el = [t for t in subterms(s.ret) if t.op == 'app' and str(t.a[0]).startswith('elem')]
            base = {t.a[1] for t in el}
            if len(base) != 1:
                ck.undecided('median', f, what + ': value')
                continue
            base = base.pop()
            E = lambda k: mk('app', ('at', k), 'r')
            r = subst(s.ret, {t: E(t.a[2]) for t in el})
            r = subst(r, {N: n})
            ck.eqv('median', f, r, ite(eq(app('imod', (n, num(2)), 'i'), ONE), E(h), scale(add(E(h), E(sub(h, ONE))), Fraction(1, 2))), facts=[ge(n, ONE)], what=what)
            break
        else:
            ck.undecided('median', B, what)


def filt(ck, F):
    f = [g for g in F.fn('MedianFilter<float>::operator()') if g.get('body')][0]
    img, var, th = sym('image', 'o'), sym('variance', 'o'), sym('threshold', 'r')

    def box(it, n, st):
        a = [it._t(it.val(it.ev(q, st), st), st) for q in n['args']]
        return mk('app', ('box',) + tuple(a), 'o')
    s = summ(F, f, args={0: img, 1: var, 2: th}, handlers={**c29.hs(F), 'getBox': box, 'getMedian': rec('median', 'r')})
    facts = [ge(W(img), ONE), ge(H(img), ONE), eq(W(img), W(var)), eq(H(img), H(var))]
    bounds(ck, f, s, facts, 'filter')
    r = s.ret
    v = None
    if isinstance(r, Tup):
        v = list(r.vals)
    elif isinstance(r, T):
        v = [next((s.st.heap[(r, n)] for n in names if (r, n) in s.st.heap), None) for names in (('first', '#0'), ('second', '#1'))]
    if not v or not all(isinstance(z, T) for z in v):
        return ck.undecided('median', f, 'result')
    med = lambda o: mk('app', ('median', mk('app', ('box', o, I, J), 'o')), 'r')
    P = lambda o: mk('app', ('elem', o, xyt(I, J)), 'r')
    norm = {}

    def strip(t):
        # the receiver of the helper calls is irrelevant
        e = {}
        for z in subterms(t):
            if z.op == 'app' and z.a[0] == 'median' and len(z.a) > 2:
                e[z] = mk('app', ('median', z.a[-1]), 'r')
        return subst(t, e) if e else t
    df = sub(med(img), P(img))
    c = ge(ite(lt(df, num(0)), neg(df), df), th)
    for o, src, t in ((v[0], img, 'image'), (v[1], var, 'variance')):
        full(ck, 'median', f, s, o, W(src), H(src), facts, lambda z, src=src, t=t: ck.eqv('median', f, strip(z), ite(c, med(src), P(src)), facts=facts + inrect(I, J, W(img), H(img)), what='filtered ' + t), 'filtered ' + t)


# ---------------------------------------------------------------- convolution
def convolution(ck, F):
    f = [g for g in F.fn('BgConvolutionImageSource::BgConvolutionImageSource') if g.get('body') and g.get('fk') == 'ctor'][0]
    k0 = sym('kernel', 'o')
    s = summ(F, f, args={3: k0}, handlers={**c29.hs(F), 'MirrorImage::create': rec('mirror', 'o')})
    for n, a in (('m_variance', 'variance'), ('m_threshold', 'threshold')):
        v = s.st.heap.get((THIS, n))
        ck.ok(True if isinstance(v, T) and show(v) == a else None if not isinstance(v, T) or lost(v) else False, 'convolution', f, '%s is kept in %s' % (a, n))
    es = [e for e in stores(s) if e.d['lv'][0] == 'elem' and isinstance(e.d['val'], T) and [p for p in pixel_terms(e.d['val']) if p.a[1] is k0] and isinstance(e.d['lv'][2], T) and e.d['lv'][2].op == 'app' and e.d['lv'][2].a[0] == 'xy']
    mir = [e for e in s.effects if e.kind == 'mirror']
    if mir:
        ck.holds('convolution', f, 'the kernel is mirrored')
    elif len(es) == 1 and solve2(es[0], I, J):
        ck.eqv('convolution', f, subst(es[0].d['val'], solve2(es[0], I, J)), mk('app', ('elem', k0, xyt(sub(sub(W(k0), ONE), I), sub(sub(H(k0), ONE), J))), 'r'), what='the kernel is mirrored')
    else:
        ck.undecided('convolution', f, 'kernel')
    f = [g for g in F.fn('BgConvolutionImageSource::generateTile') if g.get('body')][0]
    img, tile = sym('image', 'o'), sym('tile', 'o')
    x0, y0, w, h = sym('start_x', 'i'), sym('start_y', 'i'), sym('width', 'i'), sym('height', 'i')
    s = summ(F, f, args={0: img, 1: tile, 2: x0, 3: y0, 4: w, 5: h}, handlers=c29.hs(F))
    K, var, th = fld('m_kernel', s='o'), fld('m_variance', s='o'), fld('m_threshold')
    TI = mk('app', ('fld', 'm_tile_image', tile), 'o')
    hx, hy = sym('hx', 'i'), sym('hy', 'i')
    env = {app('idiv', (W(K), num(2)), 'i'): hx, app('idiv', (H(K), num(2)), 'i'): hy}
    facts = [ge(x0, num(0)), ge(y0, num(0)), ge(w, ONE), ge(h, ONE), le(add(x0, w), W(img)), le(add(y0, h), H(img)), ge(W(K), ONE), ge(H(K), ONE), eq(W(var), W(img)), eq(H(var), H(img)), eq(W(TI), w), eq(H(TI), h),
             le(scale(hx, 2), W(K)), le(scale(hy, 2), H(K)), ge(scale(hx, 2), sub(W(K), ONE)), ge(scale(hy, 2), sub(H(K), ONE))]
    seen = set()
    for e in s.effects:
        if e.kind not in ('at', 'getchunk'):
            continue
        pcs = facts + [subst(p, env) for p in e.pc if p is not TRUE]
        g = inrect(e.d['x'], e.d['y'], W(e.d['img']), H(e.d['img'])) if e.kind == 'at' else [ge(e.d['x'], num(0)), ge(e.d['y'], num(0)), le(add(e.d['x'], e.d['w']), W(e.d['img'])), le(add(e.d['y'], e.d['h']), H(e.d['img']))]
        g = subst(band(*g), env)
        if g in seen:
            continue
        seen.add(g)
        ck.entail('bounds', f, pcs, g, what='convolution: %s' % ('pixel' if e.kind == 'at' else 'chunk'))
    es = written(s, TI)
    if not es:
        return ck.undecided('convolution', f, 'tile pixels')
    px = mk('app', ('elem', var, xyt(add(x0, I), add(y0, J))), 'r')
    ok = lt(px, th)
    cov = []
    conv = []
    for e in es:
        m = solve2(e, I, J)
        if m is None:
            return ck.undecided('convolution', f, 'tile pixels')
        g = subst(flat(subst(band(*[p for p in e.pc]), m)), env)
        v = subst(flat(subst(e.d['val'], m)), env)
        for t in pixel_terms(g):
            if t.a[1] is var and isinstance(t.a[2], T) and t.a[2].op == 'app' and t.a[2].a[0] == 'xy':
                ck.eqv('convolution', f, t.a[2].a[1], add(x0, I), facts=facts + inrect(I, J, w, h), what='column of the variance compared with the threshold')
                ck.eqv('convolution', f, t.a[2].a[2], add(y0, J), facts=facts + inrect(I, J, w, h), what='row of the variance compared with the threshold')
        cov.append(g)
        zero = const(v) == 0
        if zero:
            ck.entail('convolution', f, facts + inrect(I, J, w, h) + [g], bnot(ok), what='zero is written only where the variance is at or above the threshold')
        else:
            ck.entail('convolution', f, facts + inrect(I, J, w, h) + [g], ok, what='a convolved value is written only where the variance is below the threshold')
            conv.append(v)
    ck.entail('convolution', f, facts + inrect(I, J, w, h), bor(*cov), what='every tile pixel is written')
    if len(conv) != 1:
        return ck.undecided('convolution', f, '%d convolved values' % len(conv))
    v = conv[0]
    sums = {t for t in subterms(v) if t.op == 'app' and t.a[0] == 'SUM'}
    top = {t for t in sums if not any(t is not d and t in set(subterms(d)) for d in sums)}
    a, b = sym('total', 'r'), sym('weight', 'r')
    if len(top) != 2:
        if len(top) < 2 and not lost(v, ck.exact) and not any(t.op == 'sym' and '#' in str(t.a[0]) for t in subterms(v)):
            return ck.fail('convolution', f, 'a pixel is not the weighted sum over the sum of the weights: ' + show(v)[:150])
        return ck.undecided('convolution', f, 'sums of a pixel')
    top = sorted(top, key=lambda t: not any(p.a[1] is img for p in pixel_terms(t)))
    ck.eqv('convolution', f, subst(v, {top[0]: a, top[1]: b}), div(a, b), facts=[gt(b, num(0))], what='a pixel is the weighted sum over the sum of the weights')
    cx, cy = sym('cx', 'i'), sym('cy', 'i')
    ux, uy = add(x0, I, cx, neg(hx)), add(y0, J, cy, neg(hy))
    inn = band(*inrect(ux, uy, W(img), H(img)), lt(mk('app', ('elem', var, xyt(ux, uy)), 'r'), th))
    kern = mk('app', ('elem', K, xyt(cx, cy)), 'r')
    for t, want, what in ((top[0], mul(kern, mk('app', ('elem', img, xyt(ux, uy)), 'r')), 'weighted sum'), (top[1], kern, 'sum of the weights')):
        r, why = over_rect(unfold(t), cx, cy, W(K), H(K), facts)
        if r is None or r is False:
            (ck.fail if r is False else ck.undecided)('convolution', f, '%s: %s' % (what, why))
            continue
        r = relax(r)
        ck.eqv('convolution', f, r, ite(inn, want, num(0)), facts=facts + inrect(I, J, w, h) + inrect(cx, cy, W(K), H(K)), what=what)


def relax(t):
    """elem@k of an image the function does not write is the same pixel"""
    e = {x: mk('app', ('elem',) + x.a[1:], x.sort) for x in subterms(t) if x.op == 'app' and isinstance(x.a[0], str) and x.a[0].startswith('elem@') and not (x.a[1].op == 'app' and x.a[1].a[0] in ('newimg',))}
    return subst(t, e) if e else t


# ---------------------------------------------------------------- scaling and assembly
def scaling(ck, F):
    f = [g for g in F.fn('computeScaling') if g.get('body')][0]
    v, w = sym('variance', 'o'), sym('weight', 'o')
    s = summ(F, f, args={0: v, 1: w}, handlers=c29.hs(F))
    facts = [ge(W(v), ONE), ge(H(v), ONE), eq(W(v), W(w)), eq(H(v), H(w))]
    bounds(ck, f, s, facts, 'scaling')
    ps = [e for e in s.effects if e.kind == 'push']
    if len(ps) != 1:
        return ck.undecided('model', f, '%d lists of ratios' % len(ps))
    val = ps[0].d['val']
    px = pixel_terms(val)
    fake = type('E', (), {})()
    if not px:
        return ck.undecided('model', f, 'ratio')
    fake.d, fake.loops, fake.pc = {'lv': ('elem', v, px[0].a[2])}, ps[0].loops, ps[0].pc
    m = solve2(fake, I, J)
    if m is None:
        return ck.undecided('model', f, 'ratio')
    P, Q = [mk('app', ('elem', o, xyt(I, J)), 'r') for o in (v, w)]
    a, b = sym('rms', 'r'), sym('var', 'r')
    e2 = {P: a, Q: b}
    ck.eqv('model', f, subst(subst(val, m), e2), div(mul(a, a), b), facts=[gt(b, num(0))], what='ratio of a cell')
    g = subst(subst(band(*[p for p in ps[0].pc]), m), e2)
    ck.entail('model', f, facts + inrect(I, J, W(v), H(v)) + [g], gt(b, num(0)), what='only cells with positive weight are compared')
    so = [k for k, e in enumerate(s.effects) if e.kind == 'call' and e.d.get('q') in ('std::sort', 'std::stable_sort')]
    ix = [k for k, e in enumerate(s.effects) if e.kind == 'index' and e.d['obj'] is ps[0].d['obj']]
    if ix and not [e for e in s.effects if e.kind == 'call' and e.d.get('q') == 'std::nth_element']:
        ck.ok(bool(so) and so[0] < ix[0], 'model', f, 'ratios are sorted before the middle one is taken')
    # nothing outside the list of ratios is used
    n = sym('n', 'i')
    for e in s.effects:
        if e.kind == 'index' and e.d['obj'] is ps[0].d['obj']:
            sums = {t for t in subterms(e.d['idx']) if t.op == 'app' and t.a[0] == 'SUM'}
            top = {t for t in sums if not any(t is not d and t in set(subterms(d)) for d in sums)}
            if len(top) != 1:
                ck.undecided('bounds', f, 'position in the list of ratios')
                continue
            top = top.pop()
            sub_ = {top: n}
            q_, r_ = app('idiv', (n, num(2)), 'i'), app('imod', (n, num(2)), 'i')
            ck.entail('bounds', f, [ge(n, num(0)), eq(n, add(scale(q_, 2), r_)), bor(eq(r_, num(0)), eq(r_, ONE)), ge(q_, num(0))] + [subst(p, sub_) for p in e.pc if top in set(subterms(p))], band(ge(subst(e.d['idx'], sub_), num(0)), lt(subst(e.d['idx'], sub_), n)), what='a ratio in the list is used')


def analyzer(ck, F):
    f = [g for g in F.fn('SEBackgroundLevelAnalyzer::SEBackgroundLevelAnalyzer') if g.get('body') and g.get('fk') == 'ctor'][0]
    n0, n1 = [p['n'] for p in f['params'][:2]]
    a0, a1 = sym(n0, 'o'), sym(n1, 'o')
    s = summ(F, f, args={0: a0, 1: a1})
    for q, o, w in (('m_cell_size', a0, 'cell size'), ('m_smoothing_box', a1, 'smoothing box')):
        for k in (0, 1):
            es = [e for e in stores(s) if e.d['lv'][0] == 'elem' and e.d['lv'][1] in (s.st.heap.get((THIS, q)), fld(q, s='o')) and const(e.d['lv'][2]) == k]
            if len(es) != 1:
                ck.undecided('model', f, '%s %d of the %s' % ('component', k, w))
                continue
            v = es[0].d['val']
            n = sym('n', 'i')
            v = subst(v, {z: n for z in subterms(v) if z.op == 'app' and z.a[0] in ('size', 'vsize')})
            want = mk('app', ('elem', o, num(0) if k == 0 else sub(n, ONE)), 'i')
            el = [z for z in subterms(v) if z.op == 'app' and str(z.a[0]).startswith('elem')]
            if v in el and v.a[1] is o:
                ck.eqv('model', f, v.a[2], want.a[2], facts=[ge(n, ONE), le(n, num(2))], what='position of component %d of the %s' % (k, w))
            else:
                ck.ok(False if v in el and v.a[1] in (a0, a1) else None, 'model', f, 'component %d of the %s: %s' % (k, w, show(v)[:80]))
    f = [g for g in F.fn('SEBackgroundLevelAnalyzer::analyzeBackground') if g.get('body')][0]
    img, var, mask, th = sym('image', 'o'), sym('variance_map', 'o'), sym('mask', 'o'), sym('variance_threshold', 'r')

    def tag(k, so='o'):
        def h(it, n, st):
            v = [it._t(it.val(it.ev(q, st), st), st) for q in n['args']]
            it.effect(k, st, n, args=v, tt=n.get('t', ''), qq=n.get('q', ''))
            return mk('app', (k,) + tuple(v), so)
        return h

    def create(it, n, st):
        v = [it._t(it.val(it.ev(q, st), st), st) for q in n['args']]
        q = n.get('q', '')
        k = re.sub('<.*', '', q[len('SourceXtractor::'):]) if q.startswith('SourceXtractor::') else q
        return mk('app', ({'MaskedImage': 'masked', 'BufferedImage': 'buffered', 'ConstantImage': 'constant'}.get(k, k), q) + tuple(v), 'o')

    def mode(it, n, st):
        v = [it._t(it.val(it.ev(q, st), st), st) for q in n['args']]
        it.effect('cells', st, n, args=v)
        return mk('app', ('cells',) + tuple(v), 'o')

    def part(k):
        def h(it, n, st):
            return mk('app', (k, it._t(it.objval(n['obj'], st), st)), 'o')
        return h

    def filt_(it, n, st):
        v = [it._t(it.val(it.ev(q, st), st), st) for q in n['args']]
        o = it._t(it.objval(n['obj'], st), st) if n.get('obj') else v.pop(0)
        return Tup([mk('app', ('filtered', o, v[0], *v[2:]), 'o'), mk('app', ('filtered_var', o, v[0], v[1], *v[2:]), 'o')])
    hh = {**c29.hs(F), 'computeScaling': rec('scaling', 'r'), 'SourceXtractor::computeScaling': rec('scaling', 'r'), 'SourceXtractor::getMedian': rec('median', 'r'), 'SourceXtractor::ReplaceUndef': rec('undef', 'o'), 'ReplaceUndef': rec('undef', 'o'),
          'getModeImage': part('mode'), 'getSigmaImage': part('sigma'), 'getVarianceModeImage': part('vmode'), 'getVarianceSigmaImage': part('vsigma'),
          'create': create, 'ImageMode#ctor': mode, 'MedianFilter#ctor': lambda it, n, st: mk('app', ('mfilter',) + tuple(it._t(it.val(it.ev(q, st), st), st) for q in n['args']), 'o'), 'std::make_shared': tag('source'), 'make_shared': tag('source'), 'BackgroundModel#ctor': tag('model'), 'operator()': filt_}
    s = summ(F, f, args={0: img, 1: var, 2: mask, 3: th}, handlers=hh)
    nn = lambda o: mk('app', ('nonnull', o), 'b')
    bicubic = num(1)          # ScaledImageSource::InterpolationType
    ret = [e for e in s.effects if e.kind == 'model']
    for hasvar in (True, False):
        for hasmask in (True, False):
            name = '%s variance map, %s mask' % ('with' if hasvar else 'without', 'with' if hasmask else 'without')

            def simp(t):
                for _ in range(8):
                    env = {nn(var): boolc(hasvar), nn(mask): boolc(hasmask), nn(img): TRUE}
                    for z in subterms(t):
                        if z.op == 'app' and z.a[0] in ('width', 'height') and isinstance(z.a[1], T):
                            b = z.a[1]
                            if b in (var, mask):
                                env[z] = mk('app', (z.a[0], img), 'i')
                            elif b.op == 'app' and b.a[0] == 'masked':
                                env[z] = mk('app', (z.a[0], b.a[2]), 'i')
                        elif z.op == 'app' and z.a[0] == 'nonnull' and z.a[1].op == 'app' and z.a[1].a[0] in ('masked', 'buffered', 'constant'):
                            env[z] = TRUE
                    u = subst(t, env)
                    if u is t:
                        return t
                    t = u
                return t
            ms = []
            for e in ret:
                g = simp(band(*[p for p in e.pc]))
                if g is not FALSE:
                    ms.append([simp(a) for a in e.d['args']])
            if len(ms) != 1 or len(ms[0]) != 4:
                ck.undecided('model', f, '%s: %d results' % (name, len(ms)))
                continue
            bg, bvar, scal, med = ms[0]
            C = {z for z in subterms(bg) if z.op == 'app' and z.a[0] == 'cells'}
            if len(C) != 1:
                ck.undecided('model', f, '%s: %d cell statistics' % (name, len(C)))
                continue
            C = C.pop()
            inv = C.a[5]
            for t, base, what in ((C.a[1], img, 'image'), (C.a[2], var, 'variance')):
                if what == 'variance' and not hasvar:
                    continue
                chain = []
                while isinstance(t, T) and t.op == 'app' and t.a[0] == 'masked':
                    chain.append(t)
                    t = t.a[2]
                ck.ok(True if t is base else (False if t in (img, var, mask) else None), 'model', f, '%s: %s statistics' % (name, what))
                by = {c.a[3]: c for c in chain}
                if hasmask and what == 'image':
                    ck.ok(mask in by, 'model', f, name + ': masked pixels are left out of the statistics')
                if hasvar:
                    b = by.get(var)
                    ck.ok(b is not None, 'model', f, '%s: pixels above the variance threshold are left out of the %s statistics' % (name, what))
                    if b is not None:
                        ck.eqv('model', f, b.a[5], th, what='%s: variance threshold of the %s statistics' % (name, what))
                        ck.ok('greater_equal' in b.a[1], 'model', f, '%s: pixels at or above the variance threshold are left out of the %s statistics' % (name, what))
                for c in chain:
                    ck.eqv('model', f, c.a[4], inv, what='%s: value of the pixels left out of the %s statistics' % (name, what))
            for k, d in ((3, 0), (4, 1)):
                ck.eqv('model', f, C.a[k], mk('app', ('elem', fld('m_cell_size', s='o'), num(d)), 'i'), what='%s: cell %s' % (name, ('width', 'height')[d]))
            fl = {z.a[1] for t in ms[0] for z in subterms(t) if z.op == 'app' and z.a[0] in ('filtered', 'filtered_var')}
            if len(fl) != 1:
                ck.undecided('model', f, name + ': smoothing')
                continue
            box = fl.pop()
            ck.eqv('model', f, box, mk('app', ('mfilter', fld('m_smoothing_box', s='o')), 'o'), what=name + ': smoothing box')
            und = lambda part: mk('app', ('undef', mk('app', (part, C), 'o'), inv), 'o')
            FM = mk('app', ('filtered', box, und('mode'), num(0)), 'o')
            FV = mk('app', ('filtered_var', box, und('mode'), und('sigma'), num(0)), 'o')

            def source(t):
                if t.op == 'app' and t.a[0] == 'buffered':
                    t = t.a[2]
                return t
            src = lambda o: mk('app', ('source', o, W(img), H(img), bicubic), 'o')
            ck.eqv('model', f, source(bg), src(FM), what=name + ': background level')
            ck.eqv('model', f, med, mk('app', ('median', FV), 'r'), what=name + ': median rms')
            if hasvar:
                b = source(bvar)
                sq = b.a[1] if b.op == 'app' and b.a[0] == 'source' else b
                if sq.op == 'app' and sq.a[0] == 'ProcessedImage' and 'Multiply' in sq.a[1]:
                    ck.eqv('model', f, mk('app', ('pair', sq.a[2], sq.a[3]), 'o'), mk('app', ('pair', FV, FV), 'o'), what=name + ': background variance is the squared rms')
                    ck.eqv('model', f, mk('app', ('source', num(0)) + b.a[2:], 'o'), mk('app', ('source', num(0), W(img), H(img), bicubic), 'o'), what=name + ': size of the background variance')
                else:
                    ck.ok(False if sq is FV else None, 'model', f, name + ': background variance is the squared rms: ' + show(sq)[:100])
                ck.eqv('model', f, scal, mk('app', ('scaling', FV, mk('app', ('filtered', box, und('vmode'), num(0)), 'o')), 'r'), what=name + ': scaling between rms and variance map')
            elif bvar.op == 'app' and bvar.a[0] == 'constant':
                m = mk('app', ('median', FV), 'r')
                ck.eqv('model', f, bvar.a[2], W(img), what=name + ': width of the background variance')
                ck.eqv('model', f, bvar.a[3], H(img), what=name + ': height of the background variance')
                ck.eqv('model', f, bvar.a[4], mul(m, m), what=name + ': background variance is the squared median rms')
            else:
                ck.undecided('model', f, name + ': background variance ' + show(bvar)[:100])
