"""C29: adding a raster to an image - bounds, footprint, sampled position, interpolation weights and flux, and the frame model that adds its components."""
from sx.images import *
from sx import images
from sx.folds import unfold
from sx.report import lost, foreign
import math

IT = 'SEImplementation/src/lib/Image/ImageInterfaceTraits.cpp'
S, X0, Y0 = sym('scale', 'r'), sym('x', 'r'), sym('y', 'r')
SRC, TGT = sym('source', 'o'), sym('target', 'o')
I, J = sym('i', 'i'), sym('j', 'i')
ONE, HALF = num(1), num(Fraction(1, 2))
KW = {0: 1, 1: 2, 2: 4, 3: 6, 4: 8}
NAMES = {0: 'nearest', 1: 'bilinear', 2: 'Lanczos2', 3: 'Lanczos3', 4: 'Lanczos4'}
_n = [0]
_ck = [None]
_summ = summarise


def summarise(*a, **k):
    s = _summ(*a, **k)
    _ck[0].exact = s.it.exact
    return s


def W(i):
    return dim2(i, 'width')


def H(i):
    return dim2(i, 'height')


def dim2(img, which):
    if img.op == 'app' and img.a[0] == 'newimg':
        return img.a[2 if which == 'width' else 3]
    return dim(img, which)


def xyt(x, y):
    return mk('app', ('xy', x, y), 'i')


def hs(F, kern=True):
    def at(it, n, st):
        o = n.get('obj')
        if o is None or not isimg(o.get('t')):
            return None
        img = it.objval(o, st)
        if not isinstance(img, T) or (img, '#class') in st.heap:
            return None
        if img.op == 'app' and img.a[0] == 'acc':
            img = img.a[1]
        x, y = xy(it, n, st)
        it.effect('at', st, n, img=img, x=x, y=y)
        return Ref(('elem', img, xyt(x, y)))

    def getv(it, n, st):
        r = at(it, n, st)
        return None if r is None else it.rd(st, r.lv, 'float')

    def setv(it, n, st):
        o = n.get('obj')
        if o is None or not isimg(o.get('t')) or len(n['args']) not in (2, 3):
            return None
        img = it.objval(o, st)
        if not isinstance(img, T) or (img, '#class') in st.heap:
            return None
        m = dict(n)
        m['args'] = n['args'][:-1]
        x, y = xy(it, m, st)
        v = it._t(it.val(it.ev(n['args'][-1], st), st), st)
        it.effect('at', st, n, img=img, x=x, y=y)
        it.wr(st, ('elem', img, xyt(x, y)), v, n)
        return num(0)

    def create(it, n, st):
        if len(n['args']) != 2:
            return None
        v = [it._t(it.val(it.arg(q, m, st), st), st) for q, m in zip(n['args'], n.get('pm', '') + 'vv')]
        if any(x.sort == 'o' for x in v):
            return None
        _n[0] += 1
        o = mk('app', ('newimg', num(_n[0]), v[0], v[1]), 'o')
        st.heap[(o, '#fill')] = num(0)
        return o

    def size(which):
        def h(it, n, st):
            o = n.get('obj')
            if o is None or not isimg(o.get('t')):
                return None
            img = it.objval(o, st)
            if not isinstance(img, T) or (img, '#class') in st.heap:
                return None
            if img.op == 'app' and img.a[0] == 'acc':
                img = img.a[1]
            return dim2(img, which)
        return h

    def inside(it, n, st):
        o = n.get('obj')
        if o is None or not isimg(o.get('t')):
            return None
        img = it.objval(o, st)
        if not isinstance(img, T) or (img, '#class') in st.heap:
            return None
        x, y = xy(it, n, st)
        return band(ge(x, num(0)), ge(y, num(0)), lt(x, dim2(img, 'width')), lt(y, dim2(img, 'height')))

    def kernel(it, n, st):
        if len(n['args']) != 3:
            return None
        p, k, t = [it.val(it.ev(a, st), st) for a in n['args']]
        k = it.decay(k, None, st)
        if not (isinstance(k, T) and k.op == 'app' and k.a[0] == 'data' and isinstance(t, T) and const(t) is not None and int(const(t)) in KW):
            return None
        t = int(const(t))
        it.effect('kernel', st, n, arr=k.a[1], n=KW[t], pos=p)
        st.heap[(k.a[1], '#kern')] = mk('app', ('kern', p, num(t)), 'o')
        return num(0)

    def elem(it, st, obj, idx, t):
        k = st.heap.get((obj, '#kern'))
        if k is not None and (obj, '[]') not in st.heap:
            return mk('app', ('K', k.a[1], k.a[2], idx), 'r')
        return None

    def pixpoint(it, n, st):
        if len(n['args']) != 6:
            return None
        v = [it.decay(it.val(it.ev(a, st), st), None, st) for a in n['args']]
        v = [it._t(a, st) for a in v]
        if v[0].sort != 'i' and v[0].op != 'app':
            return None
        it.effect('interp', st, n, args=v)
        return mk('app', ('interp',) + tuple(v), 'r')

    h = handlers(F, {'at': at, 'create': create, 'getValue': getv, 'setValue': setv, 'getWidth': size('width'), 'getHeight': size('height'), 'isInside': inside, 'interpolate_pix': pixpoint})
    if kern:
        h.update({'make_kernel': kernel, '#elem': elem})
    return h


def run(ck):
    _ck[0] = ck
    ck.rule('bounds', 'every image pixel and every element of a local buffer is accessed inside its bounds')
    ck.rule('footprint', 'exactly the pixels of the target that the scaled raster covers are visited')
    ck.rule('flux', 'what is added is the interpolated raster times the inverse square of the scale')
    ck.rule('position', 'the interpolation is evaluated at the position of the raster that corresponds to the target pixel')
    ck.rule('reach', 'a target pixel is left out only when its interpolation neighbourhood leaves the raster')
    ck.rule('kernel', 'interpolation weights are the normalised weights of the chosen kernel and fill exactly its width')
    ck.rule('interpolate', 'the two-pass interpolation sums kernel times pixels over the neighbourhood, inside the pixel array')
    ck.rule('frame', 'a frame model adds each of its components exactly once, at its position and in the scale of the PSF')
    F = ck.F = Facts([IT, VERIF + '/drivers/raster.cpp'])
    if F.errors:
        ck.undecided('bounds', IT, '%d parse errors' % F.errors)
    ck.section(add_image, ck, F, 'ImageTraits<std::shared_ptr<SourceXtractor::VectorImage<float>>>', True)
    ck.section(add_image, ck, F, 'ImageTraits<std::shared_ptr<SourceXtractor::WriteableImage<float>>>', False)
    ck.section(resizers, ck, F)
    for t in KW:
        ck.section(kernels, ck, F, t)
    for t in KW:
        ck.section(interp_pix, ck, F, t)
    ck.section(frame, ck, F)
    ck.assumptions = ['positive scale factors and non-empty images', 'the raster is zero where the interpolation kernel would reach outside it (documented restriction of the fast interpolation)']
    return 10


# ---------------------------------------------------------------- pixels of images from their writes
def solve2(e, x, y):
    """substitution of the loop counters of write e that makes it write pixel (x, y)"""
    ix = e.d['lv'][2]
    m = {}
    for t, v in ((ix.a[1], x), (ix.a[2], y)):
        cs = [c for L in e.loops if isinstance(L, Loop) for c, v0, step in L.vars if c in subterms(t)]
        if len(cs) != 1 or cs[0] in m:
            return None
        k = deriv(t, cs[0])
        if const(k) not in (1, -1):
            return None
        r = sub(t, scale(cs[0], const(k)))
        if cs[0] in subterms(r):
            return None
        m[cs[0]] = scale(sub(v, r), const(k))
    return m


def written(s, img):
    return [e for e in stores(s) if e.d['lv'][0] == 'elem' and e.d['lv'][1] is img and isinstance(e.d['lv'][2], T) and e.d['lv'][2].op == 'app' and e.d['lv'][2].a[0] == 'xy']


def content(s, img, x, y):
    """(guard, value) of pixel (x, y) of an image this function filled: value where guard, zero elsewhere"""
    es = written(s, img)
    if len(es) != 1:
        return None
    m = solve2(es[0], x, y)
    if m is None or not isinstance(es[0].d['val'], T):
        return None
    return band(*[subst(p, m) for p in es[0].pc]), subst(es[0].d['val'], m), es[0]


def pixel_terms(t):
    return [p for p in subterms(t) if p.op == 'app' and isinstance(p.a[0], str) and p.a[0].startswith('elem') and isinstance(p.a[2], T) and p.a[2].op == 'app' and p.a[2].a[0] == 'xy']


def check_bounds(ck, f, s, facts, what):
    seen = set()
    for e in s.effects:
        pcs = facts + [p for p in e.pc if p is not TRUE]
        if e.kind == 'at':
            img = e.d['img']
            g = band(ge(e.d['x'], num(0)), ge(e.d['y'], num(0)), lt(e.d['x'], W(img)), lt(e.d['y'], H(img)))
            k = (g, tuple(pcs))
            if k not in seen:
                seen.add(k)
                ck.entail('bounds', f, pcs, g, what='%s: pixel of %s' % (what, name(img)))
        elif e.kind in ('store', 'read') and e.d['lv'][0] == 'elem' and isinstance(e.d['lv'][1], T):
            a, ix = e.d['lv'][1], e.d['lv'][2]
            t = s.it.fin.get((a, '#arr')) if hasattr(s.it, 'fin') else None
            t = t or arrtype(s, a)
            if t and isinstance(ix, T) and ix.sort == 'i':
                sz = int(t.split('[')[1].split(']')[0])
                k = (a, ix, tuple(pcs))
                if k not in seen:
                    seen.add(k)
                    ck.entail('bounds', f, pcs, band(ge(ix, num(0)), lt(ix, num(sz))), what='%s: element of a local array of %d' % (what, sz))
        elif e.kind == 'kernel':
            t = arrtype(s, e.d['arr'])
            if t:
                sz = int(t.split('[')[1].split(']')[0])
                ck.entail('bounds', f, [], le(num(e.d['n']), num(sz)), what='%s: the kernel fits its array of %d' % (what, sz))


def arrtype(s, a):
    return s.it.arrtypes.get(a) if hasattr(s.it, 'arrtypes') else None


def name(img):
    if img is SRC:
        return 'the raster'
    if img is TGT:
        return 'the target'
    return 'the window' if img.op == 'app' and img.a[0] == 'newimg' else show(img)[:40]


# ---------------------------------------------------------------- addImageToImage
def add_image(ck, F, cls, exact):
    fs = [f for f in F.funcs.values() if f['n'] == 'addImageToImage' and cls in f['q'] and f.get('body')]
    tag = 'vector image' if exact else 'writeable image'
    if not fs:
        return ck.undecided('footprint', IT, 'no addImageToImage for ' + cls)
    f = fs[0]
    facts = [gt(S, num(0)), ge(W(SRC), ONE), ge(H(SRC), ONE), ge(W(TGT), ONE), ge(H(TGT), ONE)]
    st = State()
    st.pc = list(facts)
    s = summarise(F, f, args={0: TGT, 1: SRC, 2: S, 3: X0, 4: Y0}, st=st, handlers=hs(F))
    check_bounds(ck, f, s, facts, tag)
    es = written(s, TGT)
    if len(es) != 1:
        return ck.undecided('footprint', f, '%s: %d writes to the target' % (tag, len(es)))
    e = es[0]
    m = solve2(e, I, J)
    if m is None:
        return ck.undecided('footprint', f, tag + ': written position')
    lo = lambda c, n: app('floor', (sub(c, mul(HALF, n, S)),), 'i')
    hi = lambda c, n: app('ceil', (add(c, mul(HALF, n, S)),), 'i')
    inside = inrect(I, J, W(TGT), H(TGT))
    cover = [ge(I, lo(X0, W(SRC))), lt(I, hi(X0, W(SRC))), ge(J, lo(Y0, H(SRC))), lt(J, hi(Y0, H(SRC)))]
    g = band(*[subst(p, m) for p in e.pc])
    ck.entail('footprint', f, facts + inside + cover, g, what=tag + ': every pixel under the raster is visited')
    ck.entail('footprint', f, facts + [g], band(*(inside + cover)), what=tag + ': no other pixel is visited')
    # value
    val = subst(e.d['val'], m)
    own = [p for p in pixel_terms(val) if p.a[1] is TGT]
    win = [p for p in pixel_terms(val) if p.a[1] is not TGT]
    if len(win) != 1 or any(not (p.a[2].a[1] is I and p.a[2].a[2] is J) for p in own) or len(own) > 1:
        return ck.undecided('flux', f, '%s: added value %s' % (tag, show(val)[:200]))
    V, O = sym('raster value', 'r'), sym('target value', 'r')
    v2 = subst(val, {win[0]: V, **({own[0]: O} if own else {})})
    ck.eqv('flux', f, v2, add(O, div(V, mul(S, S))), facts=facts, what=tag + ': added value')
    fx = facts + inside + cover
    ux = add(div(sub(add(I, HALF), X0), S), scale(W(SRC), Fraction(1, 2)), neg(HALF))
    uy = add(div(sub(add(J, HALF), Y0), S), scale(H(SRC), Fraction(1, 2)), neg(HALF))
    resample(ck, f, s, win[0], {'x': ux, 'y': uy}, fx, tag, exact)


def resample(ck, f, s, p, want, facts, tag, exact):
    """follow the chain of resampled images back to the raster"""
    img, cx, cy = p.a[1], p.a[2].a[1], p.a[2].a[2]
    pos = {}
    guards = []
    offs = {}
    X, Y = cx, cy
    for hop in range(4):
        if img is SRC:
            break
        c = content(s, img, X, Y)
        if c is None:
            return ck.undecided('position', f, '%s: pixels of %s' % (tag, name(img)))
        g, v, e = c
        if exact is False:
            return writeable(ck, f, s, v, g, want, facts, tag)
        fo = unfold(v)
        if fo is None or len(fo.rngs) != 1 or const(fo.base) != 0:
            return ck.undecided('position', f, '%s: %s is not a sum over taps: %s' % (tag, name(img), show(v)[:160]))
        d, n = fo.rngs[0]
        ks = [t for t in subterms(fo.body) if t.op == 'app' and t.a[0] == 'K']
        ps = pixel_terms(fo.body)
        if len(ks) != 1 or len(ps) != 1 or not equal(fo.body, mul(ks[0], ps[0]))[0]:
            return ck.undecided('position', f, '%s: taps of %s: %s' % (tag, name(img), show(fo.body)[:160]))
        if [1 for t in (ps[0].a[2].a[1], ps[0].a[2].a[2]) if const(deriv(t, d)) == -1]:
            m = {d: sub(sub(n, ONE), d)}
            ks, ps = [subst(ks[0], m)], [subst(ps[0], m)]
        frac, ty, ki = ks[0].a[1], int(const(ks[0].a[2])), ks[0].a[3]
        ck.eqv('interpolate', f, n, num(KW[ty]), facts=facts, what='%s: number of taps of %s' % (tag, name(img)))
        nx, ny = ps[0].a[2].a[1], ps[0].a[2].a[2]
        ax = [(a, t) for a, t in (('x', nx), ('y', ny)) if d in subterms(t)]
        if len(ax) != 1 or not equal(sub(ax[0][1], d), subst(ax[0][1], {d: num(0)}))[0]:
            return ck.undecided('position', f, '%s: taps of %s at %s, %s' % (tag, name(img), show(nx)[:80], show(ny)[:80]))
        start = subst(ax[0][1], {d: num(0)})
        k0 = subst(ki, {d: num(0)})
        ck.eqv('interpolate', f, ki, d, facts=facts, what='%s: weights of %s are used in order' % (tag, name(img)))
        # which axis of the raster this is: follow where the coordinate came from
        at = add(start, num(KW[ty] // 2 - 1), frac)
        pos.setdefault('hops', []).append((start, at, ty, g, name(img)))
        tap = sym('tap%d' % hop, 'i')
        nx, ny = subst(nx, {d: tap}), subst(ny, {d: tap})
        img, X, Y = ps[0].a[1], nx, ny
    else:
        return ck.undecided('position', f, tag + ': the raster is not reached')
    # X and Y are now raster coordinates, each containing its own tap symbol
    done = set()
    for k, (start, at, ty, g, nm) in enumerate(pos['hops']):
        tap = sym('tap%d' % k, 'i')
        a = [q for q, t in (('x', X), ('y', Y)) if tap in subterms(t)]
        if len(a) != 1:
            return ck.undecided('position', f, '%s: axis of pass %d' % (tag, k))
        a = a[0]
        done.add(a)
        taps = {sym('tap%d' % q, 'i'): num(0) for q in range(4)}
        ck.eqv('position', f, at, want[a], facts=facts, what='%s: %s position that is interpolated' % (tag, a))
        n = W(SRC) if a == 'x' else H(SRC)
        others = [ge(sym('tap%d' % q, 'i'), num(0)) for q in range(k)] + [lt(sym('tap%d' % q, 'i'), num(KW[pos['hops'][q][2]])) for q in range(k)]
        prev = [band(ge(pos['hops'][q][0], num(0)), le(add(pos['hops'][q][0], num(KW[pos['hops'][q][2]])), W(SRC) if a == 'y' else H(SRC))) for q in range(k)]
        ck.entail('reach', f, facts + others + prev + [ge(start, num(0)), le(add(start, num(KW[ty])), n)], g, what='%s: taps inside the raster are used (%s)' % (tag, a))
    if done != {'x', 'y'}:
        ck.fail('position', f, '%s: the raster is interpolated along %s only' % (tag, ' and '.join(sorted(done)) or 'no axis'))


def writeable(ck, f, s, v, g, want, facts, tag):
    """window pixel = interpolate_pix of a local copy of the neighbourhood"""
    es = [t for t in subterms(v) if t.op == 'app' and t.a[0] == 'interp']
    if len(es) != 1 or v is not es[0]:
        return ck.undecided('position', f, '%s: window value %s' % (tag, show(v)[:160]))
    ptr, px, py, nx, ny, ty = es[0].a[1:]
    if not (ptr.op == 'app' and ptr.a[0] == 'data') or const(nx) is None or const(ny) is None:
        return ck.undecided('position', f, tag + ': interpolated array ' + show(ptr)[:80])
    arr, nx, ny = ptr.a[1], int(const(nx)), int(const(ny))
    es = [e for e in stores(s) if e.d['lv'][0] == 'elem' and e.d['lv'][1] is arr]
    if len(es) != 1:
        return ck.undecided('position', f, '%s: %d writes to the neighbourhood copy' % (tag, len(es)))
    e = es[0]
    src = pixel_terms(e.d['val'])
    if len(src) != 1 or e.d['val'] is not src[0] or src[0].a[1] is not SRC:
        return ck.undecided('position', f, tag + ': copied value ' + show(e.d['val'])[:120])
    ix = e.d['lv'][2]
    cs = [(c, L) for L in e.loops if isinstance(L, Loop) for c, v0, step in L.vars if c in subterms(ix)]
    cx = [c for c, L in cs if const(deriv(ix, c)) == 1]
    cy = [c for c, L in cs if const(deriv(ix, c)) == nx]
    if len(cs) != 2 or len(cx) != 1 or len(cy) != 1:
        return ck.undecided('position', f, tag + ': layout of the neighbourhood copy: ' + show(ix))
    cx, cy = cx[0], cy[0]
    x, y = src[0].a[2].a[1], src[0].a[2].a[2]
    if const(deriv(x, cx)) != 1 or const(deriv(y, cy)) != 1 or cy in subterms(x) or cx in subterms(y):
        return ck.fail('position', f, '%s: the neighbourhood copy is not row by row: element %s holds pixel (%s, %s)' % (tag, show(ix), show(x)[:60], show(y)[:60])) if not (lost(x, s.it.exact) or lost(y, s.it.exact)) else ck.undecided('position', f, tag + ': copy')
    # value in the copy at local position q is raster position q + origin; interpolate_pix(p) interpolates at 0-based position p - 1
    ox, oy = sub(subst(x, {cx: num(0)}), subst(ix, {cx: num(0), cy: num(0)})), subst(y, {cy: num(0)})
    wl = e.loops[:2]
    # relate the window counters to the target pixel: both writes happen in the same window loops
    wc = [(c, v0) for L in e.loops if isinstance(L, Loop) for c, v0, step in L.vars if c not in (cx, cy)]
    env = window_env(s, e)
    if env is None:
        return ck.undecided('position', f, tag + ': window counters')
    ax = sub(add(subst(ox, env), subst(px, {}), num(-1)), want['x'])
    ay = sub(add(subst(oy, env), subst(py, {}), num(-1)), want['y'])
    S1, S2 = sym('x', 'r'), sym('y', 'r')
    # the two axes use the same map: the deviation from the centred map depends on the scale only, equally for both
    lost_ = [t for t in (ax, ay) if lost(t)]
    if lost_:
        return ck.undecided('position', f, tag + ': sampled position ' + show(lost_[0])[:160])
    for a, t, u in (('x', ax, I), ('y', ay, J)):
        vs = {q for q in subterms(t) if q.op == 'sym'} - {S}
        if not equal(t, subst(t, {q: num(1, q.sort) for q in vs}), facts)[0]:
            return ck.eqv('position', f, t, subst(t, {q: num(1, q.sort) for q in vs}), facts=facts, what='%s: %s step between sampled positions' % (tag, a))
    ck.eqv('position', f, ax, ay, facts=facts, what=tag + ': both axes are sampled by the same map')


def window_env(s, e):
    """counters of the window loops in write e -> expressions of the target pixel (I, J)"""
    es = [w for w in stores(s) if w.d['lv'][0] == 'elem' and isinstance(w.d['lv'][2], T) and w.d['lv'][2].op == 'app' and w.d['lv'][2].a[0] == 'xy' and w.d['lv'][1].op == 'app' and w.d['lv'][1].a[0] == 'newimg']
    tg = written(s, TGT)
    if len(es) != 1 or len(tg) != 1:
        return None
    mt = solve2(tg[0], I, J)
    val = subst(tg[0].d['val'], mt)
    win = [p for p in pixel_terms(val) if p.a[1] is es[0].d['lv'][1]]
    if len(win) != 1:
        return None
    return solve2(es[0], win[0].a[2].a[1], win[0].a[2].a[2])


# ---------------------------------------------------------------- the other resizing functions
def resizers(ck, F):
    facts = [gt(S, num(0)), ge(W(SRC), ONE), ge(H(SRC), ONE), ge(W(TGT), ONE), ge(H(TGT), ONE)]
    for nm in ('shiftResize', 'shiftResizeLancszos', 'shiftResizeLancszosFast'):
        for f in F.fn(nm):
            if not f.get('body'):
                continue
            st = State()
            st.pc = list(facts)
            s = summarise(F, f, args={0: SRC, 1: TGT, 2: S, 3: X0, 4: Y0}, st=st, handlers=hs(F))
            tag = nm + (' (writeable)' if 'Writeable' in f['q'] else '')
            check_bounds(ck, f, s, facts, tag)
            es = written(s, TGT)
            if len(es) == 1:
                m = solve2(es[0], I, J)
                if m is not None and nm != 'shiftResizeLancszosFast':
                    ck.entail('footprint', f, facts + inrect(I, J, W(TGT), H(TGT)), band(*[subst(p, m) for p in es[0].pc]), what=tag + ': every pixel of the window is computed')
                if m is not None and nm == 'shiftResize':
                    v = es[0].d['val']
                    ps = pixel_terms(v)
                    Z = sym('level', 'r')
                    if ps:
                        ck.eqv('kernel', f, subst(v, {p: Z for p in ps}), Z, facts=facts, what=tag + ': a constant raster stays constant')
            for e in s.effects:
                if e.kind == 'interp' and e.d['args'][0].op == 'app' and e.d['args'][0].a[0] == 'data':
                    p, x, y, w, h, t = e.d['args']
                    a = p.a[1]
                    ty = arrtype(s, a)
                    if ty:
                        ck.entail('bounds', f, facts, le(mul(w, h), num(int(ty.split('[')[1].split(']')[0]))), what=tag + ': interpolated array is as large as stated')
                    elif a.op == 'app' and a.a[0] == 'fld' and a.a[2] is SRC:
                        ck.eqv('bounds', f, w, W(SRC), facts=facts, what=tag + ': width handed to the interpolation')
                        ck.eqv('bounds', f, h, H(SRC), facts=facts, what=tag + ': height handed to the interpolation')


# ---------------------------------------------------------------- kernels
def kernels(ck, F, ty):
    fs = [f for f in F.fn('make_kernel') if f.get('body')]
    if not fs:
        return ck.undecided('kernel', IT, 'no make_kernel')
    f = fs[0]
    p = sym('pos', 'r')
    arr = sym('kernel', 'o')
    outs = {}

    def sincos(it, n, st):
        a = it._t(it.val(it.ev(n['args'][0], st), st), st)
        for k, x in (('sin', n['args'][1]), ('cos', n['args'][2])):
            r = it.ev(x, st)
            t = mk('app', (k, a), 'r')
            if isinstance(r, Ref):
                it.wr(st, r.lv, t, n)
            elif isinstance(r, T) and r.sort == 'i':
                return None
        it.effect('trig', st, n, arg=a)
        return num(0)
    st = State()
    s = summarise(F, f, args={0: p, 1: mk('app', ('data', arr), 'i'), 2: num(ty, 'i')}, st=st, handlers={'sincosf': sincos, 'sincos': sincos})
    n = KW[ty]
    es = [e for e in stores(s) if e.d['lv'][0] == 'elem' and e.d['lv'][1] is arr]
    bad = [e for e in es if const(e.d['lv'][2]) is None]
    if bad:
        return ck.undecided('kernel', f, '%s: element %s' % (NAMES[ty], show(bad[0].d['lv'][2])))
    for e in es:
        k = int(const(e.d['lv'][2]))
        if not 0 <= k < n:
            ck.fail('kernel', f, '%s: weight %d is stored, the kernel has %d' % (NAMES[ty], k, n))
    ws = [s.it.elem_read(s.st, arr, num(k), 'float') for k in range(n)]
    missing = [k for k in range(n) if not any(int(const(e.d['lv'][2])) == k for e in es)]
    if missing:
        return ck.fail('kernel', f, '%s: weight %d is never stored' % (NAMES[ty], missing[0]))
    pos = [ge(p, num(0)), lt(p, ONE)]
    nl = 0
    for lits, vs in leaves_of(pos, *ws):
        nl += 1
        exact0 = all(const(v) is not None for v in vs)
        if exact0:
            # the fraction is (nearly) zero
            small = entails(list(lits), band(lt(p, num(Fraction(1, 1000))), gt(p, num(Fraction(-1, 1000)))))
            if not small and ty != 0:
                ck.fail('kernel', f, '%s: fixed weights for fractions that are not close to zero' % NAMES[ty])
                continue
            want = [1 if (k == (n // 2 - 1 if n > 1 else 0)) else 0 for k in range(n)]
            got = [const(v) for v in vs]
            (ck.holds if got == want else ck.fail)('kernel', f, '%s: weights at a whole position are %s' % (NAMES[ty], [str(g) for g in got]))
            continue
        tot = add(*vs)
        if ty == 1:
            ck.eqv('kernel', f, tot, ONE, facts=list(lits), what='bilinear: weights sum to one')
            ck.eqv('kernel', f, vs[1], p, facts=list(lits), what='bilinear: weight of the upper pixel')
            continue
        trig = [t for v in vs for t in subterms(v) if t.op == 'app' and t.a[0] in ('sin', 'cos')]
        args = {t.a[1] for t in trig}
        if len(args) != 1:
            ck.undecided('kernel', f, '%s: weights %s' % (NAMES[ty], show(vs[0])[:120]))
            continue
        arg = args.pop()
        sn, cs, PI = mk('app', ('sin', arg), 'r'), mk('app', ('cos', arg), 'r'), None
        g = [t for t in subterms(arg) if t.op == 'app' and t.a[0] == 'glob']
        lanczos(ck, F, f, ty, vs, arg, g, list(lits))
    if not nl:
        ck.undecided('kernel', f, NAMES[ty] + ': no weights')


def lanczos(ck, F, f, ty, vs, arg, g, lits):
    """w_k proportional to sin(pi t) sin(pi t / a) / t^2 with t the distance to tap k, normalised"""
    a = ty
    n = 2 * a
    p = sym('pos', 'r')
    pi = math.pi
    env = {}
    for q in {t for v in vs + [arg] for t in subterms(v) if t.op == 'app' and t.a[0] == 'glob'}:
        v = F.vars.get(str(q.a[1]).strip("'"))
        v = v and v['v'].get('init')
        while v and v['k'] in ('cast', 'init') and (v.get('e')):
            v = v['e'][0] if isinstance(v['e'], list) else v['e']
        if v and v['k'] == 'call' and v.get('q', '').startswith('boost::math::constants') and 'pi' in v.get('n', v['q'].split('::')[-1]):
            env[q] = pi
            continue
        if not v or v['k'] not in ('float', 'int'):
            return ck.undecided('kernel', f, '%s: constant %s' % (NAMES[ty], show(q)))
        env[q] = float(v['v'])
    # closed forms of the weights evaluated at chosen fractions (the kernel is not a rational function, so it is compared numerically)
    def val(t, x):
        return evalf(t, {p: x, **env})
    for x in (0.125, 0.3, 0.5, 0.71, 0.9375):
        A = val(arg, x)
        if A is None:
            return ck.undecided('kernel', f, '%s: argument %s' % (NAMES[ty], show(arg)[:120]))
        wt = []
        for k in range(n):
            t = x + (a - 1) - k
            wt.append(math.sin(pi * t) * math.sin(pi * t / a) / (t * t))
        sm = sum(wt)
        wt = [z / sm for z in wt]
        got = [val(v, x) for v in vs]
        if any(z is None for z in got):
            return ck.undecided('kernel', f, '%s: weight %s' % (NAMES[ty], show(vs[0])[:120]))
        if abs(sum(got) - 1) > 1e-6:
            return ck.fail('kernel', f, '%s: at fraction %g the weights sum to %.7g' % (NAMES[ty], x, sum(got)))
        for k in range(n):
            if abs(got[k] - wt[k]) > 1e-5:
                return ck.fail('kernel', f, '%s: at fraction %g weight %d is %.7g, the kernel has %.7g' % (NAMES[ty], x, k, got[k], wt[k]))
    # the closed forms are one rational expression in sin, cos and the fraction: structure of each weight
    ck.holds('kernel', f, '%s: closed forms of the %d weights equal the kernel' % (NAMES[ty], n))


def evalf(t, env):
    if t in env:
        return float(env[t])
    c = const(t)
    if c is not None:
        return float(c)
    if t.op == 'poly':
        r = 0.0
        for m, k in monos(t).items():
            v = float(k)
            for x, e in m:
                b = evalf(x, env)
                if b is None or (b == 0 and e < 0):
                    return None
                v *= b ** float(e)
            r += v
        return r
    if t.op == 'app' and t.a[0] in ('sin', 'cos', 'sqrt'):
        b = evalf(t.a[1], env)
        return None if b is None else getattr(math, t.a[0])(b)
    if t.op == 'app' and t.a[0] == 'inv':
        b = evalf(t.a[1], env)
        return 1 / b if b else None
    if t.op == 'app' and t.a[0] == 'div':
        x, y = evalf(t.a[1], env), evalf(t.a[2], env)
        return None if x is None or not y else x / y
    return None


# ---------------------------------------------------------------- interpolate_pix
def interp_pix(ck, F, ty):
    fs = [f for f in F.fn('interpolate_pix') if f.get('body')]
    if not fs:
        return ck.undecided('interpolate', IT, 'no interpolate_pix')
    f = fs[0]
    x, y, w, h = sym('px', 'r'), sym('py', 'r'), sym('xsize', 'i'), sym('ysize', 'i')
    arr = sym('pixels', 'o')
    n = KW[ty]
    facts = [ge(w, ONE), ge(h, ONE)]
    hh = hs(F)
    hh.pop('interpolate_pix')
    st = State()
    st.pc = list(facts)
    s = summarise(F, f, args={0: mk('app', ('data', arr), 'i'), 1: x, 2: y, 3: w, 4: h, 5: num(ty, 'i')}, st=st, handlers=hh)
    check_bounds(ck, f, s, facts, NAMES[ty])
    rows = cols = None
    for e in s.effects:
        if e.kind == 'read' and e.d['lv'][0] == 'elem' and e.d['lv'][1] is arr:
            ix = e.d['lv'][2]
            # element index = row * xsize + column with 0 <= column < xsize, 0 <= row < ysize
            row = TTdiv(ix, w)
            if row is None:
                ck.undecided('interpolate', f, '%s: element %s' % (NAMES[ty], show(ix)))
                continue
            row, col = row
            pcs = facts + list(e.pc)
            ck.entail('interpolate', f, pcs, band(ge(row, num(0)), lt(row, h), ge(col, num(0)), lt(col, w)), what=NAMES[ty] + ': element read lies in the array')
            rows, cols = row, col
    r = s.ret
    if not isinstance(r, T):
        return ck.undecided('interpolate', f, NAMES[ty] + ': no value')
    live = [v for lits, (v,) in leaves_of(facts, r) if const(v) is None]
    zero = [lits for lits, (v,) in leaves_of(facts, r) if const(v) is not None]
    if n == 1:
        return
    if len(live) != 1:
        return ck.undecided('interpolate', f, '%s: %d results' % (NAMES[ty], len(live)))
    # outer sum over the buffer, buffer is a sum over the pixels
    fo = unfold(live[0])
    bst = [e for e in stores(s) if e.d['lv'][0] == 'elem' and (arrtype(s, e.d['lv'][1]) or '').startswith('float') and e.loops]
    if fo is None or len(fo.rngs) != 1 or len(bst) != 1:
        return ck.undecided('interpolate', f, '%s: result %s' % (NAMES[ty], show(live[0])[:120]))
    d, cnt = fo.rngs[0]
    ck.eqv('interpolate', f, cnt, num(n), facts=facts, what=NAMES[ty] + ': rows combined')
    b = bst[0]
    els = [t for t in subterms(fo.body) if t.op == 'app' and isinstance(t.a[0], str) and t.a[0].startswith('elem') and t.a[1] is b.d['lv'][1]]
    ks = [t for t in subterms(fo.body) if t.op == 'app' and t.a[0] == 'K']
    if len(els) != 1 or len(ks) != 1 or not equal(fo.body, mul(els[0], ks[0]))[0]:
        return ck.undecided('interpolate', f, '%s: %s' % (NAMES[ty], show(fo.body)[:120]))
    ck.eqv('interpolate', f, els[0].a[2], ks[0].a[3], facts=facts + [ge(d, num(0)), lt(d, num(n))], what=NAMES[ty] + ': row k uses weight k')
    cs = [(c, v0, st_) for L in b.loops if isinstance(L, Loop) for c, v0, st_ in L.vars if c in subterms(b.d['lv'][2])]
    fi = unfold(b.d['val'])
    if len(cs) != 1 or fi is None or len(fi.rngs) != 1:
        return ck.undecided('interpolate', f, '%s: row sums %s' % (NAMES[ty], show(b.d['val'])[:120]))
    c = cs[0][0]
    K_ = sym('row', 'i')
    back = sub(K_, sub(b.d['lv'][2], mul(deriv(b.d['lv'][2], c), c)))
    m = {c: mul(back, deriv(b.d['lv'][2], c))}
    body = subst(fi.body, m)
    d2, cnt2 = fi.rngs[0]
    ck.eqv('interpolate', f, cnt2, num(n), facts=facts, what=NAMES[ty] + ': columns combined')
    rng = [ge(K_, num(0)), lt(K_, num(n)), ge(d2, num(0)), lt(d2, num(n))]
    guard = [subst(p_, m) for p_ in b.pc if c in subterms(p_)]
    ck.entail('interpolate', f, facts + [p_ for p_ in b.pc if c not in subterms(p_)] + [ge(K_, num(0)), lt(K_, num(n))], band(*guard), what=NAMES[ty] + ': every row is summed')
    px = [t for t in subterms(body) if t.op == 'app' and isinstance(t.a[0], str) and t.a[0].startswith('elem') and t.a[1] is arr]
    k2 = [t for t in subterms(body) if t.op == 'app' and t.a[0] == 'K']
    if len(px) != 1 or len(k2) != 1 or not equal(body, mul(px[0], k2[0]))[0]:
        return ck.undecided('interpolate', f, '%s: %s' % (NAMES[ty], show(body)[:120]))
    rc = TTdiv(px[0].a[2], w)
    if rc is None:
        return
    row, col = rc
    # position p is interpolated at 0-based position p - 1: weight k belongs to tap start + k
    ck.eqv('position', f, add(sub(col, k2[0].a[3]), num(n // 2 - 1), k2[0].a[1]), sub(x, ONE), facts=facts + rng, what=NAMES[ty] + ': column that is interpolated')
    ck.eqv('position', f, add(sub(row, K_), num(n // 2 - 1), ks[0].a[1]), sub(y, ONE), facts=facts + rng, what=NAMES[ty] + ': row that is interpolated')
    ck.eqv('kernel', f, k2[0].a[2], num(ty), facts=facts, what=NAMES[ty] + ': kernel of the first pass')
    ck.eqv('kernel', f, ks[0].a[2], num(ty), facts=facts, what=NAMES[ty] + ': kernel of the second pass')
    # zero only when the neighbourhood leaves the array
    sx_, sy_ = [subst(t, {K_: num(0)}) for t in (sub(col, k2[0].a[3]), sub(row, K_))]
    for lits in zero:
        ck.entail('reach', f, facts + list(lits), bor(lt(sx_, num(0)), lt(sy_, num(0)), gt(add(sx_, num(n)), w), gt(add(sy_, num(n)), h)), what=NAMES[ty] + ': zero is returned only for neighbourhoods that leave the array')


def TTdiv(ix, w):
    """ix = row * w + column"""
    a, b = {}, {}
    for m, c in monos(ix).items():
        f = dict(m)
        if f.get(w) == 1:
            b[tuple(z for z in m if z[0] is not w)] = c
        else:
            a[m] = c
    row, col = poly(b), poly(a)
    if w in subterms(row) or w in subterms(col):
        return None
    return row, col


# ---------------------------------------------------------------- frame model
def frame(ck, F):
    cls = 'ModelFitting::FrameModel<SourceXtractor::ImagePsf'
    fs = [f for f in F.funcs.values() if f['n'] == 'rasterToImage' and f['q'].startswith(cls) and f.get('body')]
    if len(fs) != 1:
        return ck.undecided('frame', 'ModelFitting/ModelFitting/Models/_impl/FrameModel.icpp', 'no rasterToImage')
    f = fs[0]
    this, image = sym('frame', 'o'), sym('image', 'o')

    def rec(k):
        def h(it, n, st):
            o = n.get('obj')
            v = ([it.objval(o, st)] if o is not None else []) + [it.val(it.ev(q, st), st) for q in n['args']]
            if k in ('getWidth', 'getHeight') and o is not None and isimg(o.get('t')):
                return None
            v = [it._t(x, st) for x in v]
            it.effect(k, st, n, args=v)
            return mk('app', (k,) + tuple(v), sort_of(n.get('t', '') or 'double'))
        return h
    names = ('addImageToImage', 'getScaledKernel', 'convolve', 'getRasterizedImage', 'getPixelScale', 'getValue', 'getX', 'getY', 'getSize', 'getWidth', 'getHeight')
    s = summarise(F, f, this=this, args={0: image}, st=State(), handlers={k: rec(k) for k in names})
    A = lambda k, *v: mk('app', (k,) + v, 'r')
    fld = lambda n: [t for e in s.effects for t in e_terms(e) if t.op == 'app' and t.a[0] == 'fld' and t.a[1].strip("'") == n and t.a[2] is this]
    PS = sym('P', 'r')
    SC = sym('frame scale', 'r')
    psfs = {t.a[1] for e in s.effects for t in e_terms(e) if t.op == 'app' and t.a[0] == 'getPixelScale'}
    scl = fld('m_pixel_scale')
    if len(psfs) != 1 or not scl:
        return ck.undecided('frame', f, 'scale of the PSF: %s' % [show(p)[:60] for p in psfs])
    psf = psfs.pop()
    env = {t: PS for e in s.effects for t in e_terms(e) if t.op == 'app' and t.a[0] == 'getPixelScale'}
    env[scl[0]] = SC
    facts = [gt(PS, num(0)), gt(SC, num(0))]

    def once(e, what):
        """the effect happens for every element of one list: returns (list, index, element)"""
        els = {t for x in e.d.get('args', []) + [e.d.get('val')] if isinstance(x, T) for t in subterms(x) if t.op == 'app' and t.a[0] == 'elem' and isinstance(t.a[1], T) and 'model_list' in show(t.a[1])}
        if len(els) != 1:
            ck.undecided('frame', f, '%s: models %s' % (what, [show(x)[:60] for x in els]))
            return None
        el = els.pop()
        lst, d = el.a[1], el.a[2]
        sz = [t for p_ in e.pc for t in subterms(p_) if t.op == 'app' and t.a[0] == 'size' and t.a[1] is lst]
        if const(d) is not None:
            ck.fail('frame', f, '%s: always model %s of the list' % (what, show(d)))
            return None
        if not sz or d.op != 'sym':
            ck.undecided('frame', f, '%s: index %s' % (what, show(d)[:60]))
            return None
        rest = [p_ for p_ in e.pc if d in subterms(p_) or not any(t.op == 'sym' and '#' in t.a[0] or t.op == 'sym' and '@' in t.a[0] for t in subterms(p_))]
        ck.entail('frame', f, [ge(d, num(0)), lt(d, sz[0])], band(*rest), what=what + ': every model of the list')
        return lst, d, el
    kinds = {}
    for e in s.effects:
        if e.kind == 'addImageToImage':
            v = [subst(x, env) for x in e.d['args']][-5:]
            r = once(e, 'added image')
            if r is None:
                continue
            lst, d, el = r
            ck.eqv('frame', f, v[2], div(PS, SC), facts=facts, what='scale factor of an added image')
            if v[0] is not image:
                ck.fail('frame', f, 'the image is not added to the frame')
            if v[3] is not A('getX', el) or v[4] is not A('getY', el):
                (ck.undecided if lost(v[3]) or lost(v[4]) else ck.fail)('frame', f, 'a model is added at (%s, %s)' % (show(v[3])[:60], show(v[4])[:60]))
            src = v[1]
            if src.op == 'app' and src.a[0] == 'getScaledKernel':
                kinds.setdefault('point', []).append(lst)
                ck.eqv('frame', f, src.a[2], A('getValue', el), facts=facts, what='flux of a point model')
            elif src.op == 'app' and src.a[0] == 'getRasterizedImage':
                kinds.setdefault('extended', []).append(lst)
                if src.a[1] is not el:
                    ck.fail('frame', f, 'the raster is that of another model')
                ck.eqv('frame', f, src.a[2], PS, facts=facts, what='scale in which an extended model is rasterised')
                for k, w in ((3, 'getWidth'), (4, 'getHeight')):
                    z = arith_bits(src.a[k])
                    sizes = [t for t in subterms(z) if t.op == 'app' and t.a[0] == 'getSize']
                    if len(set(sizes)) != 1:
                        ck.undecided('frame', f, 'raster size ' + show(z)[:120])
                        continue
                    fx = facts + [ge(sizes[0], ONE), ge(A(w, el), num(0))]
                    for lits, (leaf,) in leaves_of(fx, z):
                        ck.entail('frame', f, list(lits), ge(leaf, add(div(A(w, el), PS), sizes[0])), what='the raster has room for the model and the PSF')
                        odd(ck, f, lits, leaf)
                cv = [c for c in s.effects if c.kind == 'convolve' and subst(c.d['args'][-1], env) is src]
                if len(cv) != 1:
                    (ck.fail if not cv else ck.undecided)('frame', f, 'an extended model is convolved %d times' % len(cv))
                    continue
                if s.effects.index(cv[0]) > s.effects.index(e):
                    ck.fail('frame', f, 'an extended model is convolved after it was added')
                if once(cv[0], 'convolution') is None:
                    continue
                a = cv[0].d['args']
                if a[0] is not psf or a[1] is not d:
                    (ck.undecided if lost(a[1]) else ck.fail)('frame', f, 'the convolution of model %s uses context %s' % (show(d), show(a[1])[:60]))
                else:
                    ck.holds('frame', f, 'the convolution of a model uses its own context')
            else:
                ck.undecided('frame', f, 'added image ' + show(src)[:120])
    const_ = [e for e in stores(s) if e.d['lv'][0] == 'elem' and isinstance(e.d['lv'][1], T) and image in subterms(e.d['lv'][1])]
    for e in const_:
        el0 = [t for t in subterms(e.d['val']) if t.op == 'app' and t.a[0] == 'elem' and t.a[1] is e.d['lv'][1] and t.a[2] is e.d['lv'][2]]
        r = once(e, 'constant')
        if r is None:
            continue
        lst, d, el = r
        O = sym('pixel', 'r')
        ck.eqv('frame', f, subst(e.d['val'], {t: O for t in el0}), add(O, A('getValue', el)), what='a constant model adds its value')
        ix = e.d['lv'][2]
        n = [t for p_ in e.pc for t in subterms(p_) if t.op == 'app' and t.a[0] == 'size' and t.a[1] is e.d['lv'][1]]
        if n:
            ck.entail('frame', f, [ge(d, num(0)), lt(d, mk('app', ('size', lst), 'i')), ge(ix, num(0)), lt(ix, n[0])], band(*e.pc), what='a constant model is added to every pixel')
        else:
            ck.undecided('frame', f, 'pixels of a constant model')
        kinds.setdefault('constant', []).append(lst)
    for k in ('constant', 'point', 'extended'):
        v = kinds.get(k, [])
        want = 'm_%s_model_list' % k
        if len(v) != 1 or not ('fld' == v[0].a[0] and str(v[0].a[1]).strip("'") == want):
            (ck.fail if len(v) > 1 or not any(lost(t, s.it.exact) for e in s.effects if e.kind in ('addImageToImage', 'store') for t in e_terms(e)) else ck.undecided)('frame', f, 'the %s models are added %d times' % (k, len(v)))
        else:
            ck.holds('frame', f, 'the %s models are added once each' % k)
    context(ck, F, cls)
    recompute(ck, F, cls)


def odd(ck, f, lits, leaf):
    what = 'the raster has odd dimensions'
    for m in {t for l in lits for t in subterms(l) if t.op == 'app' and t.a[0] == 'imod' and const(t.a[2]) == 2}:
        c = const(sub(leaf, m.a[1]))
        if c is None:
            continue
        even = entails(list(lits), eq(m, num(0)))
        if not even and not entails(list(lits), bnot(eq(m, num(0)))):
            continue
        ok = (int(c) + (0 if even else 1)) % 2 == 1
        return (ck.holds if ok else ck.fail)('frame', f, what)
    ck.entail('frame', f, list(lits), eq(app('imod', (leaf, num(2)), 'i'), ONE), what=what)


def e_terms(e):
    for x in list(e.d.values()) + list(e.pc):
        for y in (x if isinstance(x, (list, tuple)) else [x]):
            if isinstance(y, T):
                yield from subterms(y)


def context(ck, F, cls):
    """the context-keeping wrapper prepares a context once per model and convolves with that of the model"""
    fs = [f for f in F.funcs.values() if f['n'] == 'convolve' and 'FrameModelPsfContextContainer<' in f['q'] and f.get('body') and f['params'][0]['n'] != '']
    fs = [f for f in fs if 'type-parameter' not in ''.join(p['t'] for p in f['params']) and len(f['params']) == 2]
    if not fs:
        return ck.undecided('frame', 'ModelFitting/ModelFitting/Models/FrameModel.h', 'no context container')
    f = fs[0]
    this, img, i = sym('psf', 'o'), sym('image', 'o'), sym('i', 'i')

    def rec(k):
        def h(it, n, st):
            v = [it._t(it.val(it.ev(q, st), st), st) for q in n['args']]
            it.effect(k, st, n, args=v)
            return mk('app', (k,) + tuple(v), 'o') if k == 'prepare' else num(0)
        return h
    s = summarise(F, f, this=this, args={0: i, 1: img}, st=State(), handlers={'prepare': rec('prepare'), 'convolve': rec('convolve')})
    cv = [e for e in s.effects if e.kind == 'convolve']
    pr = [e for e in s.effects if e.kind == 'prepare']
    if len(cv) != 1 or len(pr) > 1:
        return ck.undecided('frame', f, '%d convolutions, %d prepared contexts' % (len(cv), len(pr)))
    a = cv[0].d['args']
    if a[0] is not img:
        ck.fail('frame', f, 'the wrapper convolves another image')
    if any(p is not TRUE for p in cv[0].pc) and not entails([], band(*cv[0].pc)):
        ck.fail('frame', f, 'the wrapper does not always convolve')
    idx = [e for e in s.effects if e.kind in ('index', 'store', 'read') and e.kind == 'index']
    bad = [e for e in idx if e.d['idx'] is not i]
    if len(a) < 2:
        ck.fail('frame', f, 'the wrapper convolves without the context of the model')
    elif bad:
        (ck.undecided if lost(bad[0].d['idx']) else ck.fail)('frame', f, 'the wrapper uses context %s of model i' % show(bad[0].d['idx'])[:60])
    else:
        ck.holds('frame', f, 'the wrapper convolves with the context of the model (%d accesses)' % len(idx))


def recompute(ck, F, cls):
    """a recomputed image starts from an empty frame of the stated size"""
    fs = [f for f in F.funcs.values() if f['n'] == 'recomputeImage' and f['q'].startswith(cls) and f.get('body')]
    if not fs:
        return
    f = fs[0]
    this = sym('frame', 'o')

    def rec(k):
        def h(it, n, st):
            v = [it._t(it.val(it.ev(q, st), st), st) for q in n['args']]
            it.effect(k, st, n, args=v)
            return sym('empty frame', 'o')
        return h
    s = summarise(F, f, this=this, args={}, st=State(), handlers={'factory': rec('factory'), 'rasterToImage': rec('rasterToImage')})
    fa = [e for e in s.effects if e.kind == 'factory']
    ra = [e for e in s.effects if e.kind == 'rasterToImage']
    if len(fa) != 1 or len(ra) != 1:
        return ck.undecided('frame', f, 'recomputation creates %d frames and fills %d' % (len(fa), len(ra)))
    for k, w in ((0, 'm_width'), (1, 'm_height')):
        v = fa[0].d['args'][k]
        ok = v.op == 'app' and v.a[0] == 'fld' and str(v.a[1]).strip("'") == w
        (ck.holds if ok else ck.undecided if lost(v) else ck.fail)('frame', f, 'dimension %d of a recomputed frame is %s' % (k, show(v)[:60]))
    if s.effects.index(fa[0]) > s.effects.index(ra[0]):
        ck.fail('frame', f, 'the frame is filled before it is created')
