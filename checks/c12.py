"""C12: aperture flux, flags and check-image drawing: which pixels are used, what each contributes, and when flags are raised."""
from sx.folds import *
from sx.util import pure

AP, IMG_, VAR, PIX, THR = (sym(n, 'o') for n in ('aperture', 'image', 'variance_map', 'pixel_list', 'threshold_image'))
CX, CY, VT = sym('cx', 'r'), sym('cy', 'r'), sym('variance_threshold', 'r')
SYM = sym('use_symmetry', 'b')
IW, IH = sym('W', 'i'), sym('H', 'i')
I, J = sym('i', 'i'), sym('j', 'i')
X0, Y0, X1, Y1 = (sym(n, 'i') for n in ('x0', 'y0', 'x1', 'y1'))       # clipped box
RX0, RY0, RX1, RY1 = (sym(n, 'i') for n in ('bx0', 'by0', 'bx1', 'by1'))   # aperture box
CLIP0, CLIP1 = sym('min_clipped', 'b'), sym('max_clipped', 'b')
BIASED, BOUNDARY, NEIGHBORS, OUTSIDE = 1, 8, 16, 32
BOX = [ge(X0, num(0)), le(X0, X1), lt(X1, IW), ge(Y0, num(0)), le(Y0, Y1), lt(Y1, IH), gt(IW, num(0)), gt(IH, num(0)), le(RX0, RX1), le(RY0, RY1)]
THRESHOLDS = (Fraction(1, 10), Fraction(0.1), Fraction(13421773, 134217728), Fraction('0.10000000000000001'))


def run(ck):
    ck.rule('bounds', 'pixels are read and written only inside the image, whatever the aperture position, size or shape')
    ck.rule('flux', 'flux, variance, area and bad area accumulate, over exactly the clipped box, the documented per-pixel contribution')
    ck.rule('mirror', 'a replaced pixel takes value and variance of its point mirror about the centre, when that is inside the image and valid, and nothing otherwise')
    ck.rule('flags', 'OUTSIDE, BOUNDARY, BIASED and NEIGHBORS are raised exactly under their documented conditions')
    ck.rule('neighbours', 'neighbour pixels are the pixels above threshold that do not belong to the object')
    ck.rule('draw', 'filling or drawing an aperture writes exactly the pixels inside the image with non-zero area')
    F = ck.F = Facts(['SEFramework/src/lib/Aperture/FluxMeasurement.cpp', 'SEFramework/src/lib/Aperture/Flagging.cpp', 'SEFramework/src/lib/Aperture/NeighbourInfo.cpp', VERIF + '/drivers/apertures.cpp', VERIF + '/drivers/utils.cpp'] + tus('SEFramework/src/lib/Aperture/*Aperture.cpp'))
    ck.assumptions += ['the images passed together have the same size (variance map, threshold image and measured image)', 'the aperture box has its corners in order (min <= max)']
    ck.section(flux, ck, F)
    ck.section(flags, ck, F)
    ck.section(neighbours, ck, F)
    ck.section(draw, ck, F)
    for r, t in (('ap-inverse', 'a transformed aperture evaluates its inner aperture at the inverse-transformed offset'), ('ap-box', 'every pixel in range of the shape lies inside [getMinPixel, getMaxPixel]'), ('ap-area', 'circular coverage of a pixel'), ('ap-radius', 'the squared radius of an aperture is its defining quadratic form')):
        ck.rule(r, t)
    from checks import c26
    ck.section(c26.apertures, ck, F)
    return 5


def area(x, y):
    return papp('SourceXtractor::Aperture::getArea', AP, CX, CY, x, y)


def papp(q, *a, sort='r'):
    return app('call:' + q, a, sort)


def hset(F, calls):
    """handlers: images, the aperture box, and clipping to the image (whose own contract is C25)"""
    def box(which):
        def h(it, n, st):
            o = n.get('obj')
            if o is None or not (it.objval(o, st) is AP):
                return None
            a = [it._t(it.val(it.arg(x, 'v', st), st), st) for x in n['args']]
            calls.append(('box', n, tuple(a)))
            r = it.fresh('obj', 'o')
            st.heap[(r, 'm_x')], st.heap[(r, 'm_y')] = (RX0, RY0) if which == 'min' else (RX1, RY1)
            return r
        return h

    def clip(it, n, st):
        o = it.objval(n['obj'], st)
        a = [it._t(it.val(it.arg(x, 'v', st), st), st) for x in n['args']]
        x, y = it.hread(st, o, 'm_x', 'int'), it.hread(st, o, 'm_y', 'int')
        calls.append(('clip', n, tuple(a), (x, y)))
        if x is RX0 and y is RY0:
            nx, ny, fl = X0, Y0, CLIP0
        elif x is RX1 and y is RY1:
            nx, ny, fl = X1, Y1, CLIP1
        elif (x, y) in ((X0, Y0), (X1, Y1)):
            return FALSE
        else:
            return None
        st.heap[(o, 'm_x')], st.heap[(o, 'm_y')] = nx, ny
        return fl

    def size(v):
        return lambda it, n, st: v if n.get('obj') is not None and it.objval(n['obj'], st) in (IMG_, VAR, THR) else None

    h = handlers(F)
    gw, gh = h['getWidth'], h['getHeight']

    def wrap(old, v):
        def f(it, n, st):
            r = old(it, n, st)
            if isinstance(r, T) and r.op == 'app' and r.a[0] in ('width', 'height') and r.a[1] in (IMG_, VAR, THR):
                return v
            return r
        return f
    h['getWidth'], h['getHeight'] = wrap(gw, IW), wrap(gh, IH)
    h['getMinPixel'], h['getMaxPixel'], h['clip'] = box('min'), box('max'), clip
    return h


def clipped(ck, f, calls):
    n = 0
    for c in calls:
        if c[0] == 'clip' and c[3] in ((RX0, RY0), (RX1, RY1), (X0, Y0), (X1, Y1)):
            n += 1
            ck.eqv('bounds', f, c[2][0], IW, what='box is clipped to the image width')
            ck.eqv('bounds', f, c[2][1], IH, what='box is clipped to the image height')
        elif c[0] == 'box':
            ck.eqv('bounds', f, c[2][0], CX, what='aperture box is taken around the centre (x)')
            ck.eqv('bounds', f, c[2][1], CY, what='aperture box is taken around the centre (y)')
    return n


SZ = {app('width', (x,), 'i'): IW for x in (IMG_, VAR, THR)}
SZ.update({app('height', (x,), 'i'): IH for x in (IMG_, VAR, THR)})


def sized(effects):
    """image sizes in their symbolic form"""
    for e in effects:
        e.d = {k: (subst(v, SZ) if isinstance(v, T) else v) for k, v in e.d.items()}
        e.pc = [subst(p, SZ) for p in e.pc]
    return effects


def bounds(ck, f, s, what):
    FX = [eq(v, k) for k, v in SZ.items()]
    inbounds(ck, 'bounds', f, sized(s.effects), BOX + FX, what)


def field(s, name):
    return s.it.hread(s.st, s.ret, name, 'float')


def flux(ck, F):
    f = F.one('measureFlux')
    calls = []
    s = summarise(F, f, args={0: AP, 1: CX, 2: CY, 3: IMG_, 4: VAR, 5: VT, 6: SYM}, handlers=hset(F, calls))
    bounds(ck, f, s, 'measureFlux')
    clipped(ck, f, calls)
    outside = bor(lt(RX1, num(0)), lt(RY1, num(0)), ge(RX0, IW), ge(RY0, IH))
    if not isinstance(s.ret, T):
        return ck.undecided('flux', f, 'no value returned')
    w, h = add(sub(X1, X0), num(1)), add(sub(Y1, Y0), num(1))
    px, py = add(X0, I), add(Y0, J)
    a = area(px, py)
    v, va = pix(IMG_, px, py), pix(VAR, px, py)
    inside = [bnot(outside)]
    ms = mirror(subst(field(s, 'm_flux'), SZ))
    bad = gt(va, VT)
    vals = {}
    for name in ('m_flux', 'm_variance', 'm_total_area', 'm_bad_area', 'm_flags'):
        t = field(s, name)
        if not isinstance(t, T):
            ck.undecided('flux', f, name + ': no value')
            continue
        vals[name] = given(subst(t, SZ), outside, False)
        o = given(subst(t, SZ), outside, True)
        ck.eqv('flags' if name == 'm_flags' else 'flux', f, o, num(OUTSIDE if name == 'm_flags' else 0), facts=[outside] + BOX[6:], what='aperture outside the image: ' + name)
    want = {'m_total_area': a, 'm_bad_area': ite(eq(a, num(0)), num(0), ite(bad, num(1), num(0)))}
    if ms is not None:
        mv, mva = ms
        want['m_flux'] = mul(a, ite(bad, ite(SYM, mv, num(0)), v))
        want['m_variance'] = mul(a, ite(bad, ite(SYM, mva, num(0)), va))
    for name, wt in want.items():
        if name in vals:
            sum_check(ck, 'flux', f, vals[name], I, J, w, h, wt, BOX + inside, name + ' per pixel', base=num(0))
    if all(k in vals for k in ('m_total_area', 'm_bad_area', 'm_flags')):
        flagval(ck, f, vals['m_flags'], [(bor(CLIP0, CLIP1), BOUNDARY), (ratio(vals['m_bad_area'], vals['m_total_area']), BIASED)], inside + BOX, 'measureFlux')


def given(t, c, val):
    """t under the assumption that disjunction c is true / false"""
    if not val:
        for x in (c.a if c.op == 'or' else [c]):
            t = replace_cond(t, x, False)
        return replace_cond(t, c, False)
    return replace_cond(t, c, True)


def ratio(bad, total):
    return lambda thr: band(gt(total, num(0)), gt(div(bad, total), num(thr)))


def flagval(ck, f, got, parts, facts, what):
    """got = union of the flags whose conditions hold"""
    sums = {}
    def ab(t):
        for x in subterms(t):
            if x.op == 'app' and x.a[0] == 'SUM' and x not in sums:
                pass
        return t
    res = []
    for thr in THRESHOLDS:
        want = num(0)
        for c, bit in parts:
            c = c(thr) if callable(c) else c
            want = add(want, ite(c, num(bit), num(0)))
        tot = [x for t in (got, want) for x in subterms(t) if x.op == 'app' and x.a[0] == 'SUM']
        top = [x for x in tot if not any(x is not y and x in subterms(y) for y in tot)]
        env = {x: sym('?sum%d' % k, 'r') for k, x in enumerate(sorted(set(top), key=lambda z: z.sk))}
        g, wn = bits(subst(got, env)), subst(want, env)
        r, why = equal(g, wn, [subst(x, env) for x in facts if not (set(subterms(x)) & set(top))])
        if r:
            return ck.holds('flags', f, what + ': flags raised')
        res.append((r, why, g, wn))
    r, why, g, wn = res[0]
    if r is None or lost(g) or foreign(g, wn):
        return ck.undecided('flags', f, '%s: %s; %s' % (what, why, show(g)))
    return ck.fail('flags', f, '%s: flags are %s, required %s; differs for %s' % (what, show(g), show(wn), why))


def bits(t):
    """resolve bitwise operators by splitting the conditions inside their operands"""
    for k in range(24):
        bs = [x for x in subterms(t) if x.op == 'app' and x.a[0] in ('bor', 'band', 'bxor') and split_ites([x]) is not None]
        if not bs:
            break
        b = bs[0]
        c = split_ites([b])
        t = subst(t, {b: ite(c, replace_cond(b, c, True), replace_cond(b, c, False))})
    return t


def mirror(t):
    """value and variance of the mirror pixel of clipped-box pixel (I, J), in image coordinates.
    The rounding of 2 c - p to a pixel is half-up or half-down: any constant in [0.4999, 0.5] next to the exact half is taken from the code"""
    halves = [Fraction('0.49999')]
    for x in subterms(t):
        if x.op == 'app' and x.a[0] == 'floor':
            for c in (CX, CY):
                k = sub(x.a[1], scale(c, 2))
                k = subst(k, {z: num(0) for z in subterms(k) if z.op == 'sym'})
                k = const(k)
                if k is not None and Fraction('0.4999') <= k <= Fraction(1, 2):
                    halves = [k]
    half = num(halves[0])
    mx = app('floor', (sub(add(scale(CX, 2), half), add(X0, I)),), 'i')
    my = app('floor', (sub(add(scale(CY, 2), half), add(Y0, J)),), 'i')
    # relative to the cut-out: 2 (c - min) - pixel
    rx, ry = sub(mx, X0), sub(my, Y0)
    w, h = add(sub(X1, X0), num(1)), add(sub(Y1, Y0), num(1))
    ok = band(ge(rx, num(0)), ge(ry, num(0)), lt(rx, w), lt(ry, h), lt(pix(VAR, mx, my), VT))
    return ite(ok, pix(IMG_, mx, my), num(0)), ite(ok, pix(VAR, mx, my), num(0))


def flags(ck, F):
    f = F.one('computeFlags')
    calls, made = [], []
    hs = hset(F, calls)

    def ninfo(it, n, st):
        a = [it.val(it.ev(x, st), st) for x in n['args']]
        if len(a) != 4:
            return None
        o = it.fresh('ninfo', 'o')
        rd = lambda z, m: it._t(it.hread(st, it.rd(st, z.lv, '') if isinstance(z, Ref) else z, m, 'int'), st)
        made.append((o, (rd(a[0], 'm_x'), rd(a[0], 'm_y')), (rd(a[1], 'm_x'), rd(a[1], 'm_y')), a[2], a[3], list(st.pc)))
        return o

    def isn(it, n, st):
        o = it.objval(n['obj'], st)
        a = [it._t(it.val(it.arg(x, 'v', st), st), st) for x in n['args']]
        it.effect('neighbour', st, n, obj=o, x=a[0], y=a[1])
        return app('neighbour', (a[0], a[1]), 'b')
    hs['NeighbourInfo#ctor'] = ninfo
    hs['isNeighbourObjectPixel'] = isn
    s = summarise(F, f, args={0: AP, 1: CX, 2: CY, 3: PIX, 4: IMG_, 5: VAR, 6: THR, 7: VT}, handlers=hs)
    bounds(ck, f, s, 'computeFlags')
    clipped(ck, f, calls)
    for o, a, b, pl, im, pc in made:
        inside_box = lambda p: band(ge(p[0], num(0)), lt(p[0], IW), ge(p[1], num(0)), lt(p[1], IH))
        ck.eqv('neighbours', f, pl if isinstance(pl, T) else s.it.rd(s.st, pl.lv, ''), PIX, what='pixels of the object')
        ck.eqv('neighbours', f, im if isinstance(im, T) else s.it.rd(s.st, im.lv, ''), THR, what='image of the pixels above threshold')
    for e in s.effects:
        if e.kind == 'neighbour':
            m = [x for x in made if x[0] is e.d['obj']]
            if m:
                o, a, b, _, _, _ = m[0]
                ck.entail('bounds', f, [p for p in e.pc] + BOX, band(ge(e.d['x'], a[0]), le(e.d['x'], b[0]), ge(e.d['y'], a[1]), le(e.d['y'], b[1])), what='neighbour map is read inside its box')
    if not isinstance(s.ret, T):
        return ck.undecided('flags', f, 'no value returned')
    got = subst(s.ret, SZ)
    w, h = add(sub(X1, X0), num(1)), add(sub(Y1, Y0), num(1))
    px, py = add(X0, I), add(Y0, J)
    a = area(px, py)
    wants = {'total': a, 'bad': ite(eq(a, num(0)), num(0), ite(gt(pix(VAR, px, py), VT), num(1), num(0))),
             'full': ite(eq(a, num(0)), num(0), ite(app('neighbour', (px, py), 'b'), num(1), num(0)))}
    tot = sorted({x for x in subterms(got) if x.op == 'app' and x.a[0] == 'SUM'}, key=lambda z: z.sk)
    top = [x for x in tot if not any(x is not y and x in subterms(y) for y in tot)]
    # identify the sums by what they accumulate; a sum that is none of the three is reported against the closest role
    role = {}
    for x in top:
        fo = unfold(x)
        b, why = over_rect(fo, I, J, w, h, BOX)
        if not isinstance(b, T):
            if b is False:
                ck.fail('flags', f, 'areas are counted over the wrong pixels: ' + why)
                return
            continue
        for k, wt in wants.items():
            if k not in role and equal(b, wt, BOX + inrect(I, J, w, h))[0]:
                role[k] = x
                ck.holds('flags', f, '%s area per pixel' % k)
                break
        else:
            free = [k for k in wants if k not in role]
            has = {y.a[0] for y in subterms(b) if y.op == 'app'}
            k = 'full' if 'neighbour' in has else 'bad' if 'pix' in has else 'total'
            if k in role or lost(b) or foreign(b, wants[k]):
                ck.undecided('flags', f, 'sum not recognised: ' + show(b))
            else:
                ck.eqv('flags', f, b, wants[k], facts=BOX + inrect(I, J, w, h), what=k + ' area per pixel')
                role[k] = x
    if len(role) == 3:
        parts = [(bor(CLIP0, CLIP1), BOUNDARY), (ratio(role['bad'], role['total']), BIASED), (ratio(role['full'], role['total']), NEIGHBORS)]
        flagval(ck, f, got, parts, BOX, 'computeFlags')
    elif len(top) < 3:
        ck.undecided('flags', f, 'found only %s' % sorted(role))


def neighbours(ck, F):
    fs = [f for f in F.funcs.values() if f['n'] == 'NeighbourInfo' and len(f['params']) == 4 and f.get('body')]
    if not fs:
        return ck.undecided('neighbours', 'NeighbourInfo.cpp', 'no constructor')
    f = fs[0]
    calls = []
    P0, P1 = sym('pmin', 'o'), sym('pmax', 'o')
    st = State()
    for o, x, y in ((P0, RX0, RY0), (P1, RX1, RY1)):
        st.heap[(o, 'm_x')], st.heap[(o, 'm_y')] = x, y
    hs = hset(F, calls)
    it = Interp(F, handlers=hs)
    this = sym('self', 'o')
    s = summarise(F, f, args={0: P0, 1: P1, 2: PIX, 3: THR}, this=this, st=st, interp=it)
    clipped(ck, f, calls)
    bounds(ck, f, s, 'NeighbourInfo')
    # the image that isNeighbourObjectPixel reads
    g = F.one('NeighbourInfo::isNeighbourObjectPixel')
    mark = len(it.effects)
    x, y = sym('x', 'i'), sym('y', 'i')
    s2 = summarise(F, g, args={0: x, 1: y}, this=this, st=s.st.copy(), interp=it)
    ix = [e for e in it.effects[mark:] if e.kind == 'index']
    del it.effects[mark:]
    w, h = add(sub(X1, X0), num(1)), add(sub(Y1, Y0), num(1))
    if len(ix) != 1:
        return ck.undecided('neighbours', g, '%d element accesses' % len(ix))
    vec = ix[0].d['obj']
    addr = lambda px, py: add(sub(px, X0), mul(sub(py, Y0), w))
    ck.eqv('neighbours', g, subst(ix[0].d['idx'], SZ), addr(x, y), facts=BOX, what='position of a pixel in the neighbour map')
    size = s.st.heap.get((vec, '#size'))
    if isinstance(size, T):
        ck.eqv('bounds', f, subst(size, SZ), mul(w, h), facts=BOX, what='size of the neighbour map')
    ws = [e for e in s.effects if e.kind == 'store' and e.d['lv'][0] == 'elem' and e.d['lv'][1] is vec]
    mark_, final = [], []
    for e in ws:
        v = e.d['val']
        (final if isinstance(v, T) and any(z.op == 'app' and z.a[0] == 'pix' for z in subterms(v)) or any(z.op == 'app' and z.a[0] == 'pix' for p in e.pc for z in subterms(p)) else mark_).append(e)
        # inside the map
    if len(mark_) != 1 or len(final) != 1:
        return ck.undecided('neighbours', f, '%d marking and %d final writes' % (len(mark_), len(final)))
    e = mark_[0]
    els = sorted({z for z in subterms(e.d['lv'][2]) if z.op == 'app' and z.a[0] == 'fld' and any(q is PIX for q in subterms(z))}, key=lambda z: z.sk)
    ex = [z for z in els if z.a[1] == 'm_x']
    ey = [z for z in els if z.a[1] == 'm_y']
    if len(ex) != 1 or len(ey) != 1:
        return ck.undecided('neighbours', f, 'marked position %s' % show(e.d['lv'][2]))
    ex, ey = ex[0], ey[0]
    ck.eqv('neighbours', f, subst(e.d['lv'][2], SZ), addr(ex, ey), facts=BOX, what='object pixels are marked at their own position')
    cond = band(*[subst(p, SZ) for p in e.pc if any(z in (ex, ey) for z in subterms(p))])
    ck.eqv('neighbours', f, cond, band(ge(ex, X0), le(ex, X1), ge(ey, Y0), le(ey, Y1)), facts=BOX, what='exactly the object pixels inside the box are marked')
    m = const(e.d['val'])
    P = Pixels(F, s, s.it.hread(s.st, this, [fl['n'] for fl in F.rec('NeighbourInfo')[0]['fields'] if 'Image<' in fl['t']][0], ''))
    e = final[0]
    P_off = num(0)
    own = sym('?mark', 'i')
    v = e.d['val']
    lv = e.d['lv'][2]
    v = subst(v, {z: own for z in subterms(v) if z.op == 'app' and isinstance(z.a[0], str) and z.a[0].startswith('elem') and z.a[1] is vec and equal(z.a[2], lv)[0]})
    P.stride = w if P.w is None else subst(P.stride, SZ)
    P.off = P_off
    loc = P.locate(e, vec, I, J)
    if loc is None:
        loc = _locate(P, e, w)
    if loc is None:
        return ck.undecided('neighbours', f, 'final write at ' + show(lv))
    mp, g2 = loc
    val = to_num(subst(subst(v, mp), SZ)) if v.sort == 'b' else subst(subst(v, mp), SZ)
    want = ite(band(gt(pix(THR, add(X0, I), add(Y0, J)), num(0)), bnot(eq(own, num(m)))), num(1), num(0))
    ck.eqv('neighbours', f, val, want, facts=BOX + inrect(I, J, w, h) + [bor(eq(own, num(0)), eq(own, num(m)))], what='final value of a map pixel')
    pcs = [subst(subst(p, mp), SZ) for p in e.pc]
    ck.entail('neighbours', f, BOX + inrect(I, J, w, h), band(*pcs), what='every map pixel gets its final value')


def _locate(P, e, w):
    return None


def draw(ck, F):
    for name, ar in (('fillAperture', 'getArea'), ('drawAperture', 'drawArea')):
        fs = [f for f in F.funcs.values() if f['n'] == name and not f.get('dep') and f.get('body')]
        if not fs:
            ck.undecided('draw', 'FluxMeasurement.h', name + ' not instantiated')
            continue
        f = fs[0]
        calls = []
        hs = hset(F, calls)

        def setv(it, n, st):
            o = it.objval(n['obj'], st)
            if o is not IMG_:
                return None
            a = [it._t(it.val(it.arg(x, 'v', st), st), st) for x in n['args']]
            it.effect('writepix', st, n, img=o, x=a[0], y=a[1], val=a[2] if len(a) > 2 else None)
            return num(0)
        hs['setValue'] = setv
        V = sym('value', 'r')
        s = summarise(F, f, args={0: AP, 1: CX, 2: CY, 3: IMG_, 4: V}, handlers=hs)
        bounds(ck, f, s, name)
        ws = [e for e in s.effects if e.kind == 'writepix']
        if len(ws) != 1:
            ck.undecided('draw', f, '%d pixel writes' % len(ws))
            continue
        e = ws[0]
        d = e.d
        ck.eqv('draw', f, d['val'], V, what=name + ': value written')
        cs = []
        for L in e.loops:
            if isinstance(L, Loop):
                for x, v0, step in L.vars:
                    cs.append((x, v0, step))
        env = {}
        for x, v0, step in cs:
            if d['x'] is x or sub(d['x'], x) is not None and x in subterms(d['x']):
                env[x] = sub(I, sub(d['x'], x)) if x not in subterms(sub(d['x'], x)) else None
            elif x in subterms(d['y']):
                env[x] = sub(J, sub(d['y'], x)) if x not in subterms(sub(d['y'], x)) else None
        if len(env) != 2 or None in env.values():
            ck.undecided('draw', f, '%s: position %s, %s' % (name, show(d['x']), show(d['y'])))
            continue
        a = papp('SourceXtractor::Aperture::' + ar, AP, CX, CY, I, J)
        got = band(*[subst(p, env) for p in e.pc])
        inimg = band(ge(I, num(0)), ge(J, num(0)), lt(I, IW), lt(J, IH))
        full = [ge(I, RX0), le(I, RX1), ge(J, RY0), le(J, RY1)]
        ck.eqv('draw', f, got, band(gt(a, num(0)), inimg), facts=full + [gt(IW, num(0)), gt(IH, num(0)), ge(a, num(0))], what=name + ': pixels of the aperture box that are written')
