"""C26: Mat22 algebra, aperture geometry and numerical derivatives as identities of value numbers."""
from sx.util import *
from sx.folds import unfold

AP = 'SourceXtractor::Aperture::'
H = pure(AP + 'getArea', AP + 'drawArea', AP + 'getRadiusSquared', AP + 'getMinPixel', AP + 'getMaxPixel')


def run(ck):
    ck.rule('mat-index', 'operator[] of a matrix built from (a, b, c, d) returns a, b, c, d, through every constructor and through copy and assignment')
    ck.rule('mat-product', 'entry (i, j) of A*B is sum_k A(i,k) B(k,j); A*s scales every entry; A *= B equals A*B')
    ck.rule('mat-transpose', 'entry (i, j) of the transpose is entry (j, i)')
    ck.rule('mat-inverse', 'GetInverse() times the matrix is the identity wherever the determinant is not zero')
    ck.rule('derivative', 'centralDifference applied to a*t + b gives a, and the points it evaluates are symmetric around x')
    ck.rule('ap-inverse', 'a transformed aperture evaluates its inner aperture at the origin-centred offset mapped by the inverse of the transform')
    ck.rule('ap-box', 'every pixel in range of the shape lies inside [getMinPixel, getMaxPixel]')
    ck.rule('ap-area', 'a circular aperture covers a pixel fully when it lies inside, not at all when it lies outside, and otherwise by the fraction of evenly spread sample points inside the circle')
    ck.rule('ap-radius', 'the squared radius of an aperture is its defining quadratic form of the offset')
    F = ck.F = Facts([VERIF + '/drivers/utils.cpp'] + tus('SEFramework/src/lib/Aperture/*Aperture.cpp'))
    ck.section(mats, ck, F)
    ck.section(deriv_, ck, F)
    ck.section(apertures, ck, F)
    return 15


def entries(F, s, o, st=None):
    f = [g for g in F.fn('Mat22::operator[]') if g.get('const')] or F.fn('Mat22::operator[]')
    out = []
    for i in range(4):
        r = summarise(F, f[0], args={0: num(i)}, this=o, st=(st or s.st).copy(), interp=s.it)
        v = r.ret
        if isinstance(v, Ref):
            v = s.it.rd(r.st, v.lv, 'double')
        out.append(v)
    return out


def mats(ck, F):
    ct = [f for f in F.fn('Mat22::Mat22') if f.get('fk') == 'ctor']
    c4 = [f for f in ct if len(f['params']) == 4]
    if not c4:
        raise Broken('Mat22(double, double, double, double) vanished')
    A = [sym('a%d' % i, 'r') for i in range(4)]
    B = [sym('b%d' % i, 'r') for i in range(4)]
    # constructors
    for f in ct:
        args, want = None, None
        if len(f['params']) == 4:
            args, want = dict(enumerate(A)), A
        elif len(f['params']) == 1 and 'tuple' in f['params'][0]['t']:
            args, want = {0: Tup(A)}, A
        elif len(f['params']) == 0:
            args, want = {}, [num(1), num(0), num(0), num(1)]
        if want is None:
            continue
        o = sym('m', 'o')
        s = summarise(F, f, args=args, this=o)
        for i, g in enumerate(entries(F, s, o)):
            ck.eqv('mat-index', f, g, want[i], what='entry %d of %d-argument constructor' % (i, len(f['params'])))
    a, st, it = newobj(F, c4[0], 'A', dict(enumerate(A)))
    b, st, it = newobj(F, c4[0], 'B', dict(enumerate(B)), st=st, it=it)
    for f in F.fn('Mat22::operator='):
        s = summarise(F, f, args={0: b}, this=a, st=st.copy(), interp=it)
        for i, g in enumerate(entries(F, s, a)):
            ck.eqv('mat-index', f, g, B[i], what='entry %d after assignment' % i)
    prod = [add(mul(A[2 * i], B[j]), mul(A[2 * i + 1], B[2 + j])) for i in range(2) for j in range(2)]
    for f in F.fn('SExtractor::operator*'):
        if len(f['params']) != 2:
            continue
        if 'Mat22' in f['params'][1]['t'] and 'Mat22' in f['params'][0]['t']:
            s = summarise(F, f, args={0: a, 1: b}, st=st.copy(), interp=it)
            want = prod
        elif 'Mat22' in f['params'][0]['t'] or 'Mat22' in f['params'][1]['t']:
            k = sym('k', 'r')
            p = 0 if 'Mat22' in f['params'][0]['t'] else 1
            s = summarise(F, f, args={p: a, 1 - p: k}, st=st.copy(), interp=it)
            want = [mul(x, k) for x in A]
        else:
            continue
        if not isinstance(s.ret, T):
            ck.undecided('mat-product', f, 'no value')
            continue
        for i, g in enumerate(entries(F, s, s.ret)):
            ck.eqv('mat-product', f, g, want[i], what='entry %d' % i)
    for f in F.fn('Mat22::operator*='):
        if 'Mat22' not in f['params'][0]['t']:
            continue
        s = summarise(F, f, args={0: b}, this=a, st=st.copy(), interp=it)
        for i, g in enumerate(entries(F, s, a)):
            ck.eqv('mat-product', f, g, prod[i], what='*= entry %d' % i)
    f = F.one('Mat22::GetTranspose')
    s = summarise(F, f, this=a, st=st.copy(), interp=it)
    for i, g in enumerate(entries(F, s, s.ret)):
        ck.eqv('mat-transpose', f, g, A[(0, 2, 1, 3)[i]], what='entry %d' % i)
    f = F.one('Mat22::GetInverse')
    s = summarise(F, f, this=a, st=st.copy(), interp=it)
    det = sub(mul(A[0], A[3]), mul(A[1], A[2]))
    want = [div(A[3], det), neg(div(A[1], det)), neg(div(A[2], det)), div(A[0], det)]
    for i, g in enumerate(entries(F, s, s.ret)):
        ck.eqv('mat-inverse', f, g, want[i], [bnot(eq(det, num(0)))], what='entry %d' % i)


def deriv_(ck, F):
    f = F.one('NumericalDerivative::centralDifference')
    s = summarise(F, f)
    fn, x = s.params[0], s.params[1]
    if not isinstance(s.ret, T):
        return ck.undecided('derivative', f, 'no value')
    ev = sorted({t for t in subterms(s.ret) if t.op == 'app' and t.a[0] == 'apply' and t.a[1] is fn}, key=repr)
    if not ev:
        return ck.undecided('derivative', f, 'no evaluation of the function found')
    a, b = sym('a', 'r'), sym('b', 'r')
    lin = {t: add(mul(a, t.a[2]), b) for t in ev}
    ck.eqv('derivative', f, subst(s.ret, lin), a, what='slope of a linear function')
    quad = {t: mul(a, mul(sub(t.a[2], x), sub(t.a[2], x))) for t in ev}
    ck.eqv('derivative', f, subst(s.ret, quad), num(0), what='derivative at the vertex of a parabola')


def under(x):
    """argument of a rounding application"""
    if x.op == 'app' and x.a[0] in ('trunc', 'floor', 'ceil', 'round'):
        return x.a[1]
    return x


def apertures(ck, F):
    cx, cy, px, py = (sym(n, 'r') for n in ('cx', 'cy', 'px', 'py'))
    dx, dy = sub(px, cx), sub(py, cy)
    ix, iy = sym('ix', 'i'), sym('iy', 'i')
    # ---- circle
    r = sym('r', 'r')
    o = Obj(F, 'CircularAperture', {0: r}, nparams=1)
    if o.ok:
        f = o.method('getRadiusSquared', 4)
        s = o.call('getRadiusSquared', {0: cx, 1: cy, 2: px, 3: py})
        ck.eqv('ap-radius', f, s.ret, add(mul(dx, dx), mul(dy, dy)), what='circle')
        ck.section(circle_area, ck, F, o, r)
        box(ck, o, 'circle', [gt(r, num(0))], (sub(cx, r), add(cx, r), sub(cy, r), add(cy, r)), (cx, cy))
    # ---- ellipse
    cxx, cyy, cxy, R = (sym(n, 'r') for n in ('cxx', 'cyy', 'cxy', 'R'))
    o = Obj(F, 'EllipticalAperture', {0: cxx, 1: cyy, 2: cxy, 3: R}, nparams=4)
    if o.ok:
        f = o.method('getRadiusSquared', 4)
        s = o.call('getRadiusSquared', {0: cx, 1: cy, 2: px, 3: py})
        q = add(add(mul(cxx, mul(dx, dx)), mul(cyy, mul(dy, dy))), mul(cxy, mul(dx, dy)))
        ck.eqv('ap-radius', f, s.ret, q, what='ellipse')
        g = o.method('getArea', 4)
        s = o.call('getArea', {0: cx, 1: cy, 2: px, 3: py})
        if isinstance(s.ret, T):
            ck.eqv('ap-radius', g, s.ret, ite(lt(q, mul(R, R)), num(1), num(0)), what='ellipse area is 1 strictly inside R and 0 elsewhere')
        disc = sub(mul(num(4), mul(cxx, cyy)), mul(cxy, cxy))
        ex = mul(R, app('sqrt', (div(mul(num(4), cyy), disc),), 'r'))
        ey = mul(R, app('sqrt', (div(mul(num(4), cxx), disc),), 'r'))
        box(ck, o, 'ellipse', [gt(R, num(0)), gt(cxx, num(0)), gt(cyy, num(0)), gt(disc, num(0))], (sub(cx, ex), add(cx, ex), sub(cy, ey), add(cy, ey)), (cx, cy))
    # ---- transformed
    t = [sym('t%d' % i, 'r') for i in range(4)]
    inner = sym('decorated', 'o')
    o = Obj(F, 'TransformedAperture', {0: inner, 1: Tup(t)}, nparams=2, handlers=H)
    if not o.ok:
        raise Broken('TransformedAperture(aperture, jacobian) vanished')
    det = sub(mul(t[0], t[3]), mul(t[1], t[2]))
    wx = div(sub(mul(dx, t[3]), mul(dy, t[2])), det)
    wy = div(sub(mul(dy, t[0]), mul(dx, t[1])), det)
    nz = [bnot(eq(det, num(0)))]
    for m in ('getArea', 'drawArea', 'getRadiusSquared'):
        f = o.method(m, 4)
        s = o.call(m, {0: cx, 1: cy, 2: px, 3: py})
        v = s.ret
        if not (isinstance(v, T) and v.op == 'app' and v.a[0] == 'call:' + AP + m and len(v.a) == 6):
            if isinstance(v, T) and v.op == 'app' and str(v.a[0]).startswith('call:' + AP):
                ck.fail('ap-inverse', f, '%s asks the inner aperture for %s' % (m, v.a[0][5:]))
            else:
                ck.undecided('ap-inverse', f, 'value %s' % (show(v) if isinstance(v, T) else v))
            continue
        # any centre is fine as long as the offset from it is the inverse image
        ck.eqv('ap-inverse', f, sub(v.a[4], v.a[2]), wx, nz, what=m + ' inner x offset')
        ck.eqv('ap-inverse', f, sub(v.a[5], v.a[3]), wy, nz, what=m + ' inner y offset')
    lo, hi = papp(AP + 'getMinPixel', inner, num(0), num(0), sort='o'), papp(AP + 'getMaxPixel', inner, num(0), num(0), sort='o')
    fm = lambda p, n: mk('app', ('fld', n, p), 'i')
    for m, low in (('getMinPixel', True), ('getMaxPixel', False)):
        f = o.method(m, 2)
        s = o.call(m, {0: cx, 1: cy})
        if not isinstance(s.ret, T):
            ck.undecided('ap-box', f, 'no value')
            continue
        X, Y = rd(s, s.ret, 'm_x', 'int'), rd(s, s.ret, 'm_y', 'int')
        for u in (lo, hi):
            for v in (lo, hi):
                ux, vy = fm(u, 'm_x'), fm(v, 'm_y')
                kx, ky = add(mul(ux, t[0]), mul(vy, t[2])), add(mul(ux, t[1]), mul(vy, t[3]))
                for got, c, k, p, n in ((X, cx, kx, ix, 'x'), (Y, cy, ky, iy, 'y')):
                    if low:
                        ck.entail('ap-box', f, [ge(p, num(0)), ge(p, add(c, k))], le(got, p), what='transformed lower %s covers a corner' % n)
                    else:
                        ck.entail('ap-box', f, [ge(p, num(0)), le(p, add(c, k))], ge(got, p), what='transformed upper %s covers a corner' % n)


def circle_area(ck, F, o, r):
    """the covered fraction of a pixel: 1 well inside, 0 well outside, otherwise the fraction of a regular grid of sample points inside the pixel that lie in the circle"""
    px, py = sym('px', 'r'), sym('py', 'r')
    f = o.method('getArea', 4)
    s = o.call('getArea', {0: num(0), 1: num(0), 2: px, 3: py})
    if not isinstance(s.ret, T):
        return ck.undecided('ap-area', f, 'no value')
    d2 = add(mul(px, px), mul(py, py))
    base = [gt(r, num(0))]
    n = 0
    env = {x: sym('?sum%d' % k, 'r') for k, x in enumerate(sorted({x for x in subterms(s.ret) if x.op == 'app' and x.a[0] == 'SUM'}, key=lambda z: len(z.sk)))}
    tops = {x: y for x, y in env.items() if not any(x is not z and x in subterms(z) for z in env)}
    back = {y: x for x, y in tops.items()}
    for lits, (v,) in cases(base, (subst(s.ret, tops),)):
        v = subst(v, back)
        if not lits_feasible(lits):
            continue
        dist = [l for l in lits if l.op in ('lt', 'le') and any(px in subterms(x) for x in [l])]
        known = [l for l in lits if l not in dist]
        n += 1
        c = const(v)
        ins, outs = [], []
        for l in dist:
            p = l.a[0]
            c2 = monos(p).get(((px, 2),))
            if not c2:
                return ck.undecided('ap-area', f, 'condition ' + show(l))
            p = scale(p, 1 / abs(c2))
            if px not in subterms(sub(p, d2)) and py not in subterms(sub(p, d2)):
                ins.append(neg(sub(p, d2)))      # d2 < K
            elif px not in subterms(add(p, d2)) and py not in subterms(add(p, d2)):
                outs.append(add(p, d2))          # d2 > K
            else:
                return ck.undecided('ap-area', f, 'condition ' + show(l))
        half = num(Fraction(70711, 100000))      # just above the half diagonal of a pixel
        if c == 1:
            if not ins:
                ck.fail('ap-area', f, 'a pixel counts as fully inside whatever its distance')
                continue
            ck.entail('ap-area', f, known, bor(*[bor(le(K, num(0)), band(ge(r, half), le(K, mul(sub(r, half), sub(r, half))))) for K in ins]), what='a pixel counted as fully inside is inside')
        elif c == 0:
            if not outs:
                ck.fail('ap-area', f, 'a pixel counts as fully outside whatever its distance')
                continue
            ck.eqv('ap-area', f, to_num(bor(*[ge(K, mul(add(r, half), add(r, half))) for K in outs])), num(1), facts=known, what='a pixel counted as fully outside is outside')
        else:
            fo = unfold(v)
            if fo is None or len(fo.rngs) != 2:
                ck.undecided('ap-area', f, 'area ' + show(v))
                continue
            (a, na), (b, nb) = fo.rngs
            ck.eqv('ap-area', f, fo.base, num(0), what='initial value')
            if const(na) is None or const(nb) is None:
                ck.undecided('ap-area', f, 'number of samples %s x %s' % (show(na), show(nb)))
                continue
            body = fo.body
            if body.op != 'ite':
                ck.undecided('ap-area', f, 'sample weight ' + show(body))
                continue
            cd, w1, w0 = body.a
            if const(w0) != 0:
                cd, w1, w0 = bnot(cd), w0, w1
            ck.eqv('ap-area', f, w0, num(0), what='a sample outside counts nothing')
            k = const(w1)
            if k is None:
                ck.undecided('ap-area', f, 'sample weight ' + show(w1))
            elif abs(k * const(na) * const(nb) - 1) > Fraction(1, 10 ** 9):
                ck.fail('ap-area', f, 'the weights of all samples add up to %s instead of 1' % float(k * const(na) * const(nb)))
            else:
                ck.holds('ap-area', f, 'weights of all samples add up to 1')
            if cd.op not in ('lt', 'le'):
                ck.undecided('ap-area', f, 'sample condition ' + show(cd))
                continue
            c2 = monos(cd.a[0]).get(((px, 2),))
            if not c2 or c2 < 0:
                ck.undecided('ap-area', f, 'sample condition ' + show(cd))
                continue
            q = add(scale(cd.a[0], 1 / c2), mul(r, r))
            # q = (px + u(a,b))^2 + (py + v(a,b))^2
            at = subst(q, {px: num(0), py: num(0)})
            u2 = sub(sub(subst(q, {px: num(1), py: num(0)}), at), num(1))      # 2 u
            v2 = sub(sub(subst(q, {px: num(0), py: num(1)}), at), num(1))
            u, v_ = scale(u2, Fraction(1, 2)), scale(v2, Fraction(1, 2))
            want = add(mul(add(px, u), add(px, u)), mul(add(py, v_), add(py, v_)))
            ck.eqv('ap-area', f, q, want, what='a sample counts when its distance from the centre is within the radius')
            rg = [ge(a, num(0)), lt(a, na), ge(b, num(0)), lt(b, nb)]
            for nm, z in (('x', u), ('y', v_)):
                ck.entail('ap-area', f, rg, band(ge(z, num(Fraction(-1, 2))), le(z, num(Fraction(1, 2)))), what='samples lie inside the pixel (%s)' % nm)
            ux = {t for t in (a, b) if t in subterms(u)}
            vx = {t for t in (a, b) if t in subterms(v_)}
            if ux and ux == vx and len(ux) == 1:
                ck.fail('ap-area', f, 'samples lie on a line: both offsets depend on the same counter')
                continue
            # samples are distinct: each offset depends on exactly one index, with a step that spreads them over the pixel
            for nm, z in (('x', u), ('y', v_)):
                st = [sub(subst(z, {t: add(t, num(1))}), z) for t in (a, b)]
                cs = [const(x) for x in st]
                if None in cs:
                    ck.undecided('ap-area', f, 'sample offset ' + show(z))
                else:
                    nz = [(c_, m) for c_, m in zip(cs, (const(na), const(nb))) if c_ != 0]
                    if len(nz) == 1 and abs(nz[0][0] * nz[0][1] - 1) < Fraction(1, 10 ** 6):
                        ck.holds('ap-area', f, 'samples are spread evenly over the pixel (%s)' % nm)
                    else:
                        ck.fail('ap-area', f, 'samples are not spread evenly over the pixel (%s): offset %s' % (nm, show(z)))
    if n < 3:
        ck.undecided('ap-area', f, 'only %d cases' % n)


def box(ck, o, nm, facts, ext, c):
    lo, hi = o.method('getMinPixel', 2), o.method('getMaxPixel', 2)
    s = o.call('getMinPixel', {0: c[0], 1: c[1]})
    for n, b in (('m_x', ext[0]), ('m_y', ext[2])):
        ck.entail('ap-box', lo, facts, le(rd(s, s.ret, n, 'int'), b), what='%s lower %s' % (nm, n))
    s = o.call('getMaxPixel', {0: c[0], 1: c[1]})
    for n, b in (('m_x', ext[1]), ('m_y', ext[3])):
        ck.entail('ap-box', hi, facts, ge(rd(s, s.ret, n, 'int'), b), what='%s upper %s' % (nm, n))
