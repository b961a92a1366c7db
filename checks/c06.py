"""C06: image views - size, pixel function and chunk function of every view, for all rectangles."""
from sx.images import *
from sx.util import pure

X, Y, W, H = (sym(n, 'i') for n in ('x', 'y', 'w', 'h'))
I, J = sym('i', 'i'), sym('j', 'i')
IM, IM2 = sym('img', 'o'), sym('img2', 'o')


def views(F):
    """(class prefix, constructor predicate, constructor arguments, width, height, pixel function, extra facts)"""
    iw, ih = dim(IM, 'width'), dim(IM, 'height')
    a, b, cw, ch = sym('ox', 'i'), sym('oy', 'i'), sym('sw', 'i'), sym('sh', 'i')
    off = sym('off', 'o')
    ox, oy = app('fld', ('m_x', off), 'i') if False else mk('app', ('fld', 'm_x', off), 'i'), mk('app', ('fld', 'm_y', off), 'i')
    n = lambda k: (lambda f: len(f['params']) == k)
    p = lambda x, y: pix(IM, x, y)
    p2 = lambda x, y: pix(IM2, x, y)
    k, val, flag = sym('k', 'r'), sym('value', 'r'), sym('flag', 'i')
    fun = sym('functor', 'o')
    yield 'SubImage<float', n(5), (IM, a, b, cw, ch), cw, ch, lambda x, y: p(add(a, x), add(b, y)), [], 'sub-image at (x, y)'
    yield 'SubImage<float', n(4), (IM, off, cw, ch), cw, ch, lambda x, y: p(add(ox, x), add(oy, y)), [], 'sub-image at an offset'
    yield 'MirrorImage<float', n(1), (IM,), iw, ih, lambda x, y: p(sub(sub(iw, x), num(1)), sub(sub(ih, y), num(1))), [], 'mirrored image'
    yield 'RecenterImage<float', n(2), (IM, off), iw, ih, lambda x, y: p(app('imod', (add(x, ox), iw), 'i'), app('imod', (add(y, oy), ih), 'i')), [ge(ox, num(0)), ge(oy, num(0))], 'recentred image'
    yield 'ThresholdedImage<float', n(3), (IM, IM2, k), iw, ih, lambda x, y: sub(p(x, y), mul(k, app('sqrt', (p2(x, y),)))), [], 'thresholded image'
    yield 'ConstantImage<float', n(3), (cw, ch, val), cw, ch, lambda x, y: val, [], 'constant image'
    yield 'FunctionalImage<float, float', n(2), (IM, fun), iw, ih, lambda x, y: mk('app', ('apply', fun, x, y, p(x, y)), 'r'), [], 'function image'
    for op, g in (('Subtract', lambda u, v: sub(u, v)), ('Multiply', lambda u, v: mul(u, v)), ('Snr', lambda u, v: div(u, app('sqrt', (v,))))):
        yield 'ProcessedImage<float, SourceXtractor::%sOperation' % op, n(2), (IM, IM2), iw, ih, (lambda g: lambda x, y: g(p(x, y), p2(x, y)))(g), [gt(p2(sym('?any', 'i'), num(0)), num(0))], op.lower() + ' image'
    yield 'MaskedImage<float, long', n(4), (IM, IM2, val, flag), iw, ih, lambda x, y: ite(eq(app('band', (pix(IM2, x, y, 'i'), flag), 'i'), num(0)), p(x, y), val), [], 'masked image'
    # padded images: the source is centred, and padding takes the policy's pixel
    lp, tp = app('idiv', (sub(cw, iw), num(2)), 'i'), app('idiv', (sub(ch, ih), num(2)), 'i')
    pad = [ge(cw, iw), ge(ch, ih), gt(iw, num(0)), gt(ih, num(0))]
    inside = lambda x, y: band(ge(x, lp), lt(x, add(lp, iw)), ge(y, tp), lt(y, add(tp, ih)))
    yield 'PaddedImage<float, nullptr', n(4), (IM, cw, ch, val), cw, ch, lambda x, y: ite(inside(x, y), p(sub(x, lp), sub(y, tp)), val), pad, 'padded image'
    for pol in ('Replicate', 'Reflect', 'Reflect101', 'Wrap'):
        fs = [f for f in F.fn('SourceXtractor::%sCoordinates' % pol)]
        if not fs:
            continue
        pf = fs[0]
        q = 'call:' + pf['q']
        yield 'PaddedImage<float, &SourceXtractor::%sCoordinates' % pol, n(3), (IM, cw, ch), cw, ch, (lambda q: lambda x, y: p(mk('app', (q, iw, sub(x, lp)), 'i'), mk('app', (q, ih, sub(y, tp)), 'i')))(q), pad, pol.lower() + '-padded image'


def run(ck):
    ck.rule('size', 'the view reports its documented size')
    ck.rule('chunk-size', 'a chunk of the view has the requested width and height')
    ck.rule('pixel', 'pixel (i, j) of the chunk read at (x, y) is the documented function of the source pixels for view pixel (x + i, y + j)')
    ck.rule('accessor', 'an accessor returns the pixel of the image at the requested coordinate, whatever was read before, and reads only inside the image')
    ck.rule('inclusive', 'a chunk between two corner coordinates is inclusive on both')
    F = ck.F = Facts([VERIF + '/drivers/images.cpp'])
    policies = {f['q'] for f in F.funcs.values() if f['q'].endswith('Coordinates') and len(f['params']) == 2}
    hs = handlers(F, pure(*policies))
    done = set()
    for pre, pred, args, w, h, fun, facts, what in views(F):
        rs = classes(F, pre)
        if not rs:
            ck.undecided('pixel', 'drivers/images.cpp', 'class %s not instantiated' % pre)
            continue
        for c in ctors(F, rs[0], pred):
            view(ck, F, hs, c, args, w, h, fun, facts, what)
            done.add(pre)
    ck.count('views', len(done))
    ck.section(inclusive, ck, F, hs)
    ck.section(accessor, ck, F)
    return 15


def view(ck, F, hs, c, args, w, h, fun, facts, what):
    V = View(F, c, dict(enumerate(args)), hs=hs)
    for nm, want in (('getWidth', w), ('getHeight', h)):
        f, s = V.call(nm)
        if f is None:
            ck.undecided('size', c, '%s: no %s' % (what, nm))
            continue
        ck.eqv('size', f, s.ret, want, what='%s: %s' % (what, nm))
    f, s = V.call('getChunk', {0: X, 1: Y, 2: W, 3: H}, ints(4))
    if f is None:
        return ck.undecided('pixel', c, '%s: no getChunk' % what)
    P = Pixels(F, s, s.ret)
    if P.w is None:
        return ck.undecided('pixel', f, '%s: %s' % (what, P.why))
    ck.eqv('chunk-size', f, P.w, W, what=what + ': chunk width')
    ck.eqv('chunk-size', f, P.h, H, what=what + ': chunk height')
    fs = [ge(X, num(0)), ge(Y, num(0))] + inrect(I, J, W, H) + [le(add(X, W), w), le(add(Y, H), h)] + facts
    v = P.at(I, J, fs)
    if v is None:
        if P.rowstep and lits_feasible([ge(h, num(2))] + [z for z in fs if z.op in ('lt', 'le')]):
            r, why = equal(P.rowstep[0], P.rowstep[1], fs + [ge(H, num(2)), ge(W, num(2))])
            if r is False:
                return ck.fail('pixel', f, '%s: rows are written %s elements apart into a chunk whose rows are %s elements long; differs for %s' % (what, show(P.rowstep[0]), show(P.rowstep[1]), why))
        return ck.undecided('pixel', f, '%s: %s' % (what, P.why))
    want = fun(add(X, I), add(Y, J))
    ck.eqv('pixel', f, v, want, facts=fs, what=what + ': chunk pixel')


def inclusive(ck, F, hs):
    for f in [f for f in F.funcs.values() if f['n'] == 'getChunk' and f['q'].startswith('SourceXtractor::Image<')]:
        if len(f['params']) != 2 or f.get('dep') or '<float' not in f['q']:
            continue
        a, b = sym('start', 'o'), sym('end', 'o')
        m = lambda o, n: mk('app', ('fld', n, o), 'i')
        s = summarise(F, f, args={0: a, 1: b}, this=IM, handlers=hs)
        es = [e for e in s.effects if e.kind == 'getchunk']
        if len(es) != 1:
            ck.undecided('inclusive', f, '%d chunk requests' % len(es))
            continue
        d = es[0].d
        for k, want in (('x', m(a, 'm_x')), ('y', m(a, 'm_y')), ('w', add(sub(m(b, 'm_x'), m(a, 'm_x')), num(1))), ('h', add(sub(m(b, 'm_y'), m(a, 'm_y')), num(1)))):
            ck.eqv('inclusive', f, d[k], want, what=k)
    for f in [f for f in F.funcs.values() if f['n'] == 'isInside' and f['q'].startswith('SourceXtractor::Image<')]:
        if f.get('dep') or '<float' not in f['q']:
            continue
        s = summarise(F, f, args={0: X, 1: Y}, this=IM, handlers=hs)
        ck.eqv('inclusive', f, s.ret, band(ge(X, num(0)), ge(Y, num(0)), lt(X, dim(IM, 'width')), lt(Y, dim(IM, 'height'))), what='isInside')


def accessor(ck, F):
    rs = classes(F, 'ImageAccessor<float')
    if not rs:
        return ck.undecided('accessor', 'ImageAccessor.h', 'not instantiated')
    r = rs[0]
    hs = handlers(F)
    del hs['ImageAccessor#ctor']
    iw, ih = dim(IM, 'width'), dim(IM, 'height')
    rw, rh = sym('rw', 'i'), sym('rh', 'i')
    # members by type, not by name
    fld = {}
    for fd in r['fields']:
        t = fd['t']
        fld.setdefault('chunk' if 'ImageChunk' in t else 'coord' if 'PixelCoordinate' in t else 'image' if 'Image<' in t else 'int' if t == 'int' else 'hint', []).append(fd['n'])
    if len(fld.get('chunk', ())) != 1 or len(fld.get('coord', ())) != 2:
        return ck.undecided('accessor', 'ImageAccessor.h', 'cached state not recognised')
    for c in ctors(F, r, lambda f: len(f['params']) == 4):
        for first, hv in [(a, b) for b in (0, 1, 2) for a in (True, False)]:
            hint = num(hv)
            V = View(F, c, {0: IM, 1: hint, 2: rw, 3: rh}, hs=hs)
            this = V.this
            facts = [gt(iw, num(0)), gt(ih, num(0)), gt(rw, num(0)), gt(rh, num(0)), ge(X, num(0)), ge(Y, num(0)), lt(X, iw), lt(Y, ih)]
            lo, hi = fld['coord']
            it, st = V.it, V.st
            if not first:
                cs = {}
                for nm, k in ((lo, 'lo'), (hi, 'hi')):
                    o = it.hread(st, this, nm, 'o')
                    if not isinstance(o, T):
                        return ck.undecided('accessor', c, 'coordinate member not an object')
                    for m in ('m_x', 'm_y'):
                        cs[k, m] = sym(k + m, 'i')
                        it.hwrite(st, o, m, cs[k, m])
                z = lambda k, m: cs[k, m]
                # the invariant relating the cached chunk to its corners, in either reading of which member is the minimum
                ch = mk('app', ('chunk', IM, z('lo', 'm_x'), z('lo', 'm_y'), add(sub(z('hi', 'm_x'), z('lo', 'm_x')), num(1)), add(sub(z('hi', 'm_y'), z('lo', 'm_y')), num(1))), 'o')
                it.hwrite(st, this, fld['chunk'][0], ch)
                facts += [ge(z('lo', 'm_x'), num(0)), ge(z('lo', 'm_y'), num(0)), le(z('lo', 'm_x'), z('hi', 'm_x')), le(z('lo', 'm_y'), z('hi', 'm_y')), lt(z('hi', 'm_x'), iw), lt(z('hi', 'm_y'), ih), bnot(eq(ch, NULL))]
            for f in [g for g in F.funcs.values() if g['n'] == 'getValue' and g.get('clskey') == r['key'] and g.get('body')]:
                it = V.it
                mark = len(it.effects)
                s0 = V.st.copy()
                s0.pc = list(facts)
                if len(f['params']) == 2:
                    args = {0: X, 1: Y}
                else:
                    co = sym('coord', 'o')
                    s0.heap[(co, 'm_x')], s0.heap[(co, 'm_y')] = X, Y
                    args = {0: co}
                s = summarise(F, f, args=args, this=this, st=s0, interp=it)
                tag = 'hint %d, %s, %s' % (hv, 'first read' if first else 'later read', 'x, y' if len(args) == 2 else 'coordinate')
                access(ck, f, s, it, mark, facts, this, fld, tag, iw, ih)


def access(ck, f, s, it, mark, facts, this, fld, tag, iw, ih):
    v = s.ret
    if not isinstance(v, T):
        return ck.undecided('accessor', f, tag + ': no value')
    ck.eqv('accessor', f, v, pix(IM, X, Y), facts=facts, what=tag + ': value')
    es = it.effects[mark:]
    for e in es:
        if e.kind == 'getchunk' and e.d['img'] is IM:
            d = e.d
            pc = list(e.pc)
            for a in (ge(d['x'], num(0)), ge(d['y'], num(0)), le(add(d['x'], d['w']), iw), le(add(d['y'], d['h']), ih), ge(d['w'], num(1)), ge(d['h'], num(1))):
                ck.entail('accessor', f, facts + pc, a, what=tag + ': requested chunk lies inside the image')
        if e.kind == 'readpix':
            d = e.d
            cw, chh = (mapleaf(d['img'], (lambda k: lambda c: c.a[k] if c.op == 'app' and c.a[0] == 'chunk' else None)(k)) for k in (4, 5))
            if cw is None or chh is None:
                if d['img'] is not IM:
                    ck.undecided('accessor', f, tag + ': pixel read from ' + show(d['img']))
                continue
            for a in (ge(d['x'], num(0)), ge(d['y'], num(0)), lt(d['x'], cw), lt(d['y'], chh)):
                ck.entail('accessor', f, facts + list(e.pc), a, what=tag + ': pixel read lies inside the chunk')
    # the invariant holds again afterwards
    ch = it.hread(s.st, this, fld['chunk'][0], 'o')
    lo, hi = (it.hread(s.st, this, n, 'o') for n in fld['coord'])
    if not all(isinstance(z, T) for z in (ch, lo, hi)):
        return ck.undecided('accessor', f, tag + ': state after the read')
    g = lambda o, m: it._t(it.hread(s.st, o, m, 'int'), s.st)
    for k, (i, a) in enumerate(((2, g(lo, 'm_x')), (3, g(lo, 'm_y')), (4, add(sub(g(hi, 'm_x'), g(lo, 'm_x')), num(1))), (5, add(sub(g(hi, 'm_y'), g(lo, 'm_y')), num(1))))):
        got = mapleaf(ch, lambda c: c.a[i] if c.op == 'app' and c.a[0] == 'chunk' else None)
        if got is None:
            return ck.undecided('accessor', f, tag + ': cached chunk after the read')
        ck.eqv('accessor', f, got, a, facts=facts, what=tag + ': cached corners describe the cached chunk')


def mapleaf(t, f):
    if t.op == 'ite':
        a, b = mapleaf(t.a[1], f), mapleaf(t.a[2], f)
        return ite(t.a[0], a, b) if a is not None and b is not None else None
    return f(t)
