"""C08: where pixels are stored - addresses, strides, copies and ownership of the pixel vectors."""
from sx.images import *

X, Y, W, H = (sym(n, 'i') for n in ('x', 'y', 'w', 'h'))
I, J = sym('i', 'i'), sym('j', 'i')
DATA, OFF, CW, CH, ST = sym('data', 'o'), sym('off', 'i'), sym('cw', 'i'), sym('ch', 'i'), sym('stride', 'i')
IM = sym('img', 'o')
VALUE = sym('value', 'r')
POS = [gt(CW, num(0)), gt(CH, num(0)), ge(OFF, num(0)), ge(ST, CW)]


def run(ck):
    ck.rule('address', 'pixel (x, y) is stored at base + x + y * stride of the underlying vector, in every reader and writer')
    ck.rule('size', 'width and height are those given at construction (or those of the copied image)')
    ck.rule('sub-chunk', 'a chunk of a chunk or image shares the vector, starts at the address of its first pixel and keeps the stride of the underlying image')
    ck.rule('copy', 'an image or chunk made from another one holds the same pixels in the same order')
    ck.rule('own', 'a copied image owns a vector of its own')
    ck.rule('temporary', 'a chunk handed out by an image is not one the image keeps (its user may take the pixels over)')
    ck.rule('fill', 'filling writes the value to every pixel')
    F = ck.F = Facts([VERIF + '/drivers/images.cpp'])
    ck.section(chunk, ck, F)
    ck.section(universal, ck, F)
    ck.section(vector, ck, F)
    ck.section(movers, ck, F)
    ck.section(temporaries, ck, F)
    return 12


def isarg(n, s=''):
    return lambda f: len(f['params']) == n and s in ' '.join(ctype(p['t']) for p in f['params'])


def coord(x, y):
    return mk('app', ('pc', x, y), 'o')


def storage(ck, F, V, f, what, w, h, off, stride, vec=None, s=None, obj=None, facts=()):
    s = s or V.s
    P = Pixels(F, s, obj if obj is not None else V.this, st=s.st)
    if P.w is None or P.why:
        ck.undecided('address', f, '%s: %s' % (what, P.why))
        if P.w is None or getattr(P, 'vec', None) is None:
            return None
    rule = 'sub-chunk' if obj is not None else 'size'
    ck.eqv(rule, f, P.w, w, what=what + ': width')
    ck.eqv(rule, f, P.h, h, what=what + ': height')
    rule = 'sub-chunk' if obj is not None else 'address'
    if P.why and getattr(P, 'idx', None) is not None:
        ck.eqv(rule, f, P.idx, add(off, sym('?i', 'i'), mul(sym('?j', 'i'), stride)), facts=list(facts), what=what + ': address of pixel')
        return None
    ck.eqv(rule, f, P.off, off, facts=list(facts), what=what + ': address of the first pixel')
    ck.eqv(rule, f, P.stride, stride, facts=list(facts), what=what + ': distance of rows')
    if vec is not None:
        ck.eqv(rule, f, P.vec, vec, what=what + ': vector read')
    return P


def coordinate_reader(ck, F, V, P, what):
    """overloads taking a PixelCoordinate address the same element"""
    for name in ('getValue',):
        g = method(F, V.cls, name, lambda f: len(f['params']) == 1)
        if g is None:
            continue
        c = sym('coord', 'o')
        x, y = mk('app', ('fld', 'm_x', c), 'i'), mk('app', ('fld', 'm_y', c), 'i')
        f, s = V.call(name, {0: c}, lambda f: len(f['params']) == 1)
        ix = [e for e in s.effects if e.kind == 'index']
        if len(ix) != 1:
            ck.undecided('address', f, '%s: %d accesses' % (what, len(ix)))
            continue
        # a by-value parameter is a copy: compare through its fields
        ck.eqv('address', f, ix[0].d['idx'], add(P.off, x, mul(y, P.stride)), what=what + ': address for a coordinate')
        ck.eqv('address', f, ix[0].d['obj'], P.vec, what=what + ': vector for a coordinate')


def writers(ck, F, V, P, what):
    c = sym('coord', 'o')
    for g in [f for f in F.funcs.values() if f['n'] == 'setValue' and f.get('clskey') == V.cls and f.get('body') and len(f['params']) == 2]:
        f, s = V.call('setValue', {0: c, 1: VALUE}, lambda f: f is g)
        x, y = mk('app', ('fld', 'm_x', c), 'i'), mk('app', ('fld', 'm_y', c), 'i')
        w = [e for e in s.effects if e.kind == 'store' and e.d['lv'][0] == 'elem']
        if len(w) == 1:
            ck.eqv('address', g, w[0].d['lv'][2], add(P.off, x, mul(y, P.stride)), what=what + '::setValue(coordinate)')
            ck.eqv('address', g, w[0].d['val'], VALUE, what=what + '::setValue(coordinate): value written')
        else:
            ck.undecided('address', g, 'setValue(coordinate) makes %d element writes' % len(w))
    for name, args, n in (('setValue', {0: X, 1: Y, 2: VALUE}, 3), ('at', {0: X, 1: Y}, 2)):
        for g in [f for f in F.funcs.values() if f['n'] == name and f.get('clskey') == V.cls and f.get('body') and len(f['params']) == n and ints(2)({'params': f['params'][:2]})]:
            mark = len(V.it.effects)
            s = summarise(F, g, args=args, this=V.this, st=V.st.copy(), interp=V.it)
            s.effects = V.it.effects[mark:]
            ix = [e for e in s.effects if e.kind == 'index']
            if not ix:
                lv = getattr(s.ret, 'lv', None)
                if lv and lv[0] == 'elem':
                    ck.eqv('address', g, lv[2], add(P.off, X, mul(Y, P.stride)), what='%s::%s' % (what, name))
                    ck.eqv('address', g, lv[1], P.vec, what='%s::%s: vector' % (what, name))
                else:
                    ck.undecided('address', g, '%s::%s: no element access' % (what, name))
                continue
            for e in ix[:1]:
                ck.eqv('address', g, e.d['idx'], add(P.off, X, mul(Y, P.stride)), what='%s::%s' % (what, name))
                ck.eqv('address', g, e.d['obj'], P.vec, what='%s::%s: vector' % (what, name))
            if name == 'setValue':
                w = [e for e in s.effects if e.kind == 'store' and e.d['lv'][0] == 'elem']
                if len(w) != 1:
                    ck.undecided('address', g, 'setValue makes %d element writes' % len(w))
                else:
                    ck.eqv('address', g, w[0].d['val'], VALUE, what=what + '::setValue: value written')
                    ck.ok(not [p for p in w[0].pc if p is not TRUE], 'address', g, what + '::setValue: written unconditionally')


def chunk(ck, F):
    for r in classes(F, 'ImageChunk<float')[:1]:
        for c in ctors(F, r, isarg(5)):
            V = View(F, c, {0: DATA, 1: OFF, 2: CW, 3: CH, 4: ST})
            P = storage(ck, F, V, c, 'chunk', CW, CH, OFF, ST, DATA)
            if P is None:
                continue
            coordinate_reader(ck, F, V, P, 'chunk')
            f, s = V.call('getChunk', {0: X, 1: Y, 2: W, 3: H}, ints(4))
            if f is None:
                ck.undecided('sub-chunk', c, 'no getChunk')
                continue
            storage(ck, F, V, f, 'chunk of a chunk', W, H, add(OFF, X, mul(Y, ST)), ST, DATA, s=s, obj=s.ret)


def source(F, st, it):
    return None


def universal(ck, F):
    for r in classes(F, 'UniversalImageChunk<float')[:1]:
        for c in ctors(F, r):
            n = len(c['params'])
            t0 = ctype(c['params'][0]['t']) if n else ''
            if n == 2:
                V = View(F, c, {0: CW, 1: CH})
                P = storage(ck, F, V, c, 'new chunk', CW, CH, num(0), CW)
                if P:
                    writers(ck, F, V, P, 'new chunk')
                    f, s = V.call('getChunk', {0: X, 1: Y, 2: W, 3: H}, ints(4))
                    storage(ck, F, V, f, 'chunk of a new chunk', W, H, add(X, mul(Y, CW)), CW, P.vec, s=s, obj=s.ret)
                    size = V.st.heap.get((P.vec, '#size'))
                    if isinstance(size, T):
                        ck.eqv('size', c, size, mul(CW, CH), what='new chunk: number of pixels stored')
            elif n == 3:
                V = View(F, c, {0: DATA, 1: CW, 2: CH})
                P = storage(ck, F, V, c, 'chunk of given pixels', CW, CH, num(0), CW)
                if P:
                    writers(ck, F, V, P, 'chunk of given pixels')
                    o = P.origin(P.vec)
                    copies(ck, F, c, V, P, DATA, 'chunk of given pixels')
            elif n == 5:
                V = View(F, c, {0: IM, 1: X, 2: Y, 3: CW, 4: CH})
                P = storage(ck, F, V, c, 'chunk of an image', CW, CH, num(0), CW)
                if P:
                    fs = inrect(I, J, CW, CH)
                    v = P.at(I, J, fs)
                    if v is None:
                        ck.undecided('copy', c, P.why)
                    else:
                        ck.eqv('copy', c, v, pix(IM, add(X, I), add(Y, J)), facts=fs, what='pixel of a chunk copied from an image')


def copies(ck, F, c, V, P, src, what):
    cp, v = None, P.vec
    while V.st.heap.get((v, '#copy')) is not None and v is not src:
        cp = V.st.heap[(v, '#copy')]
        v = cp[0]
    if P.vec is src:
        return ck.fail('own', c, '%s: uses the vector of its argument' % what)
    if cp is None:
        return ck.undecided('copy', c, '%s: origin of the vector %s not known' % (what, show(P.vec)))
    ck.eqv('copy', c, cp[0], src, what='%s: pixels are those of the argument' % what)


def vector(ck, F):
    for r in classes(F, 'VectorImage<float')[:1]:
        for c in ctors(F, r) + [f for f in F.funcs.values() if f.get('fk') == 'copyctor' and f.get('clskey') == r['key'] and f.get('body')]:
            n = len(c['params'])
            if c.get('implicit'):
                continue
            t0 = ctype(c['params'][0]['t']) if n else ''
            if n == 2:
                V = View(F, c, {0: CW, 1: CH})
                P = storage(ck, F, V, c, 'new image', CW, CH, num(0), CW)
                if P is None:
                    continue
                size = V.st.heap.get((P.vec, '#size'))
                if isinstance(size, T):
                    ck.eqv('size', c, size, mul(CW, CH), what='new image: number of pixels stored')
                coordinate_reader(ck, F, V, P, 'image')
                writers(ck, F, V, P, 'image')
                f, s = V.call('getChunk', {0: X, 1: Y, 2: W, 3: H}, ints(4))
                if f is None:
                    ck.undecided('sub-chunk', c, 'no getChunk')
                else:
                    storage(ck, F, V, f, 'chunk of an image', W, H, add(X, mul(Y, CW)), CW, P.vec, s=s, obj=s.ret)
                fill(ck, F, V, P)
            elif n == 3:
                V = View(F, c, {0: CW, 1: CH, 2: DATA})
                P = storage(ck, F, V, c, 'image of given pixels', CW, CH, num(0), CW)
                if P:
                    copies(ck, F, c, V, P, DATA, 'image of given pixels')
            elif n == 1 and 'VectorImage' in t0 and 'const' in c['params'][0]['t']:
                it = Interp(F, handlers=handlers(F))
                src = sym('other', 'o')
                st = State()
                V = View(F, c, {0: src})
                fld = {nm['n']: nm for nm in r['fields']}
                P = Pixels(F, V.s, V.this, st=V.st)
                if P.w is None:
                    ck.undecided('copy', c, P.why)
                    continue
                # the source's own reading of size and address, through the same accessors
                V2 = Pixels(F, V.s, src_obj(V, src, r), st=V.st)
                if V2.w is None:
                    ck.undecided('copy', c, 'copied image: ' + str(V2.why))
                    continue
                ck.eqv('size', c, P.w, V2.w, what='copied image: width')
                ck.eqv('size', c, P.h, V2.h, what='copied image: height')
                if P.vec is V2.vec:
                    ck.fail('own', c, 'a copied image shares the pixels of the image it was copied from')
                else:
                    ck.holds('own', c, 'copied image')
                    copies(ck, F, c, V, P, V2.vec, 'copied image')
            elif n == 1 and 'Image<' in t0 and 'VectorImage' not in t0:
                V = View(F, c, {0: IM})
                what = 'image made from ' + ('a shared image' if 'shared_ptr' in t0 else 'another image')
                P = storage(ck, F, V, c, what, dim(IM, 'width'), dim(IM, 'height'), num(0), dim(IM, 'width'))
                if P:
                    fs = inrect(I, J, dim(IM, 'width'), dim(IM, 'height'))
                    v = P.at(I, J, fs)
                    if v is None:
                        ck.undecided('copy', c, P.why)
                    else:
                        ck.eqv('copy', c, v, pix(IM, I, J), facts=fs, what=what + ': pixel')


def src_obj(V, src, r):
    V.st.heap[(src, '#class')] = r['key']
    return src


def fill(ck, F, V, P):
    f, s = V.call('fillValue', {0: VALUE})
    if f is None:
        return
    st = s.st
    fl = [e for e in s.effects if e.kind == 'fill']
    if fl:
        for e in fl:
            ck.eqv('fill', f, e.d['val'], VALUE, what='value filled in')
            ck.eqv('fill', f, e.d['obj'], P.vec, what='vector filled')
            n = V.st.heap.get((P.vec, '#size'))
            ck.eqv('fill', f, e.d['lo'], num(0), what='fill starts at the first pixel')
            if isinstance(n, T):
                ck.eqv('fill', f, e.d['hi'], n, what='fill ends after the last pixel')
        return
    P2 = Pixels(F, s, V.this, st=st)
    v = P2.at(I, J, inrect(I, J, CW, CH)) if P2.w is not None else None
    if v is None:
        return ck.undecided('fill', f, str(P2.why))
    ck.eqv('fill', f, v, VALUE, facts=inrect(I, J, CW, CH), what='pixel after fillValue')


def movers(ck, F):
    """the converting move constructor"""
    for r in classes(F, 'UniversalImageChunk<float')[:1]:
        for c in ctors(F, r, lambda f: len(f['params']) == 1 and 'ImageChunk' in f['params'][0]['t'] and 'Universal' not in f['params'][0]['t']):
            hs = handlers(F)
            del hs['UniversalImageChunk#ctor']
            src = chunk_term()
            V = View(F, c, {0: src}, hs=hs)
            st = V.s.st
            ds = {x for v in st.heap.values() if isinstance(v, T) for x in subterms(v) if x.op == 'app' and x.a[0] == 'nonnull'}
            ds = [x for x in ds if any(y.op == 'app' and y.a[0] == 'dyncast' for y in subterms(x))]
            if len(ds) > 1:
                ck.undecided('copy', c, 'several type tests')
                continue
            for d, val in ((ds[0], True), (ds[0], False)) if ds else ((None, None),):
                st2 = st.copy()
                if d is not None:
                    for k, v in list(st2.heap.items()):
                        if isinstance(v, T):
                            st2.heap[k] = replace_cond(v, d, val)
                        elif isinstance(v, list):
                            st2.heap[k] = [tuple(replace_cond(x, d, val) if isinstance(x, T) else x for x in w) if isinstance(w, tuple) else w for w in v]
                what = 'chunk made from a temporary' + ('' if d is None else ' that owns its pixels' if val else ' that does not own its pixels')
                V.st = st2
                st2.pc = []
                V.s.st = st2
                P = storage(ck, F, V, c, what, CW, CH, num(0), CW)
                if P is None:
                    continue
                writers(ck, F, V, P, what)
                if val:
                    # the vector taken over must be the one the temporary owns: a member of the casted object, never the shared read-only one
                    ok = isinstance(P.vec, T) and P.vec.op == 'app' and P.vec.a[0] == 'fld' and d.a[1] in P.vec.a
                    if ok:
                        fld = [f for f in F.records[V.cls]['fields'] if f['n'] == P.vec.a[1]]
                        ck.ok(bool(fld) and 'const std::vector' not in fld[0]['t'], 'own', c, 'vector taken over is the writable one owned by the temporary')
                    else:
                        cp = P.origin(P.vec)
                        ck.undecided('own', c, 'vector ' + show(P.vec))
                else:
                    v = P.at(I, J, inrect(I, J, CW, CH) + ([bnot(d)] if d is not None else []))
                    if v is None:
                        ck.undecided('copy', c, P.why)
                    else:
                        ck.eqv('copy', c, replace_cond(v, d, val) if d is not None else v, pix(IM, add(X, I), add(Y, J)), facts=inrect(I, J, CW, CH), what=what + ': pixel')


def temporaries(ck, F):
    for f in F.funcs.values():
        if f['n'] != 'getChunk' or not f.get('body') or f.get('dep') or 'ImageChunk<' not in (f.get('ret') or ''):
            continue
        if f.get('clskey') is None or 'lambda' in f['q']:
            continue
        hs = handlers(F)
        it = Interp(F, handlers=hs)
        st = State()
        this = sym('this_', 'o')
        st.heap[(this, '#class')] = f['clskey']
        try:
            s = summarise(F, f, this=this, st=st, interp=it)
        except Exception as e:
            ck.undecided('temporary', f, type(e).__name__)
            continue
        r = s.ret
        if isinstance(r, Ref):
            r = it.rd(s.st, r.lv, '')
        if not isinstance(r, T):
            ck.undecided('temporary', f, 'no value')
            continue
        kept = None
        for leaf in leaves(r):
            if leaf.op == 'app' and leaf.a[0] in ('fld', 'deref', 'elem') and this in subterms(leaf):
                kept = leaf
            for (o, m), v in s.st.heap.items():
                if o is this and v is leaf and leaf.op == 'sym' and not m.startswith('#'):
                    kept = mk('app', ('fld', m, this), 'o')
        if kept is not None:
            ck.fail('temporary', f, '%s returns %s, which the object keeps: the caller may empty it' % (f['q'], show(kept)))
        else:
            ck.holds('temporary', f, f['q'])


def leaves(t):
    if t.op == 'ite':
        return leaves(t.a[1]) + leaves(t.a[2])
    return [t]


def chunk_term():
    return mk('app', ('chunk', IM, X, Y, CW, CH), 'o')
