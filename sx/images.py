"""Images as functions of the pixel coordinate: getChunk of an abstract image is one term chunk(img, x, y, w, h), pixels of a chunk are
pix(img, x + i, y + j), and the pixels of the image or chunk that analysed code returns are read off the writes it made."""
from .util import *

IMG = ('Image', 'ImageChunk', 'ImageAccessor', 'VectorImage', 'UniversalImageChunk', 'WriteableImage', 'BufferedImage')


def isimg(t, names=IMG):
    c = strip_targs(ctype(t or '').rstrip('*').strip()).split('::')[-1]
    return c in names


def pix(img, x, y, sort='r'):
    """pixel (x, y) of an abstract image, chunk or accessor"""
    if img.op == 'app' and img.a[0] == 'chunk':
        return pix(img.a[1], add(x, img.a[2]), add(y, img.a[3]), sort)
    if img.op == 'app' and img.a[0] == 'acc':
        return pix(img.a[1], x, y, sort)
    if img.op == 'ite':
        return ite(img.a[0], pix(img.a[1], x, y, sort), pix(img.a[2], x, y, sort))
    return mk('app', ('pix', img, x, y), sort)


def dim(img, which):
    if img.op == 'app' and img.a[0] == 'chunk':
        return img.a[4 if which == 'width' else 5]
    if img.op == 'app' and img.a[0] == 'acc':
        return dim(img.a[1], which)
    return app(which, (img,), 'i')


def _known(obj, st):
    return (obj, '#class') in st.heap


def xy(it, n, st):
    """coordinates passed as (x, y) or as a PixelCoordinate"""
    av = [it.val(it.arg(a, m, st), st) for a, m in zip(n['args'], n.get('pm', '') + 'v' * 9)]
    if len(av) == 1:
        o = av[0]
        if isinstance(o, Ref):
            o = it.rd(st, o.lv, '')
        return it._t(it.hread(st, o, 'm_x', 'int'), st), it._t(it.hread(st, o, 'm_y', 'int'), st)
    return it._t(av[0], st), it._t(av[1], st)


def handlers(F, extra=None):
    def getchunk(it, n, st):
        o = n.get('obj')
        if o is None:
            return None
        img = it.objval(o, st)
        if not isinstance(img, T) or _known(img, st) or len(n['args']) != 4:
            return None
        a = [it._t(it.val(it.arg(x, 'v', st), st), st) for x in n['args']]
        if img.op == 'app' and img.a[0] == 'acc':
            img = img.a[1]
        if img.op == 'app' and img.a[0] == 'chunk':
            a[0], a[1] = add(a[0], img.a[2]), add(a[1], img.a[3])
            img = img.a[1]
        r = mk('app', ('chunk', img) + tuple(a), 'o')
        it.effect('getchunk', st, n, img=img, x=a[0], y=a[1], w=a[2], h=a[3], ret=r)
        return r

    def getvalue(it, n, st):
        o = n.get('obj')
        if o is None or not isimg(o.get('t')):
            return None
        img = it.objval(o, st)
        if not isinstance(img, T) or _known(img, st):
            return None
        x, y = xy(it, n, st)
        r = pix(img, x, y, sort_of(n.get('t', '')))
        it.effect('readpix', st, n, img=img, x=x, y=y, ret=r)
        return r

    def size(which):
        def h(it, n, st):
            o = n.get('obj')
            if o is None or not isimg(o.get('t')):
                return None
            img = it.objval(o, st)
            if not isinstance(img, T) or _known(img, st):
                return None
            return dim(img, which)
        return h

    def acc(it, n, st):
        a = n['args'][0]
        v = it.val(it.ev(a, st), st)
        if isinstance(v, Ref):
            v = it.rd(st, v.lv, '')
        if not isinstance(v, T):
            return None
        return mk('app', ('acc', v), 'o')

    def uni(it, n, st):
        if len(n['args']) != 1:
            return None
        v = it.val(it.ev(n['args'][0], st), st)
        if isinstance(v, Ref):
            v = it.rd(st, v.lv, '')
        if not (isinstance(v, T) and v.op == 'app' and v.a[0] == 'chunk'):
            return None
        o = it.fresh('obj', 'o')
        rs = [r for r in F.rec_q.get(n['q'], []) if r['t'] == ctype(n['t'])] or F.rec_q.get(strip_targs(n['q']), [])
        f = F.funcs.get(n['key'])
        st.heap[(o, '#class')] = f.get('clskey') if f else (rs[0]['key'] if rs else None)
        vec = mk('app', ('pixels', v, it.fresh('own', 'i')), 'o')
        for m, x in (('m_width', v.a[4]), ('m_height', v.a[5]), ('m_stride', v.a[4]), ('m_offset', num(0)), ('m_data', vec), ('m_chunk_vector', vec)):
            st.heap[(o, m)] = x
        it.effect('adopt', st, n, chunk=v, obj=o)
        return o

    h = {'getChunk': getchunk, 'getValue': getvalue, 'getWidth': size('width'), 'getHeight': size('height'),
         'ImageAccessor#ctor': acc, 'UniversalImageChunk#ctor': uni}
    h.update(extra or {})
    return h


def method(F, clskey, name, pred=lambda f: True):
    """method of a class or of its bases"""
    todo, seen = [clskey], set()
    while todo:
        k = todo.pop(0)
        if k in seen or k not in F.records:
            continue
        seen.add(k)
        ms = [f for f in F.funcs.values() if f['n'] == name and f.get('clskey') == k and f.get('body') and pred(f)]
        if ms:
            return ms[0]
        todo += [b.get('key') for b in F.records[k]['bases'] if b.get('key')]
    return None


def ints(n):
    return lambda f: len(f['params']) == n and all(ctype(p['t']).replace('const ', '') in ('int', 'long', 'unsigned long', 'unsigned int') for p in f['params'])


class Pixels:
    """the pixels of a chunk or image value: where they are stored, and the writes that produced them"""
    def __init__(self, F, s, obj, st=None):
        self.F, self.s, self.why = F, s, None
        self.rowstep = None
        it = s.it
        self.st = st = st or s.st
        if isinstance(obj, Ref):
            obj = it.rd(st, obj.lv, '')
        self.obj = obj
        self.chunk = self.w = self.h = None
        if not isinstance(obj, T):
            self.why = 'no object returned'
            return
        if obj.op == 'app' and obj.a[0] == 'chunk':
            self.chunk, self.w, self.h = obj, obj.a[4], obj.a[5]
            return
        k = st.heap.get((obj, '#class'))
        if k is None:
            self.why = 'returned object of unknown class: ' + show(obj)
            return
        i, j = sym('?i', 'i'), sym('?j', 'i')
        mark = len(it.effects)
        for nm, at in (('getWidth', 'w'), ('getHeight', 'h')):
            f = method(F, k, nm)
            if f is None:
                self.why = 'no ' + nm
                return
            setattr(self, at, summarise(F, f, this=obj, st=st.copy(), interp=it).ret)
        f = method(F, k, 'getValue', ints(2))
        if f is None:
            self.why = 'no getValue(x, y)'
            return
        mark = len(it.effects)
        s2 = summarise(F, f, args={0: i, 1: j}, this=obj, st=st.copy(), interp=it)
        ix = [e for e in it.effects[mark:] if e.kind == 'index']
        del it.effects[mark:]
        if len(ix) != 1:
            self.why = 'getValue makes %d element accesses' % len(ix)
            return
        self.vec, idx = ix[0].d['obj'], ix[0].d['idx']
        self.off = subst(idx, {i: num(0), j: num(0)})
        self.stride = sub(subst(idx, {i: num(0), j: num(1)}), self.off)
        if not equal(idx, add(self.off, i, mul(j, self.stride)))[0]:
            self.why = 'pixel address is not offset + x + y * stride: ' + show(idx)
            self.idx = idx

    def origin(self, vec):
        while isinstance(vec, T):
            c = self.st.heap.get((vec, '#copy'))
            if c is None or (vec, '[]') in self.st.heap:
                return vec
            vec = c[0]
        return vec

    def locate(self, e, vec, i, j):
        try:
            return self._locate(e, vec, i, j)
        except ValueError:
            # a linear counter k whose index is not affine as written: k = i + j * stride
            idx = e.d['lv'][2]
            cs = [(x, step) for L in e.loops if isinstance(L, Loop) for x, v0, step in L.vars if x in subterms(idx)]
            if len(cs) != 1:
                return None
            k = cs[0][0]
            m = {k: add(i, mul(j, self.stride))}
            got = self.cell(subst(idx, m), i, j, [])
            if equal(got, add(self.off, i, mul(j, self.stride)))[0]:
                return m, TRUE
            return None

    def _locate(self, e, vec, i, j):
        """substitution of the loop counters of write e that makes it write pixel (i, j); None if not of that shape"""
        idx = e.d['lv'][2]
        rest = sub(idx, self.off)
        cs = []
        for L in e.loops:
            if isinstance(L, Loop):
                for x, v0, step in L.vars:
                    if x in subterms(rest):
                        cs.append((x, step))
        if not cs:
            return {}, band(eq(rest, add(i, mul(j, self.stride))))
        if any(step not in (1, -1) for x, step in cs):
            return None
        if len(cs) == 1:
            x = cs[0][0]
            if deriv(rest, x) is num(1):
                a = sub(rest, x)
                if x not in subterms(a):
                    return {x: sub(add(i, mul(j, self.stride)), a)}, TRUE
            return None
        if len(cs) != 2:
            return None
        for (cx, _), (cy, _) in ((cs[0], cs[1]), (cs[1], cs[0])):
            kx = deriv(rest, cx)
            ky = deriv(rest, cy)
            for sx in (1, -1):
                for sy in (1, -1):
                    if kx is num(sx) and equal(ky, scale(self.stride, sy))[0]:
                        r = sub(sub(rest, scale(cx, sx)), mul(cy, ky))
                        if cx in subterms(r) or cy in subterms(r):
                            continue
                        a, b = self.split(r)
                        if a is None:
                            continue
                        return {cx: scale(sub(i, a), sx), cy: scale(sub(j, b), sy)}, TRUE
            if kx in (num(1), num(-1)) and cx not in subterms(ky) and cy not in subterms(ky) and self.rowstep is None:
                self.rowstep = (ky, self.stride)
        return None

    def split(self, r):
        """r = a + b * stride"""
        if const(r) == 0:
            return num(0), num(0)
        st = monos(self.stride)
        if len(st) == 1:
            (m, k), = st.items()
            if len(m) == 1 and k == 1:
                a, b = {}, {}
                for mm, c in monos(r).items():
                    if m[0] in mm:
                        q = tuple(z for z in mm if z != m[0])
                        b[q] = c
                    else:
                        a[mm] = c
                return poly(a), poly(b)
        b = div(r, self.stride)
        if const(b) is not None:
            return num(0), b
        return r, num(0)

    def at(self, i, j, facts=()):
        """value of pixel (i, j) for 0 <= i < w, 0 <= j < h, or None (self.why)"""
        if self.why:
            return None
        if self.chunk is not None:
            return pix(self.chunk, i, j)
        vec = self.origin(self.vec)
        base = self.st.heap.get((vec, '#fill'))
        if base is None:
            if isinstance(vec, T) and vec.op == 'app' and vec.a[0] == 'pixels':
                base = pix(vec.a[1], i, j)
            else:
                base = mk('app', ('elem', vec, add(self.off, i, mul(j, self.stride))), 'r')
        elif not isinstance(base, T):
            base = num(0)
        v = base
        for e in self.s.effects:
            if e.kind == 'call' and not e.d.get('pure') and (e.d.get('obj') in (self.obj, vec, self.vec) or any(a in (self.obj, vec, self.vec) for a in e.d.get('args', ()) if isinstance(a, T))):
                self.why = 'pixels may be written by a call that is not analysed: %s' % e.d.get('q')
                return None
        facts = list(facts) + [ge(i, num(0)), lt(i, self.w), ge(j, num(0)), lt(j, self.h)]
        for e in stores(self.s, lambda e: e.d['lv'][0] == 'elem' and self.origin(e.d['lv'][1]) is vec):
            r = self.locate(e, vec, i, j)
            if r is None or not isinstance(e.d['val'], T):
                self.why = 'write at %s not recognised' % show(e.d['lv'][2])
                return None
            m, g = r
            val, pc = e.d['val'], e.pc
            own = {x: v for x in subterms(val) if x.op == 'app' and x.a[0] == 'elem' and self.origin(x.a[1]) is vec and equal(x.a[2], e.d['lv'][2])[0]}
            if own:
                val = subst(val, own)
                pc = [subst(p, own) for p in pc]
            val = subst(val, m)
            g = band(g, *[self.cell(subst(p, m), i, j, facts) for p in pc])
            val = self.cell(val, i, j, facts)
            if [x for x in subterms(val) if x.op == 'app' and isinstance(x.a[0], str) and x.a[0].startswith('elem') and self.origin(x.a[1]) is vec]:
                self.why = 'a pixel is computed from other pixels of the same buffer'
                return None
            if entails(facts, g):
                v = val
            else:
                v = ite(g, val, v)
        return v

    def cell(self, t, i, j, facts):
        """imod(i + j*w, w) = i and idiv(i + j*w, w) = j"""
        lin = add(i, mul(j, self.stride))
        env = {}
        for x in subterms(t):
            if x.op == 'app' and x.a[0] in ('imod', 'idiv') and equal(x.a[2], self.w)[0] and equal(x.a[1], lin)[0]:
                env[x] = i if x.a[0] == 'imod' else j
        return subst(t, env) if env else t


def inrect(i, j, w, h):
    return [ge(i, num(0)), lt(i, w), ge(j, num(0)), lt(j, h)]


def classes(F, prefix):
    """instantiated classes whose type starts with prefix (under SourceXtractor::)"""
    return [r for r in F.records.values() if r['t'].startswith('SourceXtractor::' + prefix) and 'type-parameter' not in r['t']]


def ctors(F, r, pred=lambda f: True):
    return [f for f in F.funcs.values() if f.get('fk') == 'ctor' and f.get('clskey') == r['key'] and not f.get('implicit') and pred(f)]


class View:
    """an image built by one of its constructors"""
    def __init__(self, F, ctor, args, name='V', hs=None, facts=()):
        self.F = F
        it = Interp(F, handlers=hs if hs is not None else handlers(F))
        self.this = sym(name, 'o')
        st = State()
        st.pc = list(facts)
        st.heap[(self.this, '#class')] = ctor.get('clskey')
        s = summarise(F, ctor, args=args, this=self.this, st=st, interp=it)
        self.it, self.st = it, s.st
        self.st.heap[(self.this, '#class')] = ctor.get('clskey')
        self.cls = ctor.get('clskey')
        self.s = s

    def call(self, name, args=None, pred=lambda f: True):
        f = method(self.F, self.cls, name, pred)
        if f is None:
            return None, None
        mark = len(self.it.effects)
        s = summarise(self.F, f, args=args, this=self.this, st=self.st.copy(), interp=self.it)
        s.effects = self.it.effects[mark:]
        return f, s
