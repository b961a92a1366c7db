"""C25: pixel coordinates, rectangles and bounding boxes."""
from sx.props import *
import sx.props as P


def run(ck):
    ck.rule('coord-equal', 'operator== is true exactly when both components are equal, operator!= is its negation')
    ck.rule('coord-order', 'operator<= and >= compare both components')
    ck.rule('coord-arith', '+, -, +=, -=, * act on each component alike')
    ck.rule('coord-hash', 'the hash is a function of the two components only (and of both)')
    ck.rule('coord-clip', 'clip moves each component to the nearest value in [0, size-1] and reports whether anything moved')
    ck.rule('rect', 'a rectangle reports its corners, width = max.x - min.x + 1, height = max.y - min.y + 1, and zero size when empty; copies keep both corners')
    ck.rule('bbox', 'the pixel boundaries of a source are the minimum and maximum of each coordinate over (the qualifying part of) its pixel list')
    ck.rule('bbox-size', 'PixelBoundaries reports the corners it was built from and sizes max-min+1')
    F = ck.F = Facts([VERIF + '/drivers/utils.cpp'] + tus('SEImplementation/src/lib/Plugin/PixelBoundaries/PixelBoundariesTask.cpp'))
    c2 = F.one('PixelCoordinate::PixelCoordinate', fk='ctor', np=2)
    ax, ay, bx, by = (sym(n, 'i') for n in ('ax', 'ay', 'bx', 'by'))
    a, st, it = newobj(F, c2, 'a', {0: ax, 1: ay})
    b, st, it = newobj(F, c2, 'b', {0: bx, 1: by}, st=st, it=it)

    def op(name, this=None, args=None, np=1):
        for f in F.fn('PixelCoordinate::' + name, np=np):
            yield f, summarise(F, f, args=args or {0: b}, this=this or a, st=st.copy(), interp=it)

    def xy(s, o):
        return rd(s, o, 'm_x', 'int'), rd(s, o, 'm_y', 'int')
    same = band(eq(ax, bx), eq(ay, by))
    for f, s in op('operator=='):
        ck.eqv('coord-equal', f, s.ret, same, what='==')
    for f, s in op('operator!='):
        ck.eqv('coord-equal', f, s.ret, bnot(same), what='!=')
    for f, s in op('operator<='):
        ck.eqv('coord-order', f, s.ret, band(le(ax, bx), le(ay, by)), what='<=')
    for f, s in op('operator>='):
        ck.eqv('coord-order', f, s.ret, band(ge(ax, bx), ge(ay, by)), what='>=')
    for nm, fn in (('operator+', add), ('operator-', sub), ('operator+=', add), ('operator-=', sub)):
        for f, s in op(nm):
            o = a if nm.endswith('=') else s.ret
            if not isinstance(o, T):
                ck.undecided('coord-arith', f, nm)
                continue
            x, y = xy(s, o)
            ck.eqv('coord-arith', f, x, fn(ax, bx), what=nm + ' x')
            ck.eqv('coord-arith', f, y, fn(ay, by), what=nm + ' y')
            if not nm.endswith('='):
                x, y = xy(s, a)
                ck.ok(x is ax and y is ay, 'coord-arith', f, nm + ' leaves its operand unchanged')
    k = sym('k', 'r')
    for f, s in op('operator*', args={0: k}):
        x, y = xy(s, s.ret)
        ck.eqv('coord-arith', f, x, app('trunc', (mul(ax, k),), 'i'), what='* x')
        ck.eqv('coord-arith', f, y, app('trunc', (mul(ay, k),), 'i'), what='* y')
    w, h = sym('w', 'i'), sym('h', 'i')
    for f, s in op('clip', args={0: w, 1: h}, np=2):
        x, y = xy(s, a)
        fx = [ge(w, num(1)), ge(h, num(1))]
        wx, wy = tmin(tmax(ax, num(0)), sub(w, num(1))), tmin(tmax(ay, num(0)), sub(h, num(1)))
        ck.eqv('coord-clip', f, x, wx, fx, what='x')
        ck.eqv('coord-clip', f, y, wy, fx, what='y')
        if isinstance(s.ret, T):
            ck.eqv('coord-clip', f, s.ret, bor(bnot(eq(ax, wx)), bnot(eq(ay, wy))), fx, what='reports a change')
    # ---- hash
    for f in F.fn('hash::operator()') + [g for g in F.funcs.values() if g['n'] == 'operator()' and 'hash<' in (g.get('cls') or g['q']) and not g.get('dep') and 'PixelCoordinate' in (g['params'][0]['t'] if g['params'] else '')]:
        hash_rule(ck, F, f)
        break
    ck.section(rects, ck, F, c2)
    ck.section(bbox, ck, F)
    return 12


def hash_rule(ck, F, f):
    """every member of the coordinate read by the hash is one of the compared components and both are used"""
    used = set()
    other = []
    for n in walk(f['body']):
        if n['k'] == 'mem' or n['k'] == 'member':
            used.add(n.get('n'))
        if n['k'] == 'call' and n.get('obj') is not None and 'PixelCoordinate' in n['obj'].get('t', ''):
            other.append(n.get('n'))
    if other:
        return ck.undecided('coord-hash', f, 'hash calls %s' % other)
    eqf = F.one('PixelCoordinate::operator==')
    cmp_ = {n.get('n') for n in walk(eqf['body']) if n['k'] in ('mem', 'member')}
    if not cmp_ or not used:
        return ck.undecided('coord-hash', f, 'no member access found')
    ck.ok(used <= cmp_, 'coord-hash', f, 'hash reads %s, equality compares %s' % (sorted(used), sorted(cmp_)))


def rects(ck, F, c2):
    mnx, mny, mxx, mxy = (sym(n, 'i') for n in ('mnx', 'mny', 'mxx', 'mxy'))
    lo, st, it = newobj(F, c2, 'lo', {0: mnx, 1: mny})
    hi, st, it = newobj(F, c2, 'hi', {0: mxx, 1: mxy}, st=st, it=it)
    c = F.one('PixelRectangle::PixelRectangle', np=2)
    r, st, it = newobj(F, c, 'rect', {0: lo, 1: hi}, st=st, it=it)
    facts = [ge(mnx, num(0)), ge(mny, num(0)), le(mnx, mxx), le(mny, mxy)]
    objs = [('rectangle', r, st, facts)]
    for f in F.fn('PixelRectangle::PixelRectangle', np=1):
        if f.get('fk') == 'copyctor' or 'PixelRectangle' in f['params'][0]['t']:
            q, st2, _ = newobj(F, f, 'copy', {0: r}, st=st.copy(), it=it)
            objs.append(('copied rectangle', q, st2, facts))
    for nm, o, s0, fx in objs:
        for m, want in (('getWidth', add(sub(mxx, mnx), num(1))), ('getHeight', add(sub(mxy, mny), num(1)))):
            f = F.one('PixelRectangle::' + m)
            s = summarise(F, f, this=o, st=s0.copy(), interp=it)
            ck.eqv('rect', f, s.ret, want, fx, what='%s %s' % (nm, m))
        for m, wx, wy in (('getTopLeft', mnx, mny), ('getBottomRight', mxx, mxy)):
            f = F.one('PixelRectangle::' + m)
            s = summarise(F, f, this=o, st=s0.copy(), interp=it)
            ck.eqv('rect', f, rd(s, s.ret, 'm_x', 'int'), wx, fx, what='%s %s x' % (nm, m))
            ck.eqv('rect', f, rd(s, s.ret, 'm_y', 'int'), wy, fx, what='%s %s y' % (nm, m))
    c0 = F.one('PixelRectangle::PixelRectangle', np=0)
    e, st, it = newobj(F, c0, 'empty', {})
    for m in ('getWidth', 'getHeight'):
        f = F.one('PixelRectangle::' + m)
        s = summarise(F, f, this=e, st=st.copy(), interp=it)
        ck.eqv('rect', f, s.ret, num(0), what='empty rectangle ' + m)


def bbox(ck, F):
    H = P.handlers(F)
    src = sym('source', 'o')
    pix = getter(prop('PixelCoordinateList', src), 'getCoordinateList', sort='o')
    i = mk('sym', ('$0.0',), 'i')
    el = mk('app', ('elem', pix, i), 'o')
    val = mk('app', ('elem', getter(prop('DetectionFramePixelValues', src), 'getFilteredValues', sort='o'), i), 'r')
    half = div(getter(prop('PeakValue', src), 'getMaxValue'), num(2))
    for cls, task, guard in (('PixelBoundaries', 'PixelBoundariesTask', TRUE), ('PixelBoundariesHalfMaximum', 'PixelBoundariesTaskHalfMaximum', ge(val, half))):
        f = F.one(task + '::computeProperties')
        s = summarise(F, f, args={0: src}, handlers=H)
        sp = setprops(s, cls)
        if len(sp) != 1 or len(sp[0].d['argt']) != 4:
            ck.undecided('bbox', f, '%d setProperty sites' % len(sp))
            continue
        for k, (kind, fl) in enumerate((('MINF', 'm_x'), ('MINF', 'm_y'), ('MAXF', 'm_x'), ('MAXF', 'm_y'))):
            got = sp[0].d['argt'][k]
            want = mk('app', ('fld', fl, el), 'i')
            what = '%s of %s' % (kind[:3].lower(), fl[-1])
            if not (isinstance(got, T) and got.op == 'app' and got.a[0] in ('MINF', 'MAXF') and len(got.a) == 5):
                ck.undecided('bbox', f, '%s: %s' % (what, show(got) if isinstance(got, T) else got))
                continue
            ck.ok(got.a[0] == kind, 'bbox', f, '%s: argument %d is a %s fold' % (what, k, got.a[0]))
            ck.eqv('bbox', f, got.a[2], want, what=what + ' folds the coordinate of every pixel')
            ck.eqv('bbox', f, to_num(got.a[3]), to_num(guard), what=what + ' guard')
            ck.eqv('bbox', f, got.a[4], mk('app', ('size', pix), 'i'), what=what + ' range')
            v0 = got.a[1]
            big = num(2147483647) if kind == 'MINF' else num(-2147483648)
            ck.eqv('bbox', f, v0, big, what=what + ' starts neutral')
    o = Obj(F, 'PixelBoundaries', dict(enumerate(sym(n, 'i') for n in ('mnx', 'mny', 'mxx', 'mxy'))), nparams=4)
    if o.ok:
        mn, mny, mx, mxy = (o.params[k] for k in range(4))
        for m, wx, wy in (('getMin', mn, mny), ('getMax', mx, mxy)):
            s = o.call(m)
            f = o.method(m)
            ck.eqv('bbox-size', f, rd(s, s.ret, 'm_x', 'int'), wx, what=m + ' x')
            ck.eqv('bbox-size', f, rd(s, s.ret, 'm_y', 'int'), wy, what=m + ' y')
        ck.eqv('bbox-size', o.method('getWidth'), o.call('getWidth').ret, add(sub(mx, mn), num(1)), what='width')
        ck.eqv('bbox-size', o.method('getHeight'), o.call('getHeight').ret, add(sub(mxy, mny), num(1)), what='height')
