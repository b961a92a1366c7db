"""C30: the values of the basic measurements are the documented functions of the pixels of the source, and every column shows the quantity of its name."""
from sx.props import *
import sx.props as P
from sx.facts import walk
from sx.interp import Lam, Interp
from checks import c16

NS = 'SourceXtractor::'
TUS = tuple('SEImplementation/src/lib/Plugin/%s/*.cpp' % d for d in (
    'PixelCentroid', 'PixelBoundaries', 'PeakValue', 'ShapeParameters', 'IsophotalFlux', 'ErrorEllipse', 'SNRRatio', 'NDetectedPixels', 'CoreThresholdPartition', 'BoundaryFlag', 'SaturateFlag',
    'BlendedFlag', 'DetectionFramePixelValues', 'ExternalFlag', 'WorldCentroid', 'MeasurementFramePixelCentroid', 'AutoPhotometry', 'AperturePhotometry', 'KronRadius', 'FluxRadius', 'GrowthCurve', 'SourceIDs', 'GroupInfo',
    'Vignet', 'DetectionFrameGroupStamp', 'MeasurementFrameGroupRectangle', 'SourceFlags', 'AssocMode', 'HduNumber'))
SRC = sym('source', 'o')
INST = sym('instance', 'i')
ZP = sym('zero_point', 'r')
N = sym('npixels', 'i')
B = mk('sym', ('$0.0',), 'i')
IMAX, IMIN = 2147483647, -2147483648


def prop_(c, i=None):
    return prop(c, SRC, i)


def el(o, i, srt='r'):
    return mk('app', ('elem', o, i), srt)


COORDS = getter(prop_('PixelCoordinateList'), 'getCoordinateList', sort='o')
VALS, FILT, VARS = (getter(prop_('DetectionFramePixelValues'), g, sort='o') for g in ('getValues', 'getFilteredValues', 'getVariances'))
PX, PY = (mk('app', ('fld', m, el(COORDS, B, 'o')), 'i') for m in ('m_x', 'm_y'))
V, FV, VR = (el(o, B) for o in (VALS, FILT, VARS))
CX, CY = (getter(prop_('PixelCentroid'), g) for g in ('getCentroidX', 'getCentroidY'))
SIZES = {mk('app', ('size', o), 'i'): N for o in (COORDS, VALS, FILT, VARS)}


# ---------------------------------------------------------------- sums
class Sums:
    """sums over the pixels of the source written as symbols, one per different sum: SUM is linear, and what does not depend on the pixel is taken out"""

    def __init__(self):
        self.sums, self.names = {}, {}

    def of(self, body, n=N):
        """the sum of body over the n pixels"""
        n = subst(n, SIZES)
        body = indic(body)
        r = num(0)
        for m, k in monos(body).items():
            inn = [(x, e) for x, e in m if dep(x)]
            out = [(x, e) for x, e in m if not dep(x)]
            if inn:
                key = (poly({tuple(inn): Fraction(1)}), n)
                if key not in self.sums:
                    self.sums[key] = sym('SUM%d' % len(self.sums), 'r')
                    self.names[self.sums[key]] = 'sum of %s over %s' % (show(key[0]), show(n))
                s = self.sums[key]
            else:
                s = n
            r = add(r, mul(poly({tuple(out): k}), s))
        return r

    def __call__(self, t):
        """t with its sums as symbols"""
        if not isinstance(t, T):
            return t
        t = subst(t, SIZES)
        for _ in range(6):
            ss = [x for x in subterms(t) if x.op == 'app' and x.a[0] == 'SUM' and len(x.a) == 3 and not any(y.op == 'app' and y.a[0] == 'SUM' for y in subterms(x.a[1]))]
            if not ss:
                break
            t = subst(t, {x: self.of(x.a[1], x.a[2]) for x in ss})
        return t


def dep(x):
    return B in subterms(x)


def indic(b):
    """conditions that depend on the pixel as 0/1 factors"""
    m = {}
    for x in subterms(b):
        if x.op == 'ite' and dep(x.a[0]) and is_num(x.a[1]) and is_num(x.a[2]) and not (const(x.a[1]) == 1 and const(x.a[2]) == 0):
            c = x.a[0]
            neg_ = c.op == 'not'
            g = ite(c.a[0] if neg_ else c, num(1), num(0))
            if neg_:
                g = sub(num(1), g)
            m[x] = add(mul(g, x.a[1]), mul(sub(num(1), g), x.a[2]))
    return subst(b, m) if m else b


# ---------------------------------------------------------------- running tasks, building properties, reading columns
class World:
    def __init__(self, ck, F):
        self.ck, self.F = ck, F
        self.cols = None
        self.sums = Sums()

    def task(self, name, args=None, extra=None):
        """summary of computeProperties of a task built with the given constructor arguments"""
        F = self.F
        fs = [f for f in F.fn(name + '::computeProperties') if f.get('body') and not f.get('dep')]
        if not fs:
            raise Broken('%s::computeProperties vanished' % name)
        h = P.handlers(F, extra)
        if args is None:
            return fs[0], summarise(F, fs[0], args={0: SRC}, handlers=h)
        o = Obj(F, name, args=args, handlers=h, general=False, pick=lambda f: not any('&&' in p['t'] or short(ctype(p['t']).rstrip('&').replace('const ', '').strip()) == name for p in f['params']))
        if not o.ok:
            raise Broken('no constructor of %s' % name)
        return fs[0], o.call('computeProperties', f=fs[0], args={0: SRC})

    def stored(self, f, s, cls):
        self.ck.exact = s.it.exact
        r = setprops(s, cls)
        if not r:
            self.ck.undecided('values', f, 'no store of %s recognised' % cls)
        return r

    def build(self, s, e):
        """(object, state) of the property stored by effect e"""
        F, cls = self.F, e.d['cls']
        cs = [f for f in F.funcs.values() if f.get('fk') == 'ctor' and not f.get('dep') and strip_targs(f.get('cls') or '').split('::')[-1] == cls and f['q'].startswith(NS)]
        av = e.d['argt']
        fit = [f for f in cs if len([p for p in f['params'] if p.get('def') is None]) <= len(av) <= len(f['params']) and not any(short(ctype(p['t']).rstrip('&').replace('const ', '').strip()) == cls for p in f['params'])]
        if len(fit) != 1:
            return None
        o = sym('prop', 'o')
        it = s.it
        st = e.d['st'].copy() if isinstance(e.d.get('st'), object) and e.d.get('st') is not None and hasattr(e.d.get('st'), 'heap') else s.st.copy()
        r = summarise(F, fit[0], args=dict(enumerate(av)), this=o, st=st, interp=it)
        r.st.heap[(o, '#class')] = fit[0].get('clskey')
        return o, r.st, it, cls

    def getter(self, pr, name):
        o, st, it, cls = pr
        ms, todo = [], [st.heap[(o, '#class')]]
        while todo and not ms:
            k = todo.pop(0)
            ms = [f for f in self.F.funcs.values() if f['n'] == name and f.get('clskey') == k and f.get('body')]
            todo += [b.get('key') for b in (self.F.records.get(k) or {}).get('bases', ())]
        if not ms:
            raise Broken('%s::%s vanished' % (cls, name))
        s = summarise(self.F, ms[0], this=o, st=st.copy(), interp=it)
        self.after = s.st
        return ms[0], s.ret

    def column(self, name):
        """(class, lambda node, registering call, function)"""
        if self.cols is None:
            self.cols = {}
            for f in self.F.funcs.values():
                if f['n'] != 'registerPlugin' or not f.get('body') or not f['file'].startswith(REPO):
                    continue
                for n in c16.nodes(f['body']):
                    if n.get('k') == 'call' and n.get('q', '') == NS + 'OutputRegistry::registerColumnConverter' and n.get('ta'):
                        c = c16.literal(n['args'][0])
                        if c:
                            self.cols[c] = (short(c16.targs(n['ta'])[0]), n['args'][1], n, f)
        return self.cols.get(name)

    def shown(self, name, pr):
        """value of the column for the property object"""
        c = self.column(name)
        if c is None:
            return None, None
        cls, lam, n, f = c
        o, st, it, pc = pr
        where = c16.at(f, n)
        if cls != pc:
            return where, ('class', cls)
        st = st.copy()
        s = self.sandbox(it)
        v = it.ev(lam, st)
        v = it.val(v, st)
        if not isinstance(v, Lam):
            return where, None
        r = it.val(it.call_lambda(v, [o], st, n), st)
        return where, r if isinstance(r, T) else None

    def sandbox(self, it):
        it.frame = {'no': it.newframe(), 'own': set(), 'this': it.fresh('nothis', 'o'), 'parent': None}
        it.depth = 0


def check(W, rule, where, got, want, what, facts=()):
    ck = W.ck
    if not isinstance(got, T):
        return ck.undecided(rule, where, '%s: value not recognised' % what)
    g, w = W.sums(got), W.sums(want)
    return ck.eqv(rule, where, g, w, facts=list(facts), what=what)


def columns(W, pr, spec, facts=()):
    for name, want in spec.items():
        where, v = W.shown(name, pr)
        if where is None:
            W.ck.undecided('columns', 'column %s' % name, 'no converter is registered under this name')
        elif isinstance(v, tuple):
            W.ck.undecided('columns', where, 'column %s reads %s' % (name, v[1]))
        else:
            check(W, 'columns', where, v, want, 'column %s' % name, facts)


def getters(W, pr, spec, rule='values', facts=()):
    for name, want in spec.items():
        try:
            f, v = W.getter(pr, name)
        except Broken as e:
            W.ck.undecided(rule, '%s::%s' % (pr[3], name), str(e))
            continue
        check(W, rule, f, v, want, '%s::%s of what is stored' % (pr[3], name), facts)


def one(W, name, cls, args=None, extra=None):
    f, s = W.task(name, args, extra)
    es = W.stored(f, s, cls)
    r = []
    for e in es:
        pr = W.build(s, e)
        if pr is None:
            W.ck.undecided('values', f, '%s: constructor not recognised' % cls)
        else:
            r.append((f, s, e, pr))
    return r


# ---------------------------------------------------------------- measurements
def centroid(ck, W):
    S = W.sums.of
    for f, s, e, pr in one(W, 'PixelCentroidTask', 'PixelCentroid'):
        den = inv(S(FV))
        x, y = mul(S(mul(PX, FV)), den), mul(S(mul(PY, FV)), den)
        getters(W, pr, {'getCentroidX': x, 'getCentroidY': y})
        columns(W, pr, {'pixel_centroid_x': add(x, num(1)), 'pixel_centroid_y': add(y, num(1))})


def inv(t):
    return div(num(1), t)


def extent(ck, W):
    for task, cls, guard in (('PixelBoundariesTask', 'PixelBoundaries', None), ('PixelBoundariesTaskHalfMaximum', 'PixelBoundariesHalfMaximum', True)):
        for f, s, e, pr in one(W, task, cls):
            g0 = TRUE
            if guard:
                g0 = ge(FV, scale(getter(prop_('PeakValue'), 'getMaxValue'), Fraction(1, 2)))
            for nm, kind, fl, bad in (('getMin', 'MINF', 'm_x', IMAX), ('getMin', 'MINF', 'm_y', IMAX), ('getMax', 'MAXF', 'm_x', IMIN), ('getMax', 'MAXF', 'm_y', IMIN)):
                try:
                    g, v = W.getter(pr, nm)
                    v = s.it.rd(W.after, ('fld', v, fl), 'int') if isinstance(v, T) else None
                except Broken as x:
                    ck.undecided('extent', f, str(x))
                    continue
                fold(W, 'extent', f, v, kind, PX if fl == 'm_x' else PY, g0, bad, '%s of the pixels%s: %s' % ('smallest' if kind == 'MINF' else 'largest', ' at or above half of the peak' if guard else '', fl))


def fold(W, rule, f, v, kind, body, guard, start, what):
    """v is the smallest/largest body over the pixels satisfying guard"""
    ck = W.ck
    if isinstance(v, T) and v.op == 'ite':
        ls = [x for x in leaves(v) if x.op == 'app' and x.a[0] in ('MINF', 'MAXF')]
        if len(ls) == 1:
            v = ls[0]
    if not (isinstance(v, T) and v.op == 'app' and v.a[0] in ('MINF', 'MAXF') and len(v.a) == 5):
        return ck.undecided(rule, f, '%s: %s' % (what, show(v) if isinstance(v, T) else v))
    _, init, b, g, n = v.a
    if v.a[0] != kind:
        return ck.fail(rule, f, '%s: the %s is taken' % (what, 'minimum' if v.a[0] == 'MINF' else 'maximum'))
    n = subst(n, SIZES)
    r = ck.eqv(rule, f, n, N, what=what + ': number of pixels')
    r = ck.eqv(rule, f, b, body, what=what)
    if g is not guard:
        a, why = equal(g, guard)
        if a is None:
            ck.undecided(rule, f, '%s: %s' % (what, why))
        else:
            ck.ok(a, rule, f, '%s: counted under %s' % (what, show(g)))
    c = const(init)
    if start is None:
        lim = 'max' if kind == 'MINF' else 'lowest'
        ok = None
        if init.op == 'app' and init.a[0] == 'limit':
            ok = init.a[1] == lim or (init.a[1] == 'infinity' and kind == 'MINF')
        elif c is not None:
            ok = abs(c) > 3 * 10 ** 38 and (c > 0) == (kind == 'MINF')
        elif init.op in ('poly',) and any(x.op == 'app' and x.a[0] == 'limit' for x in subterms(init)):
            k = list(monos(init).items())
            if len(k) == 1 and k[0][1] < 0 and k[0][0][0][0].a[1] in ('max', 'infinity') and kind == 'MAXF':
                ok = True
        ck.ok(ok, rule, f, '%s: the search starts at %s' % (what, show(init)))
    elif c is not None:
        ck.ok(c >= start if start > 0 else c <= start, rule, f, '%s: the search starts at %s' % (what, show(init)))
    elif init.op == 'app' and init.a[0] == 'limit':
        ck.ok(init.a[1] in (('max',) if start > 0 else ('min', 'lowest')), rule, f, '%s: the search starts at %s' % (what, show(init)))
    else:
        ck.undecided(rule, f, '%s: the search starts at %s' % (what, show(init)))


def peak(ck, W):
    for f, s, e, pr in one(W, 'PeakValueTask', 'PeakValue'):
        g, v = W.getter(pr, 'getMaxValue')
        fold(W, 'extent', f, v, 'MAXF', FV, TRUE, None, 'peak value')
        c, w = W.shown('peak_value', pr)
        ck.ok(w is v or (equal(w, v)[0] if isinstance(w, T) else None), 'columns', c or f, 'column peak_value')
        g, m = W.getter(pr, 'getMinValue')
        fold(W, 'extent', f, m, 'MINF', FV, TRUE, None, 'lowest value')
        # position: changed together with the value, to the coordinates of the pixel
        for nm, col, p in (('getMaxValueX', 'peak_value_x', 'm_x'), ('getMaxValueY', 'peak_value_y', 'm_y')):
            g, x = W.getter(pr, nm)
            c, w = W.shown(col, pr)
            if isinstance(w, T) and isinstance(x, T):
                ck.eqv('columns', c, w, add(x, num(1)), what='column ' + col)
            else:
                ck.undecided('columns', c or f, 'column ' + col)
            follow(W, f, s, x, p, 'position of the peak: ' + p)


def follow(W, f, s, x, fl, what):
    """x is a loop variable set to the coordinate of the pixel exactly when a filtered value above all previous ones is met"""
    ck = W.ck
    for L in s.it.all_loops:
        st = getattr(L, 'step', {})
        if x in st:
            v0, w = st[x]
            if not (w.op == 'ite' and (w.a[1] is x or w.a[2] is x)):
                return ck.undecided('extent', f, '%s: step %s' % (what, show(w)))
            g, val = (w.a[0], w.a[1]) if w.a[2] is x else (bnot(w.a[0]), w.a[2])
            val = val
            if not (val.op == 'app' and val.a[0] == 'fld' and val.a[2].op == 'app' and val.a[2].a[0] == 'elem'):
                return ck.undecided('extent', f, '%s: set to %s' % (what, show(val)))
            i = val.a[2].a[2]
            ok = val.a[1] == fl and val.a[2].a[1] is COORDS
            ck.ok(ok, 'extent', f, '%s is %s of the pixel' % (what, val.a[1]))
            # the condition compares the filtered value of the same pixel with the running maximum
            vs = [y for y in subterms(g) if y.op == 'app' and y.a[0] == 'elem' and y.a[1] in (FILT, VALS, VARS)]
            if len(set(vs)) != 1:
                return ck.undecided('extent', f, '%s: condition %s' % (what, show(g)))
            ck.ok(vs[0].a[1] is FILT, 'extent', f, '%s is searched in the filtered values' % what)
            r = equal(vs[0].a[2], i, L.facts)
            ck.ok(r[0], 'extent', f, '%s: value and coordinate belong to the same pixel' % what)
            rest = [y for y in subterms(g) if y.op in ('sym', 'app') and y not in subterms(vs[0]) and y.op == 'sym']
            run_ = [y for y in rest if y in st]
            if len(run_) != 1:
                return ck.undecided('extent', f, '%s: condition %s' % (what, show(g)))
            m = run_[0]
            a = equal(g, gt(vs[0], m))
            b = equal(g, ge(vs[0], m))
            ck.ok(True if a[0] or b[0] else False if a[0] is False and b[0] is False else None, 'extent', f, '%s is updated under %s' % (what, show(g)))
            return
    ck.undecided('extent', f, '%s: %s' % (what, show(x) if isinstance(x, T) else x))


def isophotal(ck, W):
    S = W.sums.of
    gain = getter(prop_('DetectionFrameInfo'), 'getGain')
    for f, s, e, pr in one(W, 'IsophotalFluxTask', 'IsophotalFlux', {0: ZP}):
        fl = S(V)
        var = ite(gt(gain, num(0)), add(S(VR), div(fl, gain)), S(VR))
        photometry(W, pr, f, fl, var, 'isophotal_', ('getFlux', 'getFluxError', 'getMag', 'getMagError'))


NAN = mk('app', ('limit', 'quiet_NaN', 'float'), 'r')


def photometry(W, pr, f, fl, var, col, names):
    err = app('sqrt', (var,), 'r')
    mag = ite(gt(fl, num(0)), add(scale(app('log10', (fl,), 'r'), Fraction(-5, 2)), ZP), NAN)
    want = (fl, err, mag, scale(div(err, fl), Fraction('1.0857')))
    for nm, c, w in zip(names, ('flux', 'flux_err', 'mag', 'mag_err'), want):
        try:
            g, v = W.getter(pr, nm)
        except Broken as x:
            W.ck.undecided('values', f, str(x))
            continue
        magcheck(W, 'values', f, v, w, nm)
        if col:
            c, v = W.shown(col + c, pr)
            magcheck(W, 'columns', c or f, v, w, 'column')


def magcheck(W, rule, f, v, w, what):
    if isinstance(v, T):
        v = subst(v, {x: NAN for x in subterms(v) if x.op == 'app' and x.a[0] == 'limit' and x.a[1] == 'quiet_NaN'})
    check(W, rule, f, v, w, what)


def moments(ck, W):
    S = W.sums.of
    dx, dy = sub(PX, CX), sub(PY, CY)
    for f, s, e, pr in one(W, 'ShapeParametersTask', 'ShapeParameters'):
        tot = S(FV)
        x2, y2, xy = (div(S(mul(m, FV)), tot) for m in (mul(dx, dx), mul(dy, dy), mul(dx, dy)))
        getters(W, pr, {'getArea': N, 'getIntensity': tot}, 'moments')
        shape(W, f, pr, x2, y2, xy)


def shape(W, f, pr, x2, y2, xy):
    ck = W.ck
    # the second moments as numbers of their own
    X2, Y2, XY = sym('x2', 'r'), sym('y2', 'r'), sym('xy', 'r')
    tot = sym('total', 'r')
    back = moments_of(W, (x2, y2, xy), (X2, Y2, XY))
    if back is None:
        return ck.undecided('moments', f, 'moments are not independent sums')
    half, dif = scale(add(X2, Y2), Fraction(1, 2)), sub(X2, Y2)
    root = app('sqrt', (add(scale(mul(dif, dif), Fraction(1, 4)), mul(XY, XY)),), 'r')
    A = app('sqrt', (add(half, root),), 'r')
    Bm = ite(gt(half, root), app('sqrt', (sub(half, root),), 'r'), num(0))
    theta = ite(eq(dif, num(0)), scale(PI, Fraction(1, 4)), scale(app('atan2', (scale(XY, 2), dif), 'r'), Fraction(1, 2)))
    det = sub(mul(X2, Y2), mul(XY, XY))
    tw = Fraction('0.0833333')
    sing = lt(det, num(Fraction('0.00694')))
    x2s, y2s = add(X2, num(tw)), add(Y2, num(tw))
    dets = sub(mul(x2s, y2s), mul(XY, XY))
    want = {'getEllipseA': A, 'getEllipseB': Bm, 'getEllipseTheta': theta,
            'getEllipseCxx': ite(sing, div(y2s, dets), div(Y2, det)), 'getEllipseCyy': ite(sing, div(x2s, dets), div(X2, det)),
            'getEllipseCxy': ite(sing, div(scale(XY, -2), dets), div(scale(XY, -2), det)), 'getSinguFlag': sing}
    cols = {'ellipse_a': A, 'ellipse_b': Bm, 'ellipse_theta': scale(mul(theta, inv(PI)), 180), 'ellipse_cxx': want['getEllipseCxx'], 'ellipse_cyy': want['getEllipseCyy'], 'ellipse_cxy': want['getEllipseCxy'],
            'area': N, 'elongation': div(A, Bm), 'ellipticity': sub(num(1), div(Bm, A))}
    for nm, w in list(want.items()):
        try:
            g, v = W.getter(pr, nm)
        except Broken as x:
            ck.undecided('moments', f, str(x))
            continue
        one_moment(W, 'moments', f, back(v), w, nm)
    for nm, w in cols.items():
        c, v = W.shown(nm, pr)
        one_moment(W, 'columns', c or 'column ' + nm, back(v) if isinstance(v, T) else v, w, 'column ' + nm)


PI = num(Fraction('3.141592653589793'))


def one_moment(W, rule, f, v, w, what):
    if not isinstance(v, T):
        return W.ck.undecided(rule, f, '%s: value not recognised' % what)
    if v.sort == 'b' and w.sort != 'b':
        v = ite(v, num(1), num(0))
    return W.ck.eqv(rule, f, absnorm(v), absnorm(w), what=what)


def absnorm(t):
    """|x| > 0 written as x != 0"""
    m = {}
    for x in subterms(t):
        if x.op == 'lt' and len(x.a) == 1:
            k = list(monos(x.a[0]).items())
            if len(k) == 1 and k[0][1] < 0 and len(k[0][0]) == 1 and k[0][0][0][1] == 1:
                a = k[0][0][0][0]
                if a.op == 'ite' and equal(add(a.a[1], a.a[2]), num(0))[0]:
                    c = a.a[0]
                    p = c.a[0] if c.op in ('lt', 'le') else None
                    if p is not None and any(equal(p, scale(a.a[1], s))[0] for s in (1, -1)):
                        m[x] = bnot(eq(a.a[1], num(0)))
    return subst(t, m) if m else t


def moments_of(W, ms, names):
    """replacement of the sums in a term by combinations of three moments"""
    env = {}
    for m, nme in zip(ms, names):
        # m = sum / total with sums of monomials: solve for one sum symbol that occurs in this moment only
        cand = [x for x in subterms(m) if x in W.sums.names and all(x not in subterms(o) for o in ms if o is not m) and x not in env]
        pick = None
        for x in cand:
            k = [(mm, c) for mm, c in monos(m).items() if any(y is x for y, _ in mm)]
            if len(k) == 1 and all(e == 1 for y, e in k[0][0] if y is x):
                pick = (x, k[0])
                break
        if pick is None:
            return None
        x, (mm, c) = pick
        cof = poly({tuple(z for z in mm if z[0] is not x): c})
        rest = sub(m, mul(cof, x))
        env[x] = div(sub(nme, rest), cof)

    def back(t):
        return subst(W.sums(t), env) if isinstance(t, T) else t
    return back


def errors(ck, W):
    S = W.sums.of
    dx, dy = sub(PX, CX), sub(PY, CY)
    sp = prop_('ShapeParameters')
    inten = getter(sp, 'getIntensity')
    sing = getter(sp, 'getSinguFlag', sort='b')
    for f, s, e, pr in one(W, 'ErrorEllipseTask', 'ErrorEllipse'):
        X2, Y2, XY, TV = (sym(n, 'r') for n in ('ex2', 'ey2', 'exy', 'evar'))
        i2 = inv(mul(inten, inten))
        x2, y2, xy = (mul(S(mul(m, VR)), i2) for m in (mul(dx, dx), mul(dy, dy), mul(dx, dy)))
        tv = mul(S(VR), scale(i2, Fraction('0.08333')))
        back = moments_of(W, (x2, y2, xy), (X2, Y2, XY))
        if back is None:
            ck.undecided('moments', f, 'moments are not independent sums')
            continue
        sv = [x for x in subterms(tv) if x in W.sums.names]

        def fin(t):
            t = back(t)
            return subst(t, {sv[0]: div(TV, scale(i2, Fraction('0.08333')))}) if isinstance(t, T) and len(sv) == 1 else t
        grow = band(sing, lt(sub(mul(X2, Y2), mul(XY, XY)), mul(TV, TV)))
        gx, gy = ite(grow, add(X2, TV), X2), ite(grow, add(Y2, TV), Y2)
        EX, EY = sym('sx2', 'r'), sym('sy2', 'r')
        half, dif = scale(add(gx, gy), Fraction(1, 2)), sub(X2, Y2)
        root = app('sqrt', (add(scale(mul(dif, dif), Fraction(1, 4)), mul(XY, XY)),), 'r')
        want = {'getEllipseAError': app('sqrt', (add(half, root),), 'r'), 'getEllipseBError': app('sqrt', (sub(half, root),), 'r'),
                'getEllipseThetaError': ite(eq(dif, num(0)), scale(PI, Fraction(1, 4)), scale(app('atan2', (scale(XY, 2), dif), 'r'), Fraction(1, 2))),
                'getEllipseCxxError': gx, 'getEllipseCyyError': gy, 'getEllipseCxyError': XY}
        cols = dict(zip(('error_ellipse_a', 'error_ellipse_b', 'error_ellipse_theta', 'error_centroid_x2', 'error_centroid_y2', 'error_centroid_xy'), want.values()))
        cols['error_ellipse_theta'] = scale(mul(want['getEllipseThetaError'], inv(PI)), 180)
        for nm, w in want.items():
            try:
                g, v = W.getter(pr, nm)
            except Broken as x:
                ck.undecided('moments', f, str(x))
                continue
            one_moment(W, 'moments', f, fin(v), w, nm)
        for nm, w in cols.items():
            c, v = W.shown(nm, pr)
            one_moment(W, 'columns', c or 'column ' + nm, fin(v) if isinstance(v, T) else v, w, 'column ' + nm)


def counts(ck, W):
    S = W.sums.of
    iso = prop_('IsophotalFlux')
    for f, s, e, pr in one(W, 'SNRRatioSourceTask', 'SNRRatio'):
        w = div(getter(iso, 'getFlux'), getter(iso, 'getFluxError'))
        getters(W, pr, {'getSNRRatio': w})
        columns(W, pr, {'snrratio': w})
    for f, s, e, pr in one(W, 'NDetectedPixelsSourceTask', 'NDetectedPixels'):
        getters(W, pr, {'getNDetectedPixels': N})
        columns(W, pr, {'n_detected_pixels': N})
    for f, s, e, pr in one(W, 'BlendedFlagTask', 'BlendedFlag'):
        sid = prop_('SourceId')
        f, v = W.getter(pr, 'getBlendedFlag')
        ck.eqv('flags', f, v, bnot(eq(getter(sid, 'getDetectionId', sort='i'), getter(sid, 'getSourceId', sort='i'))), what='blended: the source is not the only one of its detection')


# ---------------------------------------------------------------- containers
def root(st, o):
    n = 0
    while isinstance(o, T) and (o, '#copy') in st.heap and n < 20:
        o, n = st.heap[(o, '#copy')][0], n + 1
    return o


def pushed(s, st, o):
    """elements appended to container o (or what it is a copy of)"""
    o = root(st, o)
    return o, [e for e in s.effects if e.kind == 'push' and isinstance(e.d['obj'], T) and root(st, e.d['obj']) is o]


def per_pixel(e):
    """(value per pixel, number of pixels, condition) of an append in a loop, with the loop counter as B"""
    ls = [L for L in e.loops if hasattr(L, 'ranges')]
    if len(ls) != 1:
        return None
    L = ls[0]
    for x, v0, step in L.vars:
        if step == 1 and x in L.ranges or loop_subst(e) and loop_subst(e)[0] is x:
            lo, hi = trange(L, x)
            if hi is None or const(lo) != 0:
                return None
            g = band(*[p for p in e.pc if x in subterms(p) and p not in L.facts and not entails(L.facts, p)])
            return subst(e.d['val'], {x: B}), hi, subst(g, {x: B})
    return None


def pixelvalues(ck, W):
    from sx import images
    st_ = prop_('DetectionFrameSourceStamp')
    f, s = W.task('DetectionFramePixelValuesTask', None, images.handlers(W.F))
    tl = getter(st_, 'getTopLeft', sort='o')
    x, y = (sub(p, mk('app', ('fld', m, tl), 'i')) for p, m in ((PX, 'm_x'), (PY, 'm_y')))
    for e in W.stored(f, s, 'DetectionFramePixelValues'):
        pr = W.build(s, e)
        if pr is None:
            ck.undecided('values', f, 'constructor not recognised')
            continue
        for g, im in (('getValues', 'getStamp'), ('getFilteredValues', 'getFilteredStamp'), ('getVariances', 'getVarianceStamp')):
            try:
                gf, v = W.getter(pr, g)
            except Broken as x_:
                ck.undecided('values', f, str(x_))
                continue
            o, ps = pushed(s, W.after, v)
            if len(ps) != 1 or per_pixel(ps[0]) is None:
                ck.undecided('values', f, '%s: %d appends recognised' % (g, len(ps)))
                continue
            val, n, c = per_pixel(ps[0])
            ck.eqv('values', f, subst(n, SIZES), N, what='%s: one value per pixel' % g)
            ck.eqv('values', f, c, TRUE, what='%s: for every pixel' % g)
            ck.eqv('values', f, val, images.pix(getter(st_, im, sort='o'), x, y), what='%s: the pixel of %s at the coordinate relative to the corner of the stamp' % (g, im))


def simple(ck, W):
    a, b = sym('a', 'r'), sym('b', 'r')
    i, j = sym('i', 'i'), sym('j', 'i')
    for cls, args, gets, cols in (
            ('SourceID', [i, j], {'getId': i, 'getDetectionId': j}, {'source_id': i, 'detection_id': j}),
            ('WorldCentroid', [a, b], {'getCentroidAlpha': a, 'getCentroidDelta': b}, {'world_centroid_alpha': a, 'world_centroid_delta': b}),
            ('KronRadius', [a, i], {'getKronRadius': a, 'getFlag': i}, {'kron_radius': a, 'kron_flag': i}),
            ('ExternalFlag', [i, j], {'getFlag': i, 'getCount': j}, {'isophotal_image_flags': i, 'isophotal_image_flags_pixel_count': j}),
            ('NCorePixel', [i], {'getNCorePixel': i}, {'n_core_pixel': i}),
            ('GroupInfo', [i], {'getGroupId': i}, {'group_id': i}),
            ('HduNumber', [i], {'getHduNumber': i}, {'hdu_number': i})):
        it = Interp(W.F, handlers=P.handlers(W.F))
        W.sandbox(it)
        from sx.interp import State

        class S:
            pass
        e, s = S(), S()
        e.d = {'cls': cls, 'argt': args}
        s.it, s.st, s.effects = it, State(), []
        pr = W.build(s, e)
        if pr is None:
            ck.undecided('columns', cls, 'constructor not recognised')
            continue
        getters(W, pr, gets)
        columns(W, pr, cols)
    f, s = W.task('HduNumberTask')
    for e in W.stored(f, s, 'HduNumber'):
        ck.eqv('values', f, e.d['argt'][0], getter(prop_('DetectionFrameInfo'), 'getHduIndex', sort='i'), what='HDU number')
    f, s = W.task('SourceIDTask')
    for e in W.stored(f, s, 'SourceID'):
        ck.eqv('values', f, e.d['argt'][1], getter(prop_('SourceId'), 'getDetectionId', sort='i'), what='identifier of the detection')


def flagtasks(ck, W):
    from sx import images
    inf = prop_('MeasurementFrameInfo', INST)
    # boundary
    for f, s, e, pr in one(W, 'BoundaryFlagSourceTask', 'BoundaryFlag', {0: INST}):
        ck.eqv('flags', f, e.d['index'], INST, what='boundary flag is stored for its own image')
        g, v = W.getter(pr, 'getBoundaryFlag')
        rc = prop_('MeasurementFrameRectangle', INST)
        mn, mx = (mk('app', ('fld', m, rc), 'o') for m in ('m_min_coord', 'm_max_coord'))
        x0, y0 = (mk('app', ('fld', m, mn), 'i') for m in ('m_x', 'm_y'))
        x1, y1 = (mk('app', ('fld', m, mx), 'i') for m in ('m_x', 'm_y'))
        w, h = (getter(inf, m, sort='i') for m in ('getWidth', 'getHeight'))
        v = rectangle(v, rc, x0, y0, x1, y1)
        some = ge(x1, num(0))
        want = band(some, bor(le(x0, num(0)), le(y0, num(0)), ge(x1, sub(w, num(1))), ge(y1, sub(h, num(1)))))
        ck.eqv('flags', f, v, want, facts=[bor(lt(x1, num(0)), band(le(x0, x1), le(y0, y1)))], what='boundary: the rectangle of the source exists and touches an edge of the image')


    saturated(ck, W, inf)
    # pixels of the core
    LVL = sym('level', 'r')
    for f, s, e, pr in one(W, 'CoreThresholdPartitionTask', 'NCorePixel', {0: LVL}, images.handlers(W.F)):
        g, v = W.getter(pr, 'getNCorePixel')
        snr = images.pix(mk('app', ('get:getLockedImage', prop_('DetectionFrameImages'), num(layer(W.F, 'LayerSignalToNoiseMap'))), 'o'), PX, PY)
        check(W, 'values', f, v, W.sums.of(ite(ge(snr, LVL), num(1), num(0))), 'number of pixels whose signal to noise reaches the level')


def layer(F, name):
    return dict(F.enums[NS + 'FrameImageLayer']['c'])[name]


def saturated(ck, W, inf):
    from sx import images
    f, s = W.task('SaturateFlagSourceTask', {0: INST}, images.handlers(W.F))
    rc = prop_('MeasurementFrameRectangle', INST)
    mn, mx = (mk('app', ('fld', m, rc), 'o') for m in ('m_min_coord', 'm_max_coord'))
    x0, y0 = (mk('app', ('fld', m, mn), 'i') for m in ('m_x', 'm_y'))
    x1, y1 = (mk('app', ('fld', m, mx), 'i') for m in ('m_x', 'm_y'))
    SAT = getter(inf, 'getSaturation')
    fs = [gt(SAT, num(0)), ge(x1, num(0)), ge(x1, x0), ge(y1, y0)]
    for e in W.stored(f, s, 'SaturateFlag'):
        ck.eqv('flags', f, e.d['index'], INST, what='saturation flag is stored for its own image')
        v = e.d['argt'][0]
        ck.entail('flags', f, [v] if v.sort == 'b' else [bnot(eq(v, num(0)))], gt(SAT, num(0)), what='saturation is flagged only when a saturation level is given')
        outer = [x for x in subterms(v) if x.op == 'app' and x.a[0] == 'EXISTS' and x.a[1].op == 'app' and x.a[1].a[0] == 'EXISTS']
        if len(outer) != 1:
            ck.undecided('flags', f, 'search over the pixels not recognised')
            continue
        inner = outer[0].a[1]
        ps = {x for x in subterms(inner.a[1]) if x.op == 'app' and x.a[0] == 'pix'}
        if len(ps) != 1:
            ck.undecided('flags', f, 'pixel searched not recognised: %s' % show(inner.a[1]))
            continue
        p = ps.pop()
        c = p.a[1]
        b0, b1 = sym('$0.0', 'i'), sym('$1.0', 'i')
        ck.eqv('flags', f, inner.a[1], ge(p, SAT), what='a pixel at or above the saturation level raises the flag')
        rows = None
        if p.a[2] is b0 and p.a[3] is b1:
            rows = (inner.a[2], outer[0].a[2])
        elif p.a[2] is b1 and p.a[3] is b0:
            rows = (outer[0].a[2], inner.a[2])
        plain = all(not y.op == 'sym' or '#' not in str(y.a[0]) for x in p.a[2:] for y in subterms(x))
        ck.ok(True if rows else False if plain else None, 'flags', f, 'the search starts at the first row and column: %s, %s' % (show(p.a[2]), show(p.a[3])))
        cfs = fs
        if c.op == 'app' and c.a[0] == 'get:getImageChunk':
            want = (num(layer(W.F, 'LayerOriginalImage')), x0, y0, add(sub(x1, x0), num(1)), add(sub(y1, y0), num(1)))
            for x, w, nm in zip(c.a[2:], want, ('layer', 'left', 'top', 'width', 'height')):
                ck.eqv('flags', f, rectangle(x, rc, x0, y0, x1, y1), w, facts=fs, what='saturation is searched in the rectangle of the source: ' + nm)
            if rows:
                for r, d, k in zip(rows, ('width', 'height'), (4, 5)):
                    a, b = equal(r, images.dim(c, d))[0], equal(r, c.a[2:][k - 1])[0]
                    ck.ok(True if a or b else None if None in (a, b) else False, 'flags', f, 'the search covers the whole %s: %s' % (d, show(r)))
        else:
            ck.undecided('flags', f, 'image searched: %s' % show(c))
        rest = subst(v, {outer[0]: TRUE})
        ck.eqv('flags', f, rectangle(rest, rc, x0, y0, x1, y1), gt(SAT, num(0)), facts=fs, what='the whole source is searched whenever a saturation level is given')


def external(ck, W):
    F = W.F
    FLS = sym('flags', 'o')
    lim = lambda n: (num(2 ** 63 - 1) if n == 'max' else None)
    for name in ('Or', 'And', 'Min', 'Max'):
        fs = [f for f in F.funcs.values() if f['n'] == 'combine' and (f.get('cls') or '').split('::')[-1] == name and f.get('body')]
        if not fs:
            ck.undecided('flags', 'ExternalFlagTask.cpp', 'combination %s vanished' % name)
            continue
        f = fs[0]
        s = summarise(F, f, args={0: FLS})
        ck.exact = s.it.exact
        if not isinstance(s.ret, T):
            ck.undecided('flags', f, '%s: result not recognised' % name)
            continue
        fl, cn = (s.it._t(s.it.rd(s.st, ('fld', s.ret, m), 'long'), s.st) for m in ('first', 'second'))
        big = mk('app', ('limit', 'max', 'long'), 'i')
        L = [L for L in s.it.all_loops if L.step]
        el_ = lambda t: any(y.op == 'app' and y.a[0] == 'elem' and y.a[1] is FLS for y in subterms(t))
        x = [y for y in (L[0].step if L else {}) if any(el_(t[0]) for _, t in leaves_of([], L[0].step[y][1]))]
        if len(L) != 1 or len(x) != 1:
            # a value that is precise but not such an accumulation
            known = name == 'Or' and not any(y.op == 'sym' and '#' in str(y.a[0]) or y.op == 'app' and y.a[0] in ('bor', 'band', 'bxor') for y in subterms(fl))
            ck.ok(False if known else None, 'flags', f, '%s combines every flag: %s' % (name, show(fl)))
            continue
        L, x = L[0], x[0]
        v0, w = L.step[x]
        ps = {y for y in subterms(w) if y.op == 'app' and y.a[0] == 'elem' and y.a[1] is FLS}
        if len(ps) != 1:
            ck.undecided('flags', f, '%s: step %s' % (name, show(w)))
            continue
        p = ps.pop()
        start = {'Or': num(0), 'And': big, 'Min': big, 'Max': num(0)}[name]
        ok = v0 is start or (name in ('And', 'Min') and const(v0) in (2 ** 63 - 1, -1 if name == 'And' else 2 ** 63 - 1))
        ck.ok(True if ok else False if const(v0) is not None or v0.op == 'app' and v0.a[0] == 'limit' else None, 'flags', f, '%s starts at %s' % (name, show(v0)))
        if name in ('Or', 'And'):
            z = subst(w, {p: num(0)}) if name == 'Or' else None
            op = {'Or': 'bor', 'And': 'band'}[name]
            r = None
            for lits, (t,) in leaves_of([], w):
                good = t.op == 'app' and t.a[0] == op and set(t.a[1:]) == {p, x}
                if t is x and name == 'Or':
                    good = entails(lits, eq(p, num(0)))
                plain = all(y.op in ('app', 'sym', 'poly', 'num', 'const') for y in subterms(t)) and not any(y.op == 'app' and y.a[0] not in ('bor', 'band', 'bxor', 'elem') for y in subterms(t))
                r = good if r is None else (r and good)
                if not good and not plain:
                    r = None
                    break
            ck.ok(r, 'flags', f, '%s combines every flag: %s' % (name, show(w)))
        else:
            ck.eqv('flags', f, w, ite(lt(p, x) if name == 'Min' else gt(p, x), p, x), exact=(x,), what='%s keeps the %s flag' % (name, 'smallest' if name == 'Min' else 'largest'))
        # pixels counted
        cn_ok = None
        if name == 'Or':
            body = ite(eq(subst(p, {p.a[2]: B}), num(0)), num(0), num(1))
            check(W, 'flags', f, cn, W.sums.of(body, mk('app', ('size', FLS), 'i')), 'Or counts the pixels with a flag')
        elif name == 'And':
            check(W, 'flags', f, cn, mk('app', ('size', FLS), 'i'), 'And counts the pixels')
        else:
            c = [y for y in L.step if y in subterms(cn) and y is not x]
            if len(c) != 1:
                ck.undecided('flags', f, '%s: count %s' % (name, show(cn)))
                continue
            c0, cw = L.step[c[0]]
            ck.eqv('flags', f, c0, num(0), what='%s: the count starts at 0' % name)
            ck.eqv('flags', f, cw, ite(lt(p, x) if name == 'Min' else gt(p, x), num(1), ite(eq(p, x), add(c[0], num(1)), c[0])), exact=(x, c[0]), what='%s counts the pixels with the result' % name)
            folded = [y for y in subterms(fl) if y.op == 'app' and y.a[0] in ('MINF', 'MAXF')]
            ck.eqv('flags', f, subst(fl, {y: x for y in folded}), ite(eq(c[0], num(0)), num(0), x), what='%s: no pixel gives no flag' % name)


def flag_task(ck, W):
    """the combined flags are those of the pixels of the source"""
    from sx import images
    F = W.F
    fs = [f for f in F.funcs.values() if f['n'] == 'computeProperties' and strip_targs(f['q']) == NS + 'ExternalFlagTask::computeProperties' and f.get('body') and not f.get('dep')]
    if len(fs) < 5:
        ck.undecided('flags', 'ExternalFlagTask.cpp', '%d combinations instantiated' % len(fs))
    for f in fs:
        name = (f.get('cls') or '').split('<')[-1].rstrip('>').split('::')[-1]
        comb = [c['q'] for c in c16.nodes(f['body']) if c.get('k') == 'call' and c.get('n') == 'combine']
        if len(comb) != 1:
            ck.undecided('flags', f, '%d combinations called' % len(comb))
            continue
        s = summarise(F, f, args={0: SRC}, this=sym('task', 'o'), handlers=P.handlers(F, dict(images.handlers(F), **pure(comb[0]))))
        for e in W.stored(f, s, 'ExternalFlag'):
            ck.eqv('flags', f, e.d['index'], mk('app', ('fld', 'm_flag_instance', sym('task', 'o')), 'i'), what='external flag is stored for its own instance')
            cs = [c for c in s.effects if c.kind == 'call' and c.d.get('q') == comb[0]]
            pr = W.build(s, e)
            if len(cs) != 1 or pr is None:
                ck.undecided('flags', f, '%d combinations recognised' % len(cs))
                continue
            r = cs[0].d['ret']
            for g, m in (('getFlag', ('first', '#0')), ('getCount', ('second', '#1'))):
                v = W.getter(pr, g)[1]
                c_ = [x for x in subterms(v) if x.op == 'app' and x.a[0] == 'fld' and x.a[2] is r] if isinstance(v, T) else []
                while isinstance(v, T) and v.op == 'app' and v.a[0] == 'trunc':
                    v = v.a[1]
                ck.ok(True if len(c_) == 1 and v is c_[0] and c_[0].a[1] in m else False if len(c_) == 1 and v is c_[0] else None, 'flags', f, '%s is the %s result of the combination: %s' % (g, m[0], show(v)))
            o, ps = pushed(s, cs[0].d.get('st') or s.st, cs[0].d['argt'][0])
            if len(ps) != 1 or per_pixel(ps[0]) is None:
                ck.undecided('flags', f, '%d flags of pixels recognised' % len(ps))
                continue
            val, n, c = per_pixel(ps[0])
            ck.eqv('flags', f, subst(n, SIZES), N, what='one flag per pixel of the source')
            ck.eqv('flags', f, c, TRUE, what='the flag of every pixel of the source')
            im = [x for x in subterms(val) if x.op == 'app' and x.a[0] == 'pix']
            if len(im) != 1:
                ck.undecided('flags', f, 'flag of a pixel: %s' % show(val))
                continue
            ck.eqv('flags', f, val, images.pix(im[0].a[1], PX, PY), what='the flag of a pixel is at its coordinates')
            want = mk('app', ('elem', mk('app', ('fld', 'm_flag_images', sym('task', 'o')), 'o'), getter(prop_('DetectionFrameInfo'), 'getHduIndex', sort='i')), 'o')
            ck.ok(True if im[0].a[1] is want else None, 'flags', f, 'the flag image of the detection frame: %s' % show(im[0].a[1]))


def made_apertures(F):
    def h(it, n, st):
        c, _ = first_targ(n.get('ta'))
        if short(c or '').endswith('Aperture'):
            av = [it._t(it.val(it.arg(a, m, st), st), st) for a, m in zip(n['args'], n.get('pm', '') + 'v' * 9)]
            return mk('app', ('new:' + NS + short(c),) + tuple(av), 'o')
        return None
    return {'std::make_shared': h}


def apertures(ck, W):
    F = W.F
    APS, USE = sym('apertures', 'o'), sym('use_symmetry', 'b')
    h = dict(pure(MEAS), **made_apertures(F))
    h['drawAperture'] = lambda it, n, st: num(0)
    for f, s, e, pr in one(W, 'AperturePhotometryTask', 'AperturePhotometry', {0: APS, 1: INST, 2: ZP, 3: USE}, h):
        ck.eqv('values', f, e.d['index'], INST, what='stored for its own image')
        ms = [c for c in s.effects if c.kind == 'call' and c.d.get('q') == MEAS]
        if len(ms) != 1 or not ms[0].loops:
            ck.undecided('values', f, '%d flux measurements' % len(ms))
            continue
        m = ms[0]
        x = [y for y in subterms(m.d['argt'][0]) if y.op == 'app' and y.a[0] == 'elem' and not y.a[1] is None and root(s.st, y.a[1]) is APS]
        if len(set(x)) != 1:
            ck.undecided('values', f, 'the diameter of the aperture is not recognised: %s' % show(m.d['argt'][0]))
            continue
        i = x[0].a[2]
        # accessors of the Jacobian are read through its members here
        jac = None
        ap = m.d['argt'][0]
        if not (ap.op == 'app' and ap.a[0] == 'new:' + NS + 'TransformedAperture'):
            ck.ok(None if '#' in show(ap) else False, 'values', f, 'the aperture is transformed by the local Jacobian: %s' % show(ap))
            continue
        j = [y for y in subterms(ap.a[2]) if y.op == 'app' and y.a[0] == 'prop']
        ck.ok(True if j and all(y is prop_('JacobianSource', INST) for y in j) else False if j else None, 'values', f, 'the aperture is transformed by the local Jacobian of the image')
        aperture(ck, f, ap.a[1], None, 'CircularAperture', (scale(x[0], Fraction(1, 2)),))
        measured(ck, W, f, m, lambda a: None, USE)
        r = m.d['ret']
        fl, va = (mk('app', ('fld', k, r), 'r') for k in ('m_flux', 'm_variance'))
        gain = getter(prop_('MeasurementFrameInfo', INST), 'getGain')
        var = ite(gt(gain, num(0)), add(va, div(fl, gain)), va)
        err = app('sqrt', (var,), 'r')
        mag = ite(gt(fl, num(0)), add(scale(app('log10', (fl,), 'r'), Fraction(-5, 2)), ZP), NAN)
        for g, w in zip(('getFluxes', 'getFluxErrors', 'getMags', 'getMagErrors'), (fl, err, mag, scale(div(err, fl), Fraction('1.0857')))):
            try:
                gf, v = W.getter(pr, g)
            except Broken as b:
                ck.undecided('values', f, str(b))
                continue
            o, ps = pushed(s, W.after, v)
            if len(ps) != 1 or not ps[0].loops or ps[0].loops[-1] is not m.loops[-1]:
                ck.undecided('values', f, '%s: %d appends recognised' % (g, len(ps)))
                continue
            magcheck(W, 'values', f, ps[0].d['val'], w, g + ': one per aperture')
    # arrays over images
    MS = sym('measurements', 'o')
    E = mk('app', ('elem', MS, B), 'o')
    arr = Obj(F, 'AutoPhotometryArray', args={0: MS}, general=False, pick=lambda f: 'vector' in f['params'][0]['t'] if f['params'] else False)
    one_ = [f for f in F.funcs.values() if (f.get('cls') or '').endswith('::AutoPhotometry')]
    for g, g1 in (('getFluxes', 'getFlux'), ('getFluxErrors', 'getFluxError'), ('getMags', 'getMag'), ('getMagErrors', 'getMagError'), ('getFlags', 'getFlags')):
        r = arr.call(g)
        want = [summarise(F, f, this=E).ret for f in one_ if f['n'] == g1]
        ps = [p for p in arr.ctor_effects if p.kind == 'push' and root(arr.st, p.d['obj']) is root(r.st, r.ret)]
        if len(ps) != 1 or not want or per_pixel(ps[0]) is None:
            ck.undecided('values', arr.ctor, '%s: %d appends' % (g, len(ps)))
            continue
        val, n, c = per_pixel(ps[0])
        ck.eqv('values', arr.ctor, val, want[0], what='AutoPhotometryArray::%s holds %s of every image' % (g, g1))
        ck.eqv('values', arr.ctor, n, mk('app', ('size', MS), 'i'), what='AutoPhotometryArray::%s: one per image' % g)
    for col, g in (('auto_flux', 'getFluxes'), ('auto_flux_err', 'getFluxErrors'), ('auto_mag', 'getMags'), ('auto_mag_err', 'getMagErrors'), ('auto_flags', 'getFlags')):
        forward(ck, W, col, 'AutoPhotometryArray', g)
    for col, g in (('aperture_flux', 'getFluxes'), ('aperture_flux_err', 'getFluxErrors'), ('aperture_mag', 'getMags'), ('aperture_mag_err', 'getMagErrors'), ('aperture_flags', 'getFlags')):
        forward(ck, W, col, 'AperturePhotometryArray', g)
    for col, cls, g in (('flux_radius', 'FluxRadius', 'getFluxRadius'), ('flux_growth_step', 'GrowthCurveResampled', 'getStepSize'), ('flux_growth', 'GrowthCurveResampled', 'getSamples'), ('vignet', 'VignetArray', 'getVignets'), ('source_flags', 'SourceFlags', 'getSourceFlags')):
        forward(ck, W, col, cls, g)


def forward(ck, W, col, cls, g):
    """the converter shows the accessor, possibly through flags2long"""
    c = W.column(col)
    if c is None:
        return ck.undecided('columns', 'column ' + col, 'no converter is registered under this name')
    pc, lam, n, f = c
    where = c16.at(f, n)
    ks = [x for x in c16.nodes(lam) if x.get('k') == 'call' and x.get('obj') is not None and strip_targs(x.get('q', '')).startswith(NS + cls + '::')]
    others = [x for x in c16.nodes(lam) if x.get('k') == 'call' and x not in ks and x.get('n') not in ('flags2long', 'operator=') and x.get('q', '').startswith(NS)]
    if pc != cls or len(ks) != 1:
        return ck.undecided('columns', where, 'column %s: %d accessors of %s' % (col, len(ks), cls))
    if others:
        return ck.undecided('columns', where, 'column %s: %s' % (col, others[0].get('q')))
    ck.ok(ks[0]['n'] == g, 'columns', where, 'column %s shows %s' % (col, ks[0]['n']))


def rectangle(v, rc, x0, y0, x1, y1):
    """accessors of the rectangle by its corners"""
    if not isinstance(v, T):
        return v
    n = lambda a, b: ite(lt(x1, num(0)), num(0), add(sub(b, a), num(1)))
    m = {getter(rc, 'getWidth', sort='i'): n(x0, x1), getter(rc, 'getHeight', sort='i'): n(y0, y1)}
    for g, c in (('getTopLeft', 'm_min_coord'), ('getBottomRight', 'm_max_coord')):
        m[getter(rc, g, sort='o')] = mk('app', ('fld', c, rc), 'o')
    return subst(v, m)


MEAS = 'SourceXtractor::measureFlux'


def auto(ck, W):
    K, MINR = sym('kron_factor', 'r'), sym('kron_minimum', 'r')
    USE = sym('use_symmetry', 'b')
    sp = prop_('ShapeParameters')
    h = dict(pure(MEAS))
    for f, s, e, pr in one(W, 'AutoPhotometryTask', 'AutoPhotometry', {0: INST, 1: ZP, 2: K, 3: MINR, 4: USE}, h):
        ck.eqv('values', f, e.d['index'], INST, what='stored for its own image')
        ms = [c for c in s.effects if c.kind == 'call' and c.d.get('q') == MEAS]
        if len(ms) != 1:
            ck.undecided('values', f, '%d flux measurements' % len(ms))
            continue
        m = ms[0]
        r = mul(K, getter(prop_('KronRadius'), 'getKronRadius'))
        rad = ite(lt(r, MINR), MINR, r)
        ell = mk('app', ('new:' + NS + 'EllipticalAperture', getter(sp, 'getEllipseCxx'), getter(sp, 'getEllipseCyy'), getter(sp, 'getEllipseCxy'), rad), 'o')
        jac = getter(prop_('JacobianSource', INST), 'asTuple', sort='o')
        measured(ck, W, f, m, lambda a: aperture(ck, f, a, jac, 'EllipticalAperture', ell.a[1:]), USE)
        photo(ck, W, f, pr, m, 'getFlux getFluxError getMag getMagError'.split(), prop_('MeasurementFrameInfo', INST))
    for f, s, e, pr in one(W, 'AutoPhotometryFlagTask', 'AutoPhotometryFlag', {0: K, 1: MINR}, dict(pure(NS + 'computeFlags'))):
        ms = [c for c in s.effects if c.kind == 'call' and c.d.get('q') == NS + 'computeFlags']
        if len(ms) != 1:
            ck.undecided('values', f, '%d flag computations' % len(ms))
            continue
        r = mul(K, getter(prop_('KronRadius'), 'getKronRadius'))
        rad = ite(lt(r, MINR), MINR, r)
        a = ms[0].d['argt']
        aperture(ck, f, a[0], None, 'EllipticalAperture', (getter(sp, 'getEllipseCxx'), getter(sp, 'getEllipseCyy'), getter(sp, 'getEllipseCxy'), rad))
        detection_args(ck, f, a)
        gf, v = W.getter(pr, 'getFlags')
        ck.ok(True if v is ms[0].d['ret'] else None, 'flags', f, 'the flags of the aperture are stored')


def detection_args(ck, f, a):
    im = prop_('DetectionFrameImages')
    want = [CX, CY, COORDS] + [mk('app', ('get:getLockedImage', im, num(k)), 'o') for k in (2, 8, 4)] + [getter(prop_('DetectionFrameInfo'), 'getVarianceThreshold')]
    for x, w, nm in zip(a[1:], want, ('centre x', 'centre y', 'pixels of the source', 'image', 'variance', 'thresholded image', 'variance threshold')):
        same(ck, 'values', f, x, w, nm)


def same(ck, rule, f, got, want, what):
    """identical terms built of properties"""
    if got is want:
        return ck.holds(rule, f, what)
    if is_num(want) and isinstance(got, T) and is_num(got):
        return ck.eqv(rule, f, got, want, what=what)
    known = isinstance(got, T) and not any(x.op == 'sym' and '#' in str(x.a[0]) or x.op == 'app' and str(x.a[0]).startswith('call:') for x in subterms(got))
    ck.ok(False if known else None, rule, f, '%s: %s instead of %s' % (what, show(got) if isinstance(got, T) else got, show(want)))


def aperture(ck, f, a, jac, cls, args):
    if jac is not None:
        if not (a.op == 'app' and a.a[0] == 'new:' + NS + 'TransformedAperture' and len(a.a) == 3):
            return ck.undecided('values', f, 'aperture %s' % show(a))
        same(ck, 'values', f, a.a[2], jac, 'the aperture is transformed by the local Jacobian of the image')
        a = a.a[1]
    if not (a.op == 'app' and a.a[0] == 'new:' + NS + cls and len(a.a) == len(args) + 1):
        return ck.undecided('values', f, 'aperture %s' % show(a))
    for k, (x, w) in enumerate(zip(a.a[1:], args)):
        ck.eqv('values', f, x, w, what='%s: parameter %d' % (cls, k + 1))


def measured(ck, W, f, m, ap, USE):
    a = m.d['argt']
    ap(a[0])
    im = prop_('MeasurementFrameImages', INST)
    pc = prop_('MeasurementFramePixelCentroid', INST)
    want = [getter(pc, 'getCentroidX'), getter(pc, 'getCentroidY'), mk('app', ('get:getLockedImage', im, num(2)), 'o'), mk('app', ('get:getLockedImage', im, num(8)), 'o'),
            getter(prop_('MeasurementFrameInfo', INST), 'getVarianceThreshold'), USE]
    for x, w, nm in zip(a[1:], want, ('centre x', 'centre y', 'background-subtracted image', 'variance', 'variance threshold', 'use of symmetry')):
        same(ck, 'values', f, x, w, nm)


def photo(ck, W, f, pr, m, names, info):
    r = m.d['ret']
    fl, va = (mk('app', ('fld', k, r), 'r') for k in ('m_flux', 'm_variance'))
    gain = getter(info, 'getGain')
    var = ite(gt(gain, num(0)), add(va, div(fl, gain)), va)
    photometry(W, pr, f, fl, var, None, names)


def run(ck):
    ck.rule('values', 'a stored measurement, read through its accessor, is the documented function of the pixels')
    ck.rule('moments', 'centroid moments, ellipse and its error follow from the intensity (variance) weighted moments about the centroid')
    ck.rule('extent', 'extents and peak are smallest, largest and highest over exactly the pixels of the source')
    ck.rule('flags', 'flag measurements are raised under exactly their documented condition')
    ck.rule('columns', 'a column shows the quantity of its name in its units')
    F = ck.F = Facts(tus(*TUS))
    if F.errors:
        ck.undecided('values', 'SEImplementation', '%d compile errors' % F.errors)
    W = World(ck, F)
    for fn in (centroid, extent, peak, isophotal, moments, errors, counts, pixelvalues, simple, flagtasks, external, flag_task, auto, apertures):
        ck.section(fn, ck, W)
    return 20
