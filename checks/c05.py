"""C05: model wrappers - evaluation, region test and sampling use one and the same coordinate map."""
from sx.util import *

MC = 'ModelFitting::ModelComponent::'
BP = 'ModelFitting::BasicParameter::getValue'
H = pure(MC + 'getValue', MC + 'insideSharpRegion', MC + 'getSharpSampling', BP, 'ModelFitting::BasicParameter::addObserver', 'ModelFitting::BasicParameter::removeObserver')


def run(ck):
    ck.rule('eval', 'getValue(x, y) has the value number of (area factor) * inner.getValue(inverse map of (x, y))')
    ck.rule('region', 'insideSharpRegion(x, y) asks the inner component at the same inner point')
    ck.rule('samples', 'each sharp sample of the inner component is stored back at the forward image of its position with the documented flux factor')
    ck.rule('roundtrip', 'the map applied to evaluation points is the inverse of the map applied to samples (identity of value numbers)')
    ck.rule('raster-info', 'updateRasterizationInfo forwards both hints divided by the smaller axis scale')
    ck.rule('radial', 'a circularly symmetric component evaluates its profile and its region test at the Euclidean radius')
    F = ck.F = Facts(tus('ModelFitting/src/lib/Models/*.cpp') + [VERIF + '/drivers/models.cpp'])
    x, y = sym('x', 'r'), sym('y', 'r')
    comp = sym('component', 'o')
    # ---- scaled
    sx, sy = papp(BP, sym('x_scale', 'o')), papp(BP, sym('y_scale', 'o'))
    ck.section(wrapper, ck, F, 'ScaledModelComponent', {0: comp, 1: sym('x_scale', 'o'), 2: sym('y_scale', 'o')}, (div(x, sx), div(y, sy)), num(1), lambda a, b, f: (mul(a, sx), mul(b, sy), mul(f, mul(sx, sy))), tmin(sx, sy), [gt(sx, num(0)), gt(sy, num(0))])
    # ---- rotated
    r = papp(BP, sym('rotation_angle', 'o'))
    c, s = app('cos', (r,), 'r'), app('sin', (r,), 'r')
    ck.section(wrapper, ck, F, 'RotatedModelComponent', {0: comp, 1: sym('rotation_angle', 'o')}, (sub(mul(x, c), mul(y, s)), add(mul(x, s), mul(y, c))), num(1), lambda a, b, f: (add(mul(a, c), mul(b, s)), sub(mul(b, c), mul(a, s)), f), num(1), [eq(add(mul(c, c), mul(s, s)), num(1))])
    # ---- transformed
    t = [sym('t%d' % i, 'r') for i in range(4)]
    det = sub(mul(t[0], t[3]), mul(t[1], t[2]))
    ix = div(sub(mul(x, t[3]), mul(y, t[2])), det)
    iy = div(sub(mul(y, t[0]), mul(x, t[1])), det)
    ax = app('sqrt', (add(mul(t[0], t[0]), mul(t[1], t[1])),), 'r')
    ay = app('sqrt', (add(mul(t[2], t[2]), mul(t[3], t[3])),), 'r')
    ck.section(wrapper, ck, F, 'TransformModelComponent', {0: comp, 1: Tup(t)}, (ix, iy), div(num(1), tabs(det)), lambda a, b, f: (add(mul(a, t[0]), mul(b, t[2])), add(mul(a, t[1]), mul(b, t[3])), f), tmin(ax, ay), [bnot(eq(det, num(0)))])
    ck.section(radial, ck, F, x, y)
    return 12


def wrapper(ck, F, cls, args, inner, area, fwd, minscale, facts):
    x, y = sym('x', 'r'), sym('y', 'r')
    comp = args[0]
    o = Obj(F, cls, args, pick=lambda f: len(f['params']) == len(args), handlers=H)
    if not o.ok:
        raise Broken('constructor of %s not found' % cls)
    f = o.method('getValue', 2)
    s = o.call('getValue', {0: x, 1: y})
    want = mul(area, papp(MC + 'getValue', comp, *inner))
    cmp_opaque(ck, 'eval', f, s.ret, want, facts, cls + '::getValue')
    g = o.method('insideSharpRegion', 2)
    s2 = o.call('insideSharpRegion', {0: x, 1: y})
    cmp_opaque(ck, 'region', g, s2.ret, papp(MC + 'insideSharpRegion', comp, *inner, sort='b'), facts, cls + '::insideSharpRegion')
    # ---- samples
    h = o.method('getSharpSampling', 0)
    s3 = o.call('getSharpSampling')
    src = papp(MC + 'getSharpSampling', comp, sort='o')
    got = sample_map(s3, src)
    if got is None:
        ck.undecided('samples', h, cls + ': the returned samples are not a pointwise image of the inner samples')
    else:
        i, vals, where = got
        e = mk('app', ('elem', src, i), 'o')
        a, b, fl = (mk('app', ('fld', '#%d' % k, e), 'r') for k in range(3))
        w = fwd(a, b, fl)
        for k, nm in enumerate(('x', 'y', 'flux')):
            ck.eqv('samples', h, vals[k], w[k], facts, what='%s sample %s' % (cls, nm))
        # round trip, from the extracted maps only
        ic = [e_ for e_ in calls(s, 'ModelComponent::getValue')]
        if len(ic) == 1 and len(ic[0].d['argt']) == 2:
            for k, nm in enumerate((a, b)):
                v = subst(ic[0].d['argt'][k], {x: vals[0], y: vals[1]})
                ck.eqv('roundtrip', f, v, nm, facts, what=cls + ' inverse(forward(p)) = p')
    # ---- raster info
    u = o.method('updateRasterizationInfo', 2)
    sc, rm = sym('scale', 'r'), sym('r_max', 'r')
    s4 = o.call('updateRasterizationInfo', {0: sc, 1: rm})
    cs = calls(s4, 'ModelComponent::updateRasterizationInfo')
    cs = [e_ for e_ in cs if e_.d['obj'] is comp]
    if len(cs) != 1:
        ck.fail('raster-info', u, '%s forwards the rasterisation hints %d times to its component' % (cls, len(cs))) if not cs else ck.undecided('raster-info', u, 'forwarded on %d sites' % len(cs))
    else:
        for got_, w in zip(cs[0].d['argt'], (sc, rm)):
            ck.eqv('raster-info', u, got_, div(w, minscale), facts, what=cls + ' raster hint')
        if cs[0].pc:
            ck.undecided('raster-info', u, 'forwarded only under %s' % [show(p) for p in cs[0].pc])


def cmp_opaque(ck, rule, f, got, want, facts, what):
    """compare factor and arguments of the single inner call"""
    if not isinstance(got, T):
        return ck.undecided(rule, f, what + ': no value')
    head = [t for t in subterms(want) if t.op == 'app' and str(t.a[0]).startswith('call:' + MC)][0]
    gh = [t for t in subterms(got) if t.op == 'app' and t.a[0] == head.a[0]]
    if len(gh) == 0:
        if lost(got):
            return ck.undecided(rule, f, what)
        return ck.fail(rule, f, '%s does not consult the inner component: %s' % (what, show(got)))
    z = sym('inner', head.sort)
    if len(gh) == 1:
        g = gh[0]
        if g.a[1] is not head.a[1]:
            return ck.undecided(rule, f, '%s: receiver %s' % (what, show(g.a[1])))
        for k in (2, 3):
            ck.eqv(rule, f, g.a[k], head.a[k], facts, what='%s inner %s' % (what, 'xy'[k - 2]))
        ck.eqv(rule, f, subst(got, {g: z}), subst(want, {head: z}), facts, what=what + ' factor')
    else:
        ck.undecided(rule, f, what + ': several inner evaluations')


def lost(t):
    from sx.report import lost as l
    return l(t)


def sample_map(s, src):
    """(counter, (x, y, flux) values, where) of a loop storing transformed samples; covers in-place updates and rebuilt vectors"""
    st = [e for e in s.effects if e.kind == 'store' and e.d['lv'][0] == 'fld' and isinstance(e.d['lv'][1], T) and e.d['lv'][1].op == 'app' and e.d['lv'][1].a[0] == 'elem' and e.d['lv'][1].a[1] is src]
    if st:
        ids = {e.d['lv'][1] for e in st}
        if len(ids) != 1:
            return None
        el = ids.pop()
        i = el.a[2]
        if not whole(st[0], i, src, True):
            return None
        facts = set(st[0].loops[-1].facts)
        vals = [mk('app', ('fld', '#%d' % k, el), 'r') for k in range(3)]
        for e in st:
            n = e.d['lv'][2]
            if n not in ('#0', '#1', '#2') or not isinstance(e.d['val'], T):
                return None
            vals[int(n[1])] = ite(band(*[p for p in e.pc if p not in facts]), e.d['val'], vals[int(n[1])])
        return i, vals, st[0]
    ps = [e for e in s.effects if e.kind == 'push']
    if len(ps) == 1:
        e = ps[0]
        vs = e.d['vals']
        if len(vs) == 1 and isinstance(vs[0], Tup):
            vs = vs[0].vals
        if len(vs) == 1 and isinstance(vs[0], T) and vs[0].sort == 'o':
            vs = [s.it.hread(s.st, vs[0], '#%d' % k, 'double') for k in range(3)]
        if len(vs) == 3 and all(isinstance(v, T) for v in vs):
            x = loop_subst(e)
            if x and whole(e, x[0], src):
                return x[0], vs, e
    return None


def whole(e, i, src, cond_ok=False):
    """effect e runs once for every sample of src (unconditionally inside its loop)"""
    if not e.loops or not isinstance(e.loops[-1], Loop):
        return False
    L = e.loops[-1]
    lo, hi = trange(L, i) if any(v[0] is i for v in L.vars) or i in L.ranges else (None, None)
    if lo is None or const(lo) != 0 or hi is None:
        return False
    sz = mk('app', ('size', src), 'i')
    return hi is sz and (cond_ok or all(p in L.facts or p is TRUE for p in e.pc))


def radial(ck, F, x, y):
    rad = app('sqrt', (add(mul(x, x), mul(y, y)),), 'r')
    insts = [f for f in F.funcs.values() if f['n'] == 'getValue' and strip_targs(f.get('cls') or '').endswith('CircularlySymmetricModelComponent') and not f.get('dep')]
    for f in insts:
        s = summarise(F, f, {0: x, 1: y}, opaque={'operator()'})
        cs = [e for e in s.effects if e.kind == 'call' and e.d.get('n') == 'operator()']
        if len(cs) == 1 and cs[0].d['argt']:
            ck.eqv('radial', f, cs[0].d['argt'][0], rad, what='profile radius')
            ck.eqv('radial', f, s.ret, cs[0].d['ret'], what='profile value')
        else:
            ck.undecided('radial', f, 'profile evaluated %d times' % len(cs))
    for f in [g for g in F.funcs.values() if g['n'] == 'insideSharpRegion' and strip_targs(g.get('cls') or '').endswith('CircularlySymmetricModelComponent') and not g.get('dep')]:
        s = summarise(F, f, {0: x, 1: y})
        cs = calls(s, 'SharpRegionManager::insideSharpRegion')
        if len(cs) == 1:
            ck.eqv('radial', f, cs[0].d['argt'][0], rad, what='region radius')
            ck.eqv('radial', f, s.ret, cs[0].d['ret'], what='region verdict')
        else:
            ck.undecided('radial', f, 'region asked %d times' % len(cs))
