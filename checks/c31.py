"""C31: radial profiles, sharp sampling and rasterisation of extended models."""
from sx.images import *
from sx.folds import unfold
from sx.report import lost, foreign
from checks.c29 import xyt, solve2, pixel_terms, content, written, W, H, inrect
from checks import c29
import math
import re

M = 'ModelFitting/src/lib/Models/'
IMP = 'ModelFitting/ModelFitting/Models/_impl/'
VI = 'std::shared_ptr<SourceXtractor::VectorImage<float>>'
ONE, HALF = num(1), num(Fraction(1, 2))
X, Y, R = sym('x', 'r'), sym('y', 'r'), sym('r', 'r')
THIS = sym('this', 'o')
PI = num(Fraction('3.141592653589793'))  # the double nearest to pi


def P(n, o=THIS):
    return mk('app', ('value', n), 'r')


def getvalue(it, n, st):
    """value of a parameter: named after the member that holds it"""
    o = it.objval(n['obj'], st) if n.get('obj') is not None else None
    if isinstance(o, T) and o.op == 'app' and o.a[0] == 'fld' and isinstance(o.a[1], str):
        return mk('app', ('value', o.a[1]), 'r')
    return None


def rec(k, sort=None):
    def h(it, n, st):
        o = n.get('obj')
        v = ([it.objval(o, st)] if o is not None else []) + [it.val(it.ev(q, st), st) for q in n['args']]
        v = [it._t(x, st) for x in v]
        it.effect(k, st, n, args=v)
        return mk('app', (k,) + tuple(v), sort or sort_of(n.get('t', '') or 'double'))
    return h


def sincos(it, n, st):
    a = it._t(it.val(it.ev(n['args'][0], st), st), st)
    for k, x in (('sin', n['args'][1]), ('cos', n['args'][2])):
        r = it.ev(x, st)
        if not isinstance(r, Ref):
            return None
        it.wr(st, r.lv, app(k, (a,), 'r'), n)
    return num(0)


GV = {'ModelFitting::BasicParameter::getValue': getvalue, 'getValue': getvalue, 'sincos': sincos}
_ck = [None]


def summ(F, f, **k):
    k.setdefault('this', THIS)
    k.setdefault('st', State())
    s = summarise(F, f, **k)
    _ck[0].exact = s.it.exact
    return s


def body(F, q, pick=None):
    fs = [f for f in F.fn(q) if f.get('body') and 'type-parameter' not in f['q'] + ''.join(p['t'] for p in f['params']) and (pick is None or pick(f))]
    return fs[0] if fs else None


def run(ck):
    _ck[0] = ck
    ck.rule('profile', 'a profile evaluates the documented formula of its own parameters')
    ck.rule('symmetric', 'a circularly symmetric component evaluates its profile at the distance from the centre, and asks its region manager about that distance')
    ck.rule('sampling', 'sharp sampling covers the sharp region with consecutive rings; each ring holds equally spaced samples at its middle radius that add up to the profile there times the area of the ring')
    ck.rule('manager', 'a region manager reports distances below one radius as sharp, and every next radius is larger and has at least one sample')
    ck.rule('raster', 'a raster adds each sharp sample to the pixel that contains it and sets each pixel outside the sharp region to value times area')
    ck.rule('compact', 'compact models evaluate their profile at the transformed position and are normalised to their flux')
    F = ck.F = Facts([M + x + '.cpp' for x in ('AutoSharp', 'OldSharp', 'OnlySmooth', 'SersicProfile', 'FlattenedMoffatComponent')] + [VERIF + '/drivers/profiles.cpp'])
    if F.errors:
        ck.undecided('raster', IMP, '%d parse errors' % F.errors)
    for g in (sersic, moffat, symmetric, sampling, old_sharp, auto_sharp, only_smooth, raster_sharp, raster_smooth, rasterized, evaluators, compact_base, compact_models):
        ck.exact = set()
        ck.section(g, ck, F)
    ck.assumptions = ['first radii, steps and sampling factors of region managers are positive and growth factors exceed one', 'real arithmetic for floating point']
    return 10


# ---------------------------------------------------------------- profiles
def ctor_params(ck, F, cls, names, rule='profile'):
    """constructors keep each argument in the member of its name; copies copy each member"""
    for f in F.methods(cls):
        if f.get('fk') not in ('ctor', 'copyctor') or not f.get('body'):
            continue
        st = State()
        s = summ(F, f, st=st)
        for n, t in [(p['n'], p['t']) for p in f['params']]:
            if 'm_' + n in names:
                v = s.st.heap.get((THIS, 'm_' + n))
                if v is None:
                    ck.undecided(rule, f, 'member m_%s' % n)
                else:
                    ck.ok(v is sym(n, 'o') or (isinstance(v, T) and show(v) == n) or (None if not isinstance(v, T) or lost(v) else False), rule, f, 'member m_%s is initialised from %s' % (n, show(v)[:60] if isinstance(v, T) else v))
        if len(f['params']) == 1 and cls.split('::')[-1] in f['params'][0]['t']:
            o = f['params'][0]['n']
            for n in names:
                v = s.st.heap.get((THIS, n))
                want = 'fld(%s, %s)' % (n, o)
                ck.ok(None if not isinstance(v, T) else (show(v) == want or (None if lost(v) else False)), rule, f, 'a copy takes %s from %s' % (n, show(v)[:60] if isinstance(v, T) else v))


def sersic(ck, F):
    f = body(F, 'ModelFitting::SersicProfile::operator()')
    s = summ(F, f, args={0: R}, handlers=GV)
    ck.eqv('profile', f, s.ret, mul(P('m_i0'), app('exp', (neg(mul(P('m_k'), app('pow', (R, div(ONE, P('m_n'))), 'r'))),), 'r')), facts=[gt(P('m_n'), num(0)), ge(R, num(0))], what='Sersic profile')
    ctor_params(ck, F, 'ModelFitting::SersicProfile', ('m_i0', 'm_n', 'm_k'))


def moffat(ck, F):
    c = 'ModelFitting::FlattenedMoffatComponent::'
    f = body(F, c + 'getValue')
    s = summ(F, f, args={0: X, 1: Y}, handlers=GV)
    p = P('m_minkowski_distance_param')
    ab = lambda t: ite(lt(t, num(0)), neg(t), t)
    d = app('pow', (add(app('pow', (ab(X), p), 'r'), app('pow', (ab(Y), p), 'r')), div(ONE, p)), 'r')
    z = sub(d, P('m_flat_top_offset'))
    want = ite(lt(z, num(0)), P('m_max_intensity'), mul(P('m_max_intensity'), app('pow', (add(ONE, mul(z, z)), neg(P('m_moffat_index'))), 'r')))
    ck.eqv('profile', f, s.ret, want, facts=[gt(p, num(0))], what='flattened Moffat profile')
    f = body(F, c + 'insideSharpRegion')
    s = summ(F, f)
    ck.eqv('manager', f, s.ret, FALSE, what='the Moffat component has no sharp region')
    f = body(F, c + 'getSharpSampling')
    s = summ(F, f)
    ck.ok(not [e for e in s.effects if e.kind in ('push', 'store')], 'sampling', f, 'the Moffat component has no sharp samples')
    ctor_params(ck, F, 'ModelFitting::FlattenedMoffatComponent', ('m_max_intensity', 'm_moffat_index', 'm_minkowski_distance_param', 'm_flat_top_offset'))


CS = 'ModelFitting::CircularlySymmetricModelComponent<ModelFitting::SersicProfile>::'


def symmetric(ck, F):
    hh = {'ModelFitting::SersicProfile::operator()': rec('profile', 'r'), 'insideSharpRegion': rec('inside', 'b'), 'updateRasterizationInfo': rec('update', 'i')}
    d = app('sqrt', (add(mul(X, X), mul(Y, Y)),), 'r')
    f = body(F, CS + 'getValue')
    s = summ(F, f, args={0: X, 1: Y}, handlers=hh)
    v = s.ret
    if isinstance(v, T) and v.op == 'app' and v.a[0] == 'profile':
        ck.eqv('symmetric', f, v.a[-1], d, what='distance at which the profile is evaluated')
    else:
        ck.eqv('symmetric', f, v, mk('app', ('profile', sym('m_profile', 'o'), d), 'r'), what='value')
    f = body(F, CS + 'insideSharpRegion')
    s = summ(F, f, args={0: X, 1: Y}, handlers={'ModelFitting::SharpRegionManager::insideSharpRegion': rec('inside', 'b')})
    v = s.ret
    if isinstance(v, T) and v.op == 'app' and v.a[0] == 'inside':
        ck.eqv('symmetric', f, v.a[-1], d, what='distance the region manager is asked about')
    else:
        ck.undecided('symmetric', f, 'sharp region ' + show(v)[:120])
    f = body(F, CS + 'updateRasterizationInfo')
    a, b = sym('scale', 'r'), sym('r_max', 'r')
    s = summ(F, f, args={0: a, 1: b}, handlers={'ModelFitting::SharpRegionManager::updateRasterizationInfo': rec('update', 'i')})
    us = [e for e in s.effects if e.kind == 'update']
    if len(us) != 1:
        return ck.undecided('symmetric', f, '%d updates of the region manager' % len(us))
    v = us[0].d['args'][1:]
    ck.eqv('symmetric', f, v[0], a, what='scale handed to the region manager')
    ck.eqv('symmetric', f, v[1], b, what='largest radius handed to the region manager')


# ---------------------------------------------------------------- sharp sampling
def sampling(ck, F):
    f = body(F, CS + 'getSharpSampling')
    hh = {'ModelFitting::SersicProfile::operator()': rec('profile', 'r'), 'ModelFitting::SharpRegionManager::insideSharpRegion': rec('inside', 'b'), 'ModelFitting::SharpRegionManager::nextRadiusAndAngleNo': rec('next', 'o')}
    s = summ(F, f, handlers=hh)
    ps = [e for e in s.effects if e.kind == 'push']
    nx = [e for e in s.effects if e.kind == 'next']
    if len(ps) != 1 or len(nx) != 1 or len(ps[0].loops) != 2:
        return ck.undecided('sampling', f, '%d sample statements, %d rings' % (len(ps), len(nx)))
    e, N = ps[0], nx[0]
    vals = e.d.get('vals') or []
    if len(vals) == 1 and isinstance(vals[0], Tup):
        vals = list(vals[0].items) if hasattr(vals[0], 'items') and not callable(vals[0].items) else vals
    if len(vals) != 3:
        return ck.undecided('sampling', f, 'a sample has %d members' % len(vals))
    x, y, fl = vals
    ring = mk('app', ('next',) + tuple(N.d['args']), 'o')
    r1 = N.d['args'][-1]
    flds = {t for v in vals + list(e.pc) for t in subterms(v) if t.op == 'app' and t.a[0] == 'fld' and t.a[2] is ring}
    r2 = [t for t in flds if str(t.a[1]).strip("'") in ('#0', 'first')]
    n = [t for t in flds if str(t.a[1]).strip("'") in ('#1', 'second')]
    if len(r2) != 1 or len(n) != 1:
        return ck.undecided('sampling', f, 'outer radius and number of samples of a ring')
    r2, n = r2[0], n[0]
    facts = [ge(r1, num(0)), gt(r2, r1), ge(n, ONE)]
    # ring sequence
    L = e.loops[0]
    st_ = L.step.get(r1)
    if st_ is None:
        return ck.undecided('sampling', f, 'inner radius of a ring: ' + show(r1)[:80])
    ck.eqv('sampling', f, st_[0], num(0), what='the first ring starts at the centre')
    ck.eqv('sampling', f, st_[1], r2, exact={r1}, what='each ring starts where the previous one ended')
    ins = [q for q in s.effects if q.kind == 'inside' and q.loops]
    if len(ins) == 1 and len(e.pc):
        q = ins[0].d['args'][-1]
        sq = L.step.get(q)
        if q is r1:
            ck.holds('sampling', f, 'rings continue while their inner radius is sharp')
        elif sq is not None:
            ck.eqv('sampling', f, sq[0], num(0), what='the first ring is inside the sharp region')
            ck.eqv('sampling', f, sq[1], r2, exact={r1}, what='rings continue while their inner radius is sharp')
        else:
            ck.undecided('sampling', f, 'condition of the ring loop')
        if not any(t.op == 'app' and t.a[0] == 'inside' for p in e.pc for t in subterms(p)):
            ck.fail('sampling', f, 'rings outside the sharp region are sampled')
    else:
        ck.undecided('sampling', f, 'condition of the ring loop')
    mid = scale(add(r1, r2), Fraction(1, 2))
    prof = {t for t in subterms(fl) if t.op == 'app' and t.a[0] == 'profile'}
    if len(prof) != 1:
        return ck.undecided('sampling', f, 'flux of a sample: ' + show(fl)[:120])
    pr = prof.pop()
    ex = s.it.exact | {r1}
    ck.eqv('sampling', f, pr.a[-1], mid, exact=ex, what='radius at which a ring is evaluated')
    V = sym('profile', 'r')
    ck.eqv('sampling', f, mul(subst(fl, {pr: V}), n), mul(V, PI, sub(mul(r2, r2), mul(r1, r1))), facts=facts, exact=ex, what='flux of a ring')
    # positions
    tr = {t for v in (x, y) for t in subterms(v) if t.op == 'app' and t.a[0] in ('sin', 'cos')}
    args = {t.a[1] for t in tr}
    if len(args) != 1:
        return ck.undecided('sampling', f, 'angles of a sample: %s' % [show(a)[:60] for a in args])
    a = args.pop()
    C, S = app('cos', (a,), 'r'), app('sin', (a,), 'r')
    c_, s_ = sym('c', 'r'), sym('s', 'r')
    ck.eqv('sampling', f, subst(x, {C: c_, S: s_}), mul(mid, c_), exact=ex, what='x of a sample')
    yy = monos(subst(y, {C: c_, S: s_}))
    sg = -1 if yy and all(k < 0 for k in yy.values()) else 1   # sin(-a) is written as -sin(a)
    ck.eqv('sampling', f, scale(subst(y, {C: c_, S: s_}), sg), mul(mid, s_), exact=ex, what='y of a sample')
    # equal spacing over the full circle
    Li = e.loops[1]
    cnt = [(c, v0, k) for c, v0, k in Li.vars if c in subterms(a)]
    if len(cnt) != 1 or cnt[0][2] not in (1, -1):
        return ck.undecided('sampling', f, 'angle ' + show(a)[:120])
    c, v0, k = cnt[0]
    ck.eqv('sampling', f, mul(deriv(a, c), n, num(k * sg)), scale(PI, 2), facts=facts, exact=ex | {c}, what='angle between samples')
    own = [p for p in e.pc if c in subterms(p)]
    lo, hi = (v0, add(v0, n)) if k == 1 else (sub(v0, sub(n, ONE)), add(v0, ONE))
    ex |= {c} | set(subterms(v0))     # the obligation is about the offset from the start value
    ck.entail('sampling', f, facts + [ge(c, lo), lt(c, hi)], band(*own), exact=ex | {c}, what='every sample of a ring is taken')
    end = hi if k == 1 else sub(lo, ONE)
    g = subst(band(*own), {c: end})
    ck.entail('sampling', f, facts, bnot(g), exact=ex | {c}, what='no further sample is taken')


# ---------------------------------------------------------------- region managers
def parts(s):
    r = s.ret
    if isinstance(r, Tup):
        return list(r.items)
    if isinstance(r, T):
        o = []
        for names in (('first', '#0'), ('second', '#1')):
            v = [s.st.heap[(r, n)] for n in names if (r, n) in s.st.heap]
            if not v:
                return None
            o.append(v[0])
        return o
    return None


def manager(ck, F, cls, facts, uv):
    f = body(F, 'ModelFitting::%s::insideSharpRegion' % cls)
    s = summ(F, f, args={0: R})
    fl = {t for t in subterms(s.ret) if t.op == 'app' and t.a[0] == 'fld'}
    ck.eqv('manager', f, s.ret, lt(R, mk('app', ('fld', 'm_r_sharp', THIS), 'r')), what=cls + ': sharp exactly below the sharp radius')
    f = body(F, 'ModelFitting::%s::nextRadiusAndAngleNo' % cls)
    s = summ(F, f, args={0: R})
    p = parts(s)
    if p is None:
        return ck.undecided('manager', f, cls + ': no pair')
    nr, an = p
    fx = facts + [ge(R, num(0))]
    nonlinear(ck, f, facts, gt(nr, R), cls + ': the next radius is larger')
    nonlinear(ck, f, facts, ge(an, ONE), cls + ': every ring has at least one sample')
    return f, nr, an


def nonlinear(ck, f, facts, goal, what, zero=True):
    """the obligation at the centre, and at positive radii with the growth factor written as 1 + g"""
    if zero:
        z = {R: num(0)}
        ck.entail('manager', f, [subst(q, z) for q in facts], subst(goal, z), what=what + ' (at the centre)')
    g = sym('growth', 'r')
    m = {fld_('m_log_incr'): add(ONE, g)}
    fs = [subst(q, m) for q in facts] + [gt(R, num(0)), gt(g, num(0)), gt(mul(g, R), num(0)), gt(mul(R, div(ONE, fld_('m_max_step'))), num(0))]
    ck.entail('manager', f, fs, subst(goal, m), what=what)


def fld_(n):
    return mk('app', ('fld', n, THIS), 'r')


def old_sharp(ck, F):
    facts = [gt(fld_('m_log_incr'), ONE), gt(fld_('m_first_r'), num(0))]
    r = manager(ck, F, 'OldSharp', facts, None)
    if r:
        f, nr, an = r
        ck.eqv('manager', f, nr, ite(gt(R, num(0)), mul(R, fld_('m_log_incr')), fld_('m_first_r')), facts=facts + [ge(R, num(0))], what='OldSharp: radii grow by the factor')
        ck.eqv('manager', f, an, num(72), what='OldSharp: 72 samples per ring')
    f = body(F, 'ModelFitting::OldSharp::updateRasterizationInfo')
    sc = sym('scale', 'r')
    s = summ(F, f, args={0: sc})
    v = s.st.heap.get((THIS, 'm_r_sharp'))
    ck.eqv('manager', f, v, mul(fld_('m_r_sharp_pix'), sc), what='OldSharp: sharp radius in pixels')


def auto_sharp(ck, F):
    f = body(F, 'ModelFitting::AutoSharp::updateRasterizationInfo')
    sc, rm = sym('scale', 'r'), sym('r_max', 'r')
    s = summ(F, f, args={0: sc, 1: rm})
    facts = [gt(sc, num(0)), gt(rm, num(0)), gt(fld_('m_min_sampling_factor'), num(0))]
    H_ = s.st.heap
    rs, ms, fp = [H_.get((THIS, n)) for n in ('m_r_sharp', 'm_max_step', 'm_first_pix_r')]
    if isinstance(rs, T):
        ph = [t for t in subterms(rs) if t.op == 'sym' and '#' in str(t.a[0])]
        ck.entail('manager', f, facts, ge(rs, scale(sc, 4)), exact=set(ph), what='AutoSharp: at least four pixels are sharp')
        ck.entail('manager', f, facts, bor(le(rs, rm), le(rs, scale(sc, 4))), exact=set(ph), what='AutoSharp: the sharp region does not exceed the largest radius')
    else:
        ck.undecided('manager', f, 'sharp radius')
    ck.eqv('manager', f, ms, div(sc, fld_('m_min_sampling_factor')), facts=facts, what='AutoSharp: largest step')
    # criterion
    ap = [e for e in s.effects if e.kind == 'call' and e.d.get('q') == 'apply' and e.loops]
    pts = [e.d['args'][0] for e in ap if e.d['args']]
    if len(pts) == 3:
        r0 = [t for t in subterms(pts[0]) if t.op == 'sym' and '#' in str(t.a[0])]
        if len(r0) == 1:
            r0 = r0[0]
            got = sorted((const(sub(subst(p, {r0: num(0), sc: num(2)}), num(0))) for p in pts), key=lambda z: (z is None, z))
            ck.ok(True if got == [0, 1, 2] else None if None in got else False, 'manager', f, 'AutoSharp: the profile is compared at a radius, half a pixel and a pixel further out (in half pixels: %s)' % [str(g) for g in got])
            L0 = [L for L in s.it.all_loops if any(z is r0 for z, _, _ in L.vars) or r0 in L.step]
            if len(L0) == 1:
                v0 = [(b, k) for z, b, k in L0[0].vars if z is r0]
                step = L0[0].step.get(r0)
                nx = step[1] if step else None
                if nx is None:
                    w = [e.d['val'] for e in s.effects if e.kind == 'store' and e.loops and e.d['lv'][:1] == ('fld',) and e.d['lv'][2] == 'm_r_sharp']
                    nx = w[0] if len(w) == 1 else None
                ck.eqv('manager', f, (v0[0][0] if v0 else step[0] if step else None), num(0), what='AutoSharp: the test starts at the centre')
                ck.eqv('manager', f, nx, add(r0, sc), exact={r0}, what='AutoSharp: the test proceeds one pixel at a time')
                E = [z for z, _, _ in L0[0].vars if z is not r0] + [z for z in L0[0].step if z is not r0]
                E = list(dict.fromkeys(E))
                if len(E) == 1:
                    pcs = [band(*e.pc) for e in ap]
                    tol = fld_('m_tolerance')
                    ck.eqv('manager', f, to_num(pcs[0]), to_num(band(lt(r0, rm), ge(E[0], tol))), exact={r0, E[0]}, what='AutoSharp: the test proceeds while the error is above the tolerance and the radius below the largest one')
            er = [(x, v) for L in s.it.all_loops for x, v in L.step.items() if x is not r0 and any(t.op == 'app' and t.a[0] == 'apply' for t in subterms(v[1]))]
            if len(er) == 1:
                v = er[0][1][1]
                env = {}
                for e in ap:
                    k = const(subst(e.d['args'][0], {r0: num(0), sc: num(2)}))
                    env[e.d['ret']] = sym('v%s' % k, 'r')
                a, b, c = sym('v0', 'r'), sym('v1', 'r'), sym('v2', 'r')
                q = div(sub(b, scale(add(a, c), Fraction(1, 2))), b)
                ck.eqv('manager', f, subst(v, env), ite(lt(q, num(0)), neg(q), q), facts=[gt(b, num(0)), gt(a, num(0)), gt(c, num(0))], exact=set(), what='AutoSharp: relative error of the linear interpolation')
            else:
                ck.undecided('manager', f, 'error criterion')
        else:
            ck.undecided('manager', f, 'radii of the criterion')
    else:
        ck.undecided('manager', f, '%d profile values in the criterion' % len(pts))
    facts = [gt(fld_('m_log_incr'), ONE), gt(fld_('m_first_r'), num(0)), gt(fld_('m_max_step'), num(0)), gt(fld_('m_first_pix_r'), num(0))]
    r = manager(ck, F, 'AutoSharp', facts, None)
    if r:
        f, nr, an = r
        fx = facts + [gt(R, num(0))]
        ck.entail('manager', f, fx, le(nr, add(R, fld_('m_max_step'))), what='AutoSharp: radial steps are bounded')
        ck.entail('manager', f, fx, le(nr, mul(R, fld_('m_log_incr'))), what='AutoSharp: radii grow at most by the factor')
        nonlinear(ck, f, facts + [gt(nr, fld_('m_first_pix_r'))], ge(an, div(scale(mul(PI, R), 2), fld_('m_max_step'))), 'AutoSharp: samples of a ring are at most one step apart', zero=False)


def only_smooth(ck, F):
    f = body(F, 'ModelFitting::OnlySmooth::insideSharpRegion')
    s = summ(F, f)
    ck.eqv('manager', f, s.ret, FALSE, what='OnlySmooth: nothing is sharp')


# ---------------------------------------------------------------- rasterisation
IMG = sym('image', 'o')


def raster_sharp(ck, F):
    f = body(F, 'ModelFitting::_impl::addSharp')
    ps = sym('pixel_scale', 'r')
    comp = sym('component', 'o')
    s = summ(F, f, args={0: IMG, 1: ps, 2: comp}, this=None, handlers={**c29.hs(F), 'ModelFitting::ModelComponent::getSharpSampling': rec('samples', 'o')})
    facts = [gt(ps, num(0)), ge(W(IMG), ONE), ge(H(IMG), ONE)]
    for e in s.effects:
        if e.kind == 'at':
            ck.entail('raster', f, facts + list(e.pc), band(*inrect(e.d['x'], e.d['y'], W(IMG), H(IMG))), what='a sharp sample is added inside the raster')
    es = written(s, IMG)
    if len(es) != 1:
        return ck.undecided('raster', f, '%d writes' % len(es))
    e = es[0]
    v, ix = e.d['val'], e.d['lv'][2]
    smp = {t for q in [v, ix] + list(e.pc) for t in subterms(q) if t.op == 'app' and t.a[0] == 'fld' and re.match(r"'?#[012]'?$", str(t.a[1]))}
    el = {t.a[2] for t in smp}
    if len(el) != 1:
        return ck.undecided('raster', f, 'samples %s' % [show(t)[:60] for t in el])
    el = el.pop()
    sx, sy, sv = [mk('app', ('fld', '#%d' % k, el), 'r') for k in range(3)]
    own = [p for p in pixel_terms(v) if p.a[1] is IMG]
    O = sym('pixel', 'r')
    ck.eqv('raster', f, subst(v, {p: O for p in own}), add(O, sv), what='flux of a sharp sample')
    px, py = ix.a[1], ix.a[2]
    wx = add(div(sx, ps), scale(W(IMG), Fraction(1, 2)))
    wy = add(div(sy, ps), scale(H(IMG), Fraction(1, 2)))
    ck.eqv('raster', f, px, app('floor', (wx,), 'i'), facts=facts + list(e.pc), what='column of a sharp sample')
    ck.eqv('raster', f, py, app('floor', (wy,), 'i'), facts=facts + list(e.pc), what='row of a sharp sample')
    rest = [p for p in e.pc if sx in subterms(p) or sy in subterms(p)]
    ck.entail('raster', f, facts + [ge(wx, num(0)), ge(wy, num(0)), lt(wx, W(IMG)), lt(wy, H(IMG))], band(*rest), what='a sharp sample inside the raster is added')


def raster_smooth(ck, F):
    f = body(F, 'ModelFitting::_impl::addSmooth')
    ps = sym('pixel_scale', 'r')
    comp = sym('component', 'o')

    s = summ(F, f, args={0: IMG, 1: ps, 2: comp}, this=None, handlers={**c29.hs(F), 'ModelFitting::ModelComponent::getValue': rec('val', 'r'), 'ModelFitting::ModelComponent::insideSharpRegion': rec('inside', 'b')})
    facts = [gt(ps, num(0)), ge(W(IMG), ONE), ge(H(IMG), ONE)]
    for e in s.effects:
        if e.kind == 'at':
            ck.entail('raster', f, facts + list(e.pc), band(*inrect(e.d['x'], e.d['y'], W(IMG), H(IMG))), what='a smooth value is stored inside the raster')
    c = content(s, IMG, c29.I, c29.J)
    if c is None:
        return ck.undecided('raster', f, 'values of smooth pixels')
    g, v, e = c
    cx = mul(ps, sub(c29.I, scale(sub(W(IMG), ONE), Fraction(1, 2))))
    cy = mul(ps, sub(c29.J, scale(sub(H(IMG), ONE), Fraction(1, 2))))
    vs = {t for t in subterms(v) if t.op == 'app' and t.a[0] == 'val'}
    if len(vs) != 1:
        return ck.undecided('raster', f, 'value ' + show(v)[:120])
    t = vs.pop()
    V = sym('value', 'r')
    ck.eqv('raster', f, subst(v, {t: V}), mul(V, ps, ps), facts=facts, what='a smooth pixel is value times area')
    ck.eqv('raster', f, t.a[-2], cx, facts=facts, what='x at which a smooth pixel is evaluated')
    ck.eqv('raster', f, t.a[-1], cy, facts=facts, what='y at which a smooth pixel is evaluated')
    ins = {t for t in subterms(g) if t.op == 'app' and t.a[0] == 'inside'}
    m = {}
    for t in ins:
        dx, dy = sub(t.a[-2], cx), sub(t.a[-1], cy)
        hx, hy = [const(div(d, ps)) if const(div(d, ps)) is not None else None for d in (dx, dy)]
        m[t] = (hx, hy)
    corners = {(a, b) for a in (-HF, HF) for b in (-HF, HF)}
    if set(m.values()) == corners:
        A = {t: sym('in%d' % k, 'b') for k, t in enumerate(sorted(ins, key=lambda z: z.sk))}
        want = band(*inrect(c29.I, c29.J, W(IMG), H(IMG)), bnot(band(*A.values())))
        ck.entail('raster', f, facts + [want], subst(g, A), what='every pixel that is not entirely sharp gets its smooth value')
        ck.entail('raster', f, facts + [subst(g, A)], want, what='only pixels that are not entirely sharp get a smooth value')
    elif any(a is None or b is None for a, b in m.values()) or lost(g, s.it.exact):
        ck.undecided('raster', f, 'sharp test of a pixel')
    else:
        ck.fail('raster', f, 'the sharp test looks at the points %s (in pixels from the centre) instead of the four corners' % sorted((str(a), str(b)) for a, b in m.values()))


HF = Fraction(1, 2)


def rasterized(ck, F):
    f = body(F, 'ModelFitting::ExtendedModel<%s>::getRasterizedImage' % VI)
    ps, w, h = sym('pixel_scale', 'r'), sym('size_x', 'i'), sym('size_y', 'i')
    hh = {**c29.hs(F), 'updateRasterizationInfo': rec('update', 'i'), 'addSharp': rec('addSharp', 'i'), 'addSmooth': rec('addSmooth', 'i'), 'ModelFitting::_impl::addSharp': rec('addSharp', 'i'), 'ModelFitting::_impl::addSmooth': rec('addSmooth', 'i')}
    st = State()
    st.pc = [ge(w, ONE), ge(h, ONE)]
    s = summ(F, f, args={0: ps, 1: w, 2: h}, handlers=hh, st=st)
    th = [e for e in s.effects if e.kind == 'throw']
    if th:
        ck.eqv('raster', f, bor(*[band(*[p for p in e.pc]) for e in th]), band(*st.pc[:0], ge(w, ONE), ge(h, ONE), bor(eq(app('imod', (w, num(2)), 'i'), num(0)), eq(app('imod', (h, num(2)), 'i'), num(0)))), what='only even sizes are rejected')
    sh = [e for e in s.effects if e.kind == 'addSharp']
    sm = [e for e in s.effects if e.kind == 'addSmooth']
    up = [e for e in s.effects if e.kind == 'update']
    if not (len(sh) == len(sm) == len(up) == 1):
        return ck.undecided('raster', f, 'a component is rasterised by %d sharp and %d smooth passes after %d updates' % (len(sh), len(sm), len(up)))
    a, b = sh[0].d['args'], sm[0].d['args']
    ok = a[-3] is b[-3] and a[-1] is b[-1]
    new = [t.op == 'app' and t.a[0] == 'newimg' for t in (a[-3], b[-3])]
    ck.ok(ok or (False if all(new) and a[-3] is not b[-3] else None), 'raster', f, 'sharp and smooth parts of one component go to the same raster')
    ck.eqv('raster', f, a[-2], ps, what='scale of the sharp part')
    ck.eqv('raster', f, b[-2], ps, what='scale of the smooth part')
    i = [s.effects.index(q) for q in (up[0], sh[0], sm[0])]
    ck.ok(i[0] < i[1] < i[2] if i[1] < i[2] else (False if i[1] > i[2] else None), 'raster', f, 'region update, sharp part, smooth part in this order')
    comp = a[-3]
    W1, H1 = (comp.a[2], comp.a[3]) if comp.op == 'app' and comp.a[0] == 'newimg' else (None, None)
    if W1 is None:
        return ck.undecided('raster', f, 'raster of a component')
    ck.eqv('raster', f, W1, w, what='width of the raster of a component')
    ck.eqv('raster', f, H1, h, what='height of the raster of a component')


# ---------------------------------------------------------------- compact models
def evaluators(ck, F):
    for cls, want in (('CompactSersicModel', lambda r: mul(fl('i0'), app('exp', (neg(mul(fl('k'), app('pow', (r, div(ONE, fl('n'))), 'r'))),), 'r'))),
                      ('CompactExponentialModel', lambda r: mul(fl('i0'), app('exp', (neg(mul(fl('k'), r)),), 'r')))):
        fl = lambda n: mk('app', ('fld', n, THIS), 'r')
        fs = [f for f in F.fn('evaluateModel') if cls + '<std' in f['q'] and f.get('body')]
        if not fs:
            ck.undecided('compact', IMP, cls + ': no evaluator')
            continue
        f = fs[0]
        s = summ(F, f, args={0: X, 1: Y})
        t = [mk('app', ('elem', mk('app', ('fld', 'm_mat', mk('app', ('fld', 'transform', THIS), 'o')), 'o'), num(k)), 'r') for k in range(4)]
        x2, y2 = add(mul(X, t[0]), mul(Y, t[1])), add(mul(X, t[2]), mul(Y, t[3]))
        q = add(mul(x2, x2), mul(y2, y2))
        r = app('sqrt', (q,), 'r')
        ck.eqv('compact', f, s.ret, ite(lt(q, fl('max_r_sqr')), want(r), num(0)), facts=[gt(fl('n'), num(0))], what=cls + ': profile at the transformed position')


def compact_base(ck, F):
    B = 'ModelFitting::CompactModelBase<%s>::' % VI
    f = body(F, B + 'getCombinedTransform')
    ps = sym('pixel_scale', 'r')
    s = summ(F, f, args={0: ps}, handlers=GV)
    m = mat(s, s.ret)
    if m is None:
        ck.undecided('compact', f, 'combined transform')
    else:
        th = P('m_rotation')
        c, n = app('cos', (th,), 'r'), app('sin', (th,), 'r')
        sx, sy = P('m_x_scale'), P('m_y_scale')
        J = [mk('app', ('elem', mk('app', ('fld', 'm_mat', mk('app', ('fld', 'm_inv_jacobian', THIS), 'o')), 'o'), num(k)), 'r') for k in range(4)]
        rows = [[div(c, sx), div(n, sx)], [neg(div(n, sy)), div(c, sy)]]
        for i in range(2):
            for j in range(2):
                want = mul(ps, add(mul(rows[i][0], J[j]), mul(rows[i][1], J[2 + j])))
                ck.eqv('compact', f, m[2 * i + j], want, facts=[gt(sx, num(0)), gt(sy, num(0))], what='combined transform, element %d%d' % (i, j))
    f = body(F, B + 'renormalize')
    flux = sym('flux', 'r')
    s = summ(F, f, args={0: IMG, 1: flux}, handlers=c29.hs(F))
    for e in s.effects:
        if e.kind == 'at':
            ck.entail('compact', f, [ge(W(IMG), num(0)), ge(H(IMG), num(0))] + list(e.pc), band(*inrect(e.d['x'], e.d['y'], W(IMG), H(IMG))), what='normalisation stays inside the raster')
    c = content(s, IMG, c29.I, c29.J)
    if c is None:
        return ck.undecided('compact', f, 'normalisation')
    g, v, e = c
    sums = [t for t in subterms(v) if t.op == 'app' and t.a[0] == 'SUM' and not any(t in subterms(u) and u is not t for u in subterms(v) if u.op == 'app' and u.a[0] == 'SUM')]
    own = [t for t in pixel_terms(v) if t.a[1] is IMG and t.a[2] is xyt(c29.I, c29.J)]
    if len(sums) != 1 or len(set(own)) != 1:
        return ck.undecided('compact', f, 'normalised value ' + show(v)[:120])
    A, O = sym('sum', 'r'), sym('pixel', 'r')
    ck.eqv('compact', f, subst(v, {sums[0]: A, own[0]: O}), div(mul(O, flux), A), facts=[gt(A, num(0))], what='pixels are scaled by flux over their sum')
    fo = unfold(sums[0])
    from sx.folds import over_rect
    if fo is not None:
        r, why = over_rect(fo, c29.I, c29.J, W(IMG), H(IMG), [ge(W(IMG), ONE), ge(H(IMG), ONE)]) if True else (None, '')
        if r is None:
            (ck.fail if why and why[0] is False else ck.undecided)('compact', f, 'sum of the raster: %s' % (why,))
        else:
            ps_ = pixel_terms(r)
            ck.ok(True if r in ps_ and r.a[1] is IMG else None, 'compact', f, 'the sum runs over every pixel once')
    else:
        ck.undecided('compact', f, 'sum of the raster')
    ck.entail('compact', f, inrect(c29.I, c29.J, W(IMG), H(IMG)) + [gt(A, num(0))], subst(g, {sums[0]: A}), what='every pixel is normalised')


def mat(s, r):
    from checks.c26 import entries
    o = entries(_ck[0].F, s, r) if isinstance(r, T) else None
    return o if o and all(isinstance(v, T) for v in o) else None


def compact_models(ck, F):
    for cls in ('CompactSersicModel', 'CompactExponentialModel'):
        f = body(F, 'ModelFitting::%s<%s>::getRasterizedImage' % (cls, VI))
        if f is None:
            ck.undecided('compact', IMP, cls)
            continue
        ps, w, h = sym('pixel_scale', 'r'), sym('size_x', 'i'), sym('size_y', 'i')
        hh = {**c29.hs(F), **{k: rec(k, 'r') for k in ('samplePixel', 'adaptiveSamplePixel', 'sampleStochastic', 'evaluateModel', 'getMaxRadiusSqr')}, 'getCombinedTransform': rec('transform', 'o'), 'renormalize': rec('renormalize', 'i'), 'ModelFitting::BasicParameter::getValue': getvalue}
        st = State()
        st.pc = [ge(w, ONE), ge(h, ONE)]
        s = summ(F, f, args={0: ps, 1: w, 2: h}, handlers=hh, st=st)
        facts = [gt(ps, num(0)), ge(w, ONE), ge(h, ONE)]
        for e in s.effects:
            if e.kind == 'at':
                ck.entail('compact', f, facts + list(e.pc), band(*inrect(e.d['x'], e.d['y'], W(e.d['img']), H(e.d['img']))), what=cls + ': pixels are written inside the raster')
        rn = [e for e in s.effects if e.kind == 'renormalize']
        if len(rn) != 1:
            (ck.fail if not rn else ck.undecided)('compact', f, '%s: the raster is normalised %d times' % (cls, len(rn)))
        else:
            v = rn[0].d['args'][-1]
            ck.ok(True if v is mk('app', ('value', 'm_flux'), 'r') else (None if lost(v) else False), 'compact', f, '%s: the raster is normalised to %s' % (cls, show(v)[:60]))
        img = {e.d['img'] for e in s.effects if e.kind == 'at'}
        if len(img) != 1:
            ck.undecided('compact', f, cls + ': raster')
            continue
        img = img.pop()
        es = written(s, img)
        brd = None
        for e in es:
            ev = [t for t in subterms(e.d['val']) if t.op == 'app' and t.a[0] in ('samplePixel', 'adaptiveSamplePixel', 'sampleStochastic', 'evaluateModel')]
            for t in ev:
                k = 2 if t.a[0] in ('samplePixel', 'adaptiveSamplePixel', 'sampleStochastic') else 1
                args = t.a[1:]
                # position arguments follow the evaluator
                pos = args[2:4] if k == 2 else args[1:3]
                if len(pos) != 2:
                    continue
                m = solve2(e, c29.I, c29.J)
                if m is None:
                    ck.undecided('compact', f, cls + ': position')
                    continue
                ox, oy = sub(subst(pos[0], m), c29.I), sub(subst(pos[1], m), c29.J)
                odd = [eq(app('imod', (w, num(2)), 'i'), ONE), eq(app('imod', (h, num(2)), 'i'), ONE)]
                ck.eqv('compact', f, ox, neg(app('idiv', (W(img), num(2)), 'i')), facts=facts + odd, what=cls + ': x is measured from the centre of the raster (%s)' % t.a[0])
                ck.eqv('compact', f, oy, neg(app('idiv', (H(img), num(2)), 'i')), facts=facts + odd, what=cls + ': y is measured from the centre of the raster (%s)' % t.a[0])
