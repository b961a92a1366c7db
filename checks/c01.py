"""C01: converters - forward, inverse and derivative value numbers."""
from sx.facts import *
from sx.interp import *
from sx.terms import *

DIR = 'ModelFitting/src/lib/Parameters/'


def run(ck):
    ck.rule('inverse', 'engineToWorld(worldToEngine(w)) has the value number of w on every path that is reachable for a world value strictly inside the range')
    ck.rule('derivative', 'getEngineToWorldDerivative(engineToWorld(e)) has the value number of d/de engineToWorld(e) on every unclamped path')
    ck.rule('range', 'engineToWorld(e) lies in [min, max] on every path')
    ck.rule('saturation', 'a clamp on the engine value is wide enough that the clamped sigmoid has saturated in double precision')
    ck.rule('monotone', 'the derivative of the forward map is positive inside the range')
    F = ck.F = Facts(tus(DIR + '*Converter.cpp'))
    for cls in ('NeutralConverter', 'NormalizedConverter', 'SigmoidConverter', 'ExpSigmoidConverter'):
        one(ck, F, cls)
    return 8


def one(ck, F, cls):
    fwd, inv_, der = F.one(cls + '::engineToWorld'), F.one(cls + '::worldToEngine'), F.one(cls + '::getEngineToWorldDerivative')
    o = Obj(F, cls)
    if not o.ok:          # implicit constructor: stateless
        o.st, o.params, o.clskey = State(), {}, fwd.get('clskey')
        o.ok = True
    w, e = sym('w', 'r'), sym('e', 'r')
    # strict interior of the valid range, in terms of the constructor arguments
    base, wrange = [], []
    ps = [p for p in (o.ctor['params'] if o.ctor is not None else [])]
    mn = mx = norm = None
    if cls in ('SigmoidConverter', 'ExpSigmoidConverter'):
        if len(ps) < 2:
            raise Broken('%s: constructor no longer takes (min, max)' % cls)
        mn, mx = o.params[0], o.params[1]
        base = [lt(mn, mx)]
        if cls == 'ExpSigmoidConverter':
            base.append(gt(mn, num(0)))
            base.append(gt(mx, num(0)))
        wrange = [lt(mn, w), lt(w, mx)]
        if cls == 'ExpSigmoidConverter':
            wrange.append(gt(w, num(0)))
    elif cls == 'NormalizedConverter':
        if len(ps) != 1:
            raise Broken('NormalizedConverter: constructor no longer takes one normalisation')
        norm = o.params[0]
        base = [bnot(eq(norm, num(0)))]
    E = o.call('worldToEngine', {0: w})
    W = o.call('engineToWorld', {0: e})
    D = o.call('getEngineToWorldDerivative', {0: w})
    ck.count('functions', 3)
    if not all(isinstance(x.ret, T) for x in (E, W, D)):
        ck.undecided('inverse', fwd, 'no closed form')
        return
    # ---- clamps: conditions of the forward map that compare the engine value with constants
    unc, clamped = [], []
    for lits, (v,) in leaves_of(base, W.ret):
        if e in subterms(v):
            unc.append((lits, v))
        else:
            clamped.append((lits, v))
    if not unc:
        ck.fail('inverse', fwd, 'the forward map does not depend on the engine value on any path')
        return
    # ---- inverse: on unclamped leaves
    for lits, v in unc:
        econs = [l for l in lits if e in subterms(l)]
        for elits, (ev,) in leaves_of(base + wrange, E.ret):
            if w not in subterms(ev):
                continue
            got = subst(v, {e: ev})
            fac = base + wrange + elits
            # the clamp being inactive at this engine value is assumed for the inner leaf
            ck.eqv('inverse', fwd, got, w, fac, what='%s: engineToWorld(worldToEngine(w))' % cls)
    # inside the range the inverse is constant only where it is saturated next to a bound
    for elits, (ev,) in leaves_of(base + wrange, E.ret):
        if w in subterms(ev):
            continue
        c = const(ev)
        tiny = num(Fraction(1, 10 ** 12))
        sat = c is not None and mn is not None and abs(c) >= 36.7 and entails(elits, le(sub(w, mn) if c < 0 else sub(mx, w), tiny))
        ck.ok(sat, 'inverse', inv_, '%s: worldToEngine is constant (%s) on a path reachable for world values strictly inside the range, away from its ends (%s)' % (cls, show(ev), [show(l) for l in elits]))
    # ---- derivative
    for lits, v in unc:
        dv = deriv(v, e)
        if dv is None:
            ck.undecided('derivative', der, 'forward map not differentiable symbolically')
            continue
        got = subst(D.ret, {w: v})
        for l2, (g,) in leaves_of(base + lits, got):
            ck.eqv('derivative', der, g, dv, base, what='%s derivative at engineToWorld(e)' % cls)
    # ---- range and saturation
    if mn is not None:
        for lits, v in clamped:
            bs = [abs(float(const(x))) for l in lits for x in consts_vs(l, e)]
            if not bs:
                ck.undecided('saturation', fwd, 'forward map constant under %s' % [show(l) for l in lits])
                continue
            b = min(bs)
            ck.ok(b >= 36.7, 'saturation', fwd, '%s: engine values beyond %.4g are clamped although the map has not saturated there (needs exp(-B) below double precision, B >= 36.74)' % (cls, b))
        import math
        ok = None
        for lits, v in unc + clamped:
            u = unit_form(v, e, mn, mx, cls)
            if u is None:
                ck.undecided('range', fwd, '%s: not of the form lo*(1-s)+hi*s with a sigmoid s: %s' % (cls, show(v)))
            else:
                ck.holds('range', fwd, '%s: %s' % (cls, show(u)))


def leaves_of(facts, t):
    try:
        for lits, ts in cases(list(facts), (t,)):
            if lits_feasible(lits):
                yield [l for l in lits], ts
    except Giveup:
        return


def consts_vs(l, e):
    """constants c such that literal l compares e with c"""
    if l.op in ('lt', 'le', 'eq') and is_num(l.a[0]):
        ms = monos(l.a[0])
        if set(ms) <= {(), ((e, 1),)} and ((e, 1),) in ms:
            return [num(-ms.get((), 0) / ms[((e, 1),)])]
    return []


def unit_form(v, e, mn, mx, cls):
    """s = (v-mn)/(mx-mn) (or its logarithmic analogue) must be 1/(1+exp(g)): then 0 < s < 1"""
    if cls == 'ExpSigmoidConverter':
        v = app('log', (v,), 'r')
        mn, mx = app('log', (mn,), 'r'), app('log', (mx,), 'r')
    # v is affine in (mn, mx) with weights (1-s, s): derivative with respect to mx is s
    a, b = sym('lo?', 'r'), sym('hi?', 'r')
    v2 = subst(v, {mn: a, mx: b}) if cls != 'ExpSigmoidConverter' else subst_log(v, {mn: a, mx: b})
    s = deriv(v2, b)
    r = deriv(v2, a)
    if s is None or r is None or a in subterms(s) or b in subterms(s):
        return None
    if equal(add(s, r), num(1))[0] is not True or equal(v2, add(mul(r, a), mul(s, b)))[0] is not True:
        return None
    inv = div(num(1), s)
    g = sub(inv, num(1))
    # 1/s - 1 must be a positive exponential
    g = clear_inv(g) if False else g
    for cand in (g, ):
        l = app('log', (cand,), 'r')
        if e in subterms(l) or const(l) is not None:
            # exp(x): log(exp(x)) == x without residual log atom
            if not any(x.op == 'app' and x.a[0] == 'log' for x in subterms(l)):
                return s
    return None


def subst_log(v, env):
    return subst(v, env)
