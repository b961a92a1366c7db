"""C03: parameters and residuals keep their slots, count and sign."""
from sx.util import *

EP = 'ModelFitting::EngineParameter::'
RB = 'ModelFitting::ResidualBlockProvider::'
GV = 'ModelFitting::BasicParameter::getValue'
H = pure(EP + 'getEngineValue', EP + 'setEngineValue', EP + 'getEngineToWorldDerivative', RB + 'numberOfResiduals', RB + 'populateResidualBlock', GV,
         'ModelFitting::BasicParameter::addObserver', 'ModelFitting::BasicParameter::removeObserver', 'SxComparator::operator()')


def run(ck):
    ck.rule('register', 'registration appends at the end; counts are the number of registered parameters / the sum of the registered block sizes')
    ck.rule('parameter-slot', 'slot i of the engine value array is read from / written to the i-th registered parameter, for every i')
    ck.rule('residual-slot', 'block i writes at offset sum(sizes of blocks before it) of the output, for every i and every output type')
    ck.rule('block', 'a data-against-model block has one residual per data point, compares element i of data, model and weight, and writes slot i')
    ck.rule('size-check', 'data, model and weight of different sizes are rejected')
    ck.rule('comparator', 'the comparator value equals its documented formula (zero for equal data and model, sign of weight*(data-model), monotone)')
    ck.rule('prior', 'a prior residual is weight times the difference of the current and expected value (up to a global sign), one slot')
    ck.rule('covariance', 'element (i, j) of the world covariance is the engine element times the derivatives of parameters i and j')
    F = ck.F = Facts([VERIF + '/drivers/residuals.cpp'] + tus('ModelFitting/src/lib/Engine/EngineParameterManager.cpp', 'ModelFitting/src/lib/Engine/ResidualEstimator.cpp', 'ModelFitting/src/lib/Engine/*ValueResidual.cpp'))
    ck.section(comparators, ck, F)
    ck.section(block, ck, F)
    ck.section(manager, ck, F)
    ck.section(estimator, ck, F)
    ck.section(priors, ck, F)
    return 10


def comparators(ck, F):
    r, m, w, u = sym('real', 'r'), sym('model', 'r'), sym('weight', 'r'), sym('u0', 'r')
    d = mul(w, sub(r, m))
    v = div(d, u)

    def lg(x):
        return app('log', (add(num(1), x),), 'r')
    want = {'ChiSquareComparator': d, 'LogChiSquareComparator': ite(gt(v, num(0)), mul(u, lg(v)), neg(mul(u, lg(neg(v))))), 'AsinhChiSquareComparator': mul(u, app('asinh', (v,), 'r'))}
    for c, wt in want.items():
        fs = [f for f in F.funcs.values() if f['n'] == 'operator()' and (f.get('cls') or '').endswith('::' + c)]
        if not fs:
            ck.undecided('comparator', c, 'not found')
            continue
        f = fs[0]
        o = Obj(F, c, {0: u})
        s = o.call('operator()', {0: r, 1: m, 2: w}) if o.ok else summarise(F, f, {0: r, 1: m, 2: w})
        ck.eqv('comparator', f, s.ret, wt, [gt(u, num(0))], what=c)
        if isinstance(s.ret, T):
            ck.eqv('comparator', f, subst(s.ret, {m: r}), num(0), [gt(u, num(0))], what=c + ' at model = data')


def block(ck, F):
    data, model, weight = (sym(x, 'o') for x in ('data', 'model', 'weight'))
    o = Obj(F, 'DataVsModelResiduals', {0: data, 1: model, 2: weight, 3: sym('comparator', 'o')}, handlers=H)
    if not o.ok:
        return ck.undecided('block', 'DataVsModelResiduals', 'constructor not found')
    sz = [mk('app', ('size', x), 'i') for x in (data, model, weight)]
    facts = list(o.st.pc)
    ck.entail('size-check', o.ctor, facts, eq(sz[0], sz[1]), what='after construction the data and model sizes agree')
    ck.entail('size-check', o.ctor, facts, eq(sz[0], sz[2]), what='after construction the data and weight sizes agree')
    f = o.method('numberOfResiduals', 0)
    ck.eqv('block', f, o.call('numberOfResiduals').ret, sz[0], facts, what='number of residuals')
    g = o.method('populateResidualBlock', 1)
    out = sym('out', 'i')
    s = o.call('populateResidualBlock', {0: out})
    st = [e for e in s.effects if e.kind == 'store' and e.d['lv'][0] == 'mem']
    if len(st) != 1:
        return ck.undecided('block', g, '%d stores' % len(st))
    e = st[0]
    x = loop_subst(e)
    if x is None:
        return ck.undecided('block', g, 'no counted loop')
    i, lo, L = x
    base, n = trange(L, i)
    if n is None:
        return ck.undecided('block', g, 'loop range')
    k = sub(i, base)
    ck.eqv('block', g, sub(n, base), sz[0], facts, what='number of slots written')
    ck.eqv('block', g, e.d['lv'][1], add(out, k), facts + L.facts, what='slot address')
    cmp_ = [c for c in calls(s, 'SxComparator::operator()')]
    if len(cmp_) == 1:
        for a, src, nm in zip(cmp_[0].d['argt'], (data, model, weight), ('data', 'model', 'weight')):
            el = [t for t in subterms(a) if t.op == 'app' and t.a[0] == 'elem']
            if a.op == 'app' and a.a[0] == 'elem':
                want_src = {data: 'data', model: 'model', weight: 'weight'}
                got_src = want_src.get(a.a[1])
                cp = o.st.heap.get((a.a[1], '#copy'))
                if got_src is None and cp is not None:
                    got_src = want_src.get(cp[0])
                ck.ok(None if got_src is None else got_src == nm, 'block', g, 'comparator argument for %s reads %s' % (nm, got_src or show(a)))
                ck.eqv('block', g, a.a[2], k, facts + L.facts, what='element index of ' + nm)
            else:
                ck.undecided('block', g, 'comparator argument %s' % show(a))
        ck.eqv('block', g, e.d['val'], cmp_[0].d['ret'], what='value stored is the comparator result')
    else:
        ck.undecided('block', g, 'comparator called %d times' % len(cmp_))


def manager(ck, F):
    f = F.one('EngineParameterManager::registerParameter')
    s = summarise(F, f, handlers=H)
    ps = [e for e in s.effects if e.kind == 'push']
    if len(ps) == 1 and not ps[0].pc:
        ck.ok(ps[0].d['val'] is s.params[0], 'register', f, 'registerParameter appends the parameter')
        cont = ps[0].d['obj']
    else:
        cont = None
        ck.ok(False if not ps and not s.effects else None, 'register', f, 'registerParameter does not append')
    if cont is None:
        return
    n = mk('app', ('size', cont), 'i')
    f = F.one('EngineParameterManager::numberOfParameters')
    ck.eqv('register', f, summarise(F, f, handlers=H).ret, n, what='numberOfParameters')
    # both overloads of get / update
    for g in F.fn('EngineParameterManager::getEngineValues'):
        s = summarise(F, g, handlers=H)
        for e in s.effects:
            pass
        slot_writes(ck, g, s, cont, n, 'ModelFitting::EngineParameter::getEngineValue')
    for g in F.fn('EngineParameterManager::updateEngineValues'):
        s = summarise(F, g, handlers=H)
        cs = calls(s, EP + 'setEngineValue')
        if len(cs) != 1:
            ck.undecided('parameter-slot', g, '%d setEngineValue sites' % len(cs))
            continue
        c = cs[0]
        x = loop_subst(c)
        if x is None:
            ck.undecided('parameter-slot', g, 'no counted loop')
            continue
        i, lo, L = x
        a, b = trange(L, i)
        k = sub(i, a)
        extra = [p for p in c.pc if p not in L.facts]
        if b is None or extra:
            ck.undecided('parameter-slot', g, 'conditional or unbounded loop')
            continue
        ck.eqv('parameter-slot', g, sub(b, a), n, what='number of parameters updated')
        elem_at(ck, g, c.d['obj'], cont, k, L.facts, 'updated parameter')
        src, off = source_of(c.d['argt'][0], s)
        if src is None:
            ck.undecided('parameter-slot', g, 'value read %s' % show(c.d['argt'][0]))
        else:
            ck.eqv('parameter-slot', g, off, k, L.facts, what='slot read')
    cov(ck, F, cont, n)


def source_of(v, s):
    """(array, index) a value is read from"""
    if v.op == 'app' and v.a[0] == 'deref':
        p = [x for x in s.params.values() if isinstance(x, T) and is_num(x)]
        for x in p:
            return x, sub(v.a[1], x)
    if v.op == 'app' and v.a[0] == 'elem':
        return v.a[1], v.a[2]
    return None, None


def elem_at(ck, g, t, cont, k, facts, what):
    if t.op == 'app' and t.a[0] == 'elem':
        if t.a[1] is cont:
            return ck.eqv('parameter-slot', g, t.a[2], k, facts, what=what)
    ck.undecided('parameter-slot', g, '%s: %s' % (what, show(t)))


def slot_writes(ck, g, s, cont, n, getter):
    st = [e for e in s.effects if e.kind == 'store' and e.d['lv'][0] in ('mem', 'elem') and e.loops]
    if len(st) == 1:
        e = st[0]
        x = loop_subst(e)
        if x is None:
            return ck.undecided('parameter-slot', g, 'no counted loop')
        i, lo, L = x
        a, b = trange(L, i)
        if b is None or [p for p in e.pc if p not in L.facts]:
            return ck.undecided('parameter-slot', g, 'conditional or unbounded loop')
        k = sub(i, a)
        ck.eqv('parameter-slot', g, sub(b, a), n, what='number of values read out')
        if e.d['lv'][0] == 'mem':
            base = [v for v in s.params.values() if isinstance(v, T) and is_num(v)][0]
            ck.eqv('parameter-slot', g, sub(e.d['lv'][1], base), k, L.facts, what='slot written')
        else:
            ck.eqv('parameter-slot', g, e.d['lv'][2], k, L.facts, what='slot written')
        v = e.d['val']
        if v.op == 'app' and v.a[0] == 'call:' + getter:
            elem_at(ck, g, v.a[1], cont, k, L.facts, 'parameter read')
        else:
            ck.undecided('parameter-slot', g, 'value written: %s' % show(v))
        return
    ps = [e for e in s.effects if e.kind == 'push']
    cp = [e for e in s.effects if e.kind == 'copy']
    if len(ps) + len(cp) == 0 and not st:
        return ck.undecided('parameter-slot', g, 'no writes seen')
    ck.undecided('parameter-slot', g, '%d stores, %d appends, %d copies' % (len(st), len(ps), len(cp)))


def cov(ck, F, cont, n):
    f = F.one('EngineParameterManager::convertCovarianceMatrixToWorldSpace')
    s = summarise(F, f, handlers=H)
    m = s.params[0]
    ps = [e for e in s.effects if e.kind == 'push']
    if len(ps) != 1:
        return ck.undecided('covariance', f, '%d appends' % len(ps))
    e = ps[0]
    Ls = [l for l in e.loops if isinstance(l, Loop)]
    v = e.d['val']
    els = [t for t in subterms(v) if t.op == 'app' and t.a[0] == 'elem' and t.a[1] is m]
    ds = sorted([t for t in subterms(v) if t.op == 'app' and t.a[0] == 'call:' + EP + 'getEngineToWorldDerivative'], key=lambda t: t.sk)
    if len(Ls) != 2 or len(els) != 1:
        return ck.undecided('covariance', f, 'shape not recognised')
    js = [x for x, v0, stp in Ls[0].vars if stp == 1]
    is_ = [x for x, v0, stp in Ls[1].vars if stp == 1]
    if len(js) != 1 or len(is_) != 1:
        return ck.undecided('covariance', f, 'loop counters not recognised')
    i, j = is_[0], js[0]
    di, dj = (papp(EP + 'getEngineToWorldDerivative', mk('app', ('elem', cont, x), 'o')) for x in (i, j))
    z = sym('cov', 'r')
    ck.eqv('covariance', f, subst(v, {els[0]: z}), mul(z, di, dj), exact={i, j}, what='element in row j, column i')


def estimator(ck, F):
    f = F.one('ResidualEstimator::registerBlockProvider')
    s = summarise(F, f, handlers=H)
    ps = [e for e in s.effects if e.kind == 'push']
    prov = s.params[0]
    if len(ps) == 1 and not ps[0].pc:
        ck.ok(ps[0].d['val'] is prov or None, 'register', f, 'registerBlockProvider appends the block')
        cont = ps[0].d['obj']
    else:
        return ck.undecided('register', f, '%d appends' % len(ps))
    g = F.one('ResidualEstimator::numberOfResiduals')
    before = summarise(F, g, handlers=H, this=s.this).ret
    after = summarise(F, g, handlers=H, this=s.this, st=s.st.copy(), interp=s.it).ret
    if isinstance(before, T) and isinstance(after, T):
        if before.op == 'app' and before.a[0] == 'SUM':
            ck.holds('register', g, 'count is computed as a sum over the blocks')
        else:
            ck.eqv('register', g, sub(after, before), papp(RB + 'numberOfResiduals', prov, sort='i'), what='numberOfResiduals grows by the size of the registered block')
    for h in F.fn('ResidualEstimator::populateResiduals'):
        s = summarise(F, h, handlers=H)
        cs = calls(s, RB + 'populateResidualBlock')
        if len(cs) != 1:
            ck.undecided('residual-slot', h, '%d block calls' % len(cs))
            continue
        c = cs[0]
        x = loop_subst(c)
        if x is None:
            ck.undecided('residual-slot', h, 'no counted loop')
            continue
        i, lo, L = x
        a, b = trange(L, i)
        if b is None or [p for p in c.pc if p not in L.facts]:
            ck.undecided('residual-slot', h, 'conditional or unbounded loop')
            continue
        k = sub(i, a)
        ck.eqv('residual-slot', h, sub(b, a), mk('app', ('size', cont), 'i'), what='number of blocks asked')
        ob = c.d['obj']
        if ob.op == 'app' and ob.a[0] == 'elem' and ob.a[1] is cont:
            ck.eqv('residual-slot', h, ob.a[2], k, L.facts, what='block asked')
        else:
            ck.undecided('residual-slot', h, 'block %s' % show(ob))
        bound = mk('sym', ('$0.0',), 'i')
        want = mk('app', ('SUM', papp(RB + 'numberOfResiduals', mk('app', ('elem', cont, bound), 'o'), sort='i'), k), 'i')
        adr = c.d['argt'][0]
        # the block writes straight into the output, or into a temporary of its size that is copied to the output
        cp = [e for e in s.effects if e.kind == 'copy']
        out = out_param(s)
        if cp and out is not None:
            d = cp[0].d
            off = offset(d['dst'], out)
            cnt = papp(RB + 'numberOfResiduals', ob, sort='i')
            ck.eqv('residual-slot', h, off, want, L.facts, what='offset of the copied block')
            ck.eqv('residual-slot', h, d['count'], cnt, L.facts, what='number of residuals copied')
        elif out is not None:
            off = offset(adr, out)
            ck.eqv('residual-slot', h, off, want, L.facts, what='offset of the block')
        else:
            ck.undecided('residual-slot', h, 'output parameter not recognised')


def out_param(s):
    return s.params.get(0)


def offset(adr, out):
    if not isinstance(adr, T):
        return None
    if isiter(out):
        cont = out.a[1]
        if isiter(adr) and adr.a[1] is cont:
            return adr.a[2]
        if is_num(adr):
            return sub(adr, mk('app', ('data', cont), 'i'))
        return None
    if is_num(adr) and is_num(out):
        b = [t for t in subterms(adr) if t.op == 'app' and t.a[0] in ('data', 'deref')]
        return sub(adr, out)
    return None


def priors(ck, F):
    e, w = sym('expected_value', 'r'), sym('weight', 'r')
    par = sym('parameter', 'o')
    for cls, getter in (('WorldValueResidual', GV), ('EngineValueResidual', EP + 'getEngineValue')):
        o = Obj(F, cls, {0: par, 1: e, 2: w}, handlers=H)
        if not o.ok:
            ck.undecided('prior', cls, 'constructor not found')
            continue
        f = o.method('numberOfResiduals', 0)
        ck.eqv('prior', f, o.call('numberOfResiduals').ret, num(1), what=cls + ' size')
        g = o.method('populateResidualBlock', 1)
        out = sym('out', 'i')
        s = o.call('populateResidualBlock', {0: out})
        st = [x for x in s.effects if x.kind == 'store' and x.d['lv'][0] == 'mem']
        if len(st) != 1 or st[0].loops or st[0].pc:
            ck.undecided('prior', g, '%d stores' % len(st))
            continue
        ck.eqv('prior', g, st[0].d['lv'][1], out, what=cls + ' slot')
        r = st[0].d['val']
        cur = papp(getter, par)
        d = mul(w, sub(cur, e))
        ck.eqv('prior', g, mul(r, r) if isinstance(r, T) else r, mul(d, d), what=cls + ' residual squared')
