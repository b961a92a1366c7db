"""C18: Fourier transforms - plans, buffers, padding and centring such that a DFT convolution is the convolution, and the direct convolution is the same sum."""
from sx.images import *
from sx import locks
from sx.folds import unfold, over_rect
from sx.report import lost, foreign
import sx.terms as TT

A, B, Wd, Hd = (sym(n, 'i') for n in ('a', 'b', 'w', 'h'))
I, J, U, V_ = (sym(n, 'i') for n in ('i', 'j', 'u', 'v'))
P, Q = sym('p', 'i'), sym('q', 'i')
ONE, TWO = num(1, 'i'), num(2, 'i')
IMG = sym('image', 'o')
KER = sym('kernel', 'o')
M, N = sym('m', 'i'), sym('n', 'i')


def run(ck):
    ck.rule('planner-lock', 'every call of the FFTW planner and every plan destruction that creation performs happens with one process-wide mutex held exclusively')
    ck.rule('cache-lock', 'a plan cache is only read with its lock held and only extended with its lock held exclusively')
    ck.rule('cache-key', 'the plan returned for (width, height) was made for rows = height, columns = width')
    ck.rule('direction', 'forward plans are real-to-complex, inverse plans complex-to-real, of the precision of the data, and are run by the matching execute function on the caller\'s buffer')
    ck.rule('buffer', 'buffers hold at least height * 2 * (width / 2 + 1) values when a plan is made or run')
    ck.rule('round', 'the rounded transform size is never smaller than the requested size, and the lookup stays inside its table')
    ck.rule('padding', 'the transform is at least image size + kernel size - 1 in both directions')
    ck.rule('kernel', 'the kernel is stored with its centre at the origin, wrapped around the edges, zero elsewhere')
    ck.rule('image', 'the transformed data are the padded image, row by row')
    ck.rule('product', 'every complex coefficient of the image is multiplied by the one of the kernel')
    ck.rule('result', 'output pixel (i, j) is read from where the padding put it, divided by the number of samples')
    ck.rule('direct', 'the direct convolution sums mirrored kernel times padded image over the whole kernel, for every pixel')
    F = ck.F = Facts([VERIF + '/drivers/fft.cpp', 'SEFramework/src/lib/FFT/FFT.cpp'])
    ck.section(locking, ck, F)
    ck.section(plans, ck, F)
    ck.section(traits, ck, F)
    ck.section(rounding, ck, F)
    for par in ((0, 0), (1, 1), (0, 1)):
        ck.section(dft, ck, F, par)
    ck.section(direct, ck, F)
    ck.assumptions = ['odd kernel sizes (the two strategies place the centre of an even kernel differently)', 'padded and recentred views are as C06 establishes', 'FFTW computes the unnormalised transforms it documents']
    return 12


# ------------------------------------------------------------------ (a) locks
def planner(n, F):
    """planner call? through the traits' function pointers or directly"""
    if n['k'] != 'call':
        return False
    fn = n.get('fn')
    names = [n.get('n') or '']
    if fn is not None:
        for x in walk(fn):
            if x['k'] in ('ref', 'mem'):
                names.append(x.get('n') or '')
                v = F.vars.get(x.get('q') or '')
                if v:
                    names += [y.get('n') or '' for y in walk(v['v'].get('init'))]
    import re
    return any(re.match(r'fftw[fl]?_(plan_(dft|many|guru|r2r)|destroy_plan|cleanup|import_wisdom|export_wisdom|forget_wisdom|plan_with_nthreads)', x) for x in names)


def locking(ck, F):
    fs = [f for f in F.funcs.values() if f['file'].endswith(('.cpp', '.h', '.icpp')) and ('FFT' in f['file'] or 'Convolution' in f['file'])]
    an = locks.Analysis(F, fs)
    sites = []

    for f in fs:
        if f.get('dep') or not f.get('body'):
            continue
        for n in walk(f['body']):
            if planner(n, F):
                S = an.held_at(n)
                sites.append((f, n, S))
    if not sites:
        return ck.undecided('planner-lock', 'SEFramework/src/lib/FFT/FFT.cpp', 'no planner call found')
    cand = None
    for f, n, S in sites:
        if S is None:
            continue
        ms = {m for _, m, mo in S if mo == 'x' and m[0] == 'g'}
        cand = ms if cand is None else cand & ms
    if cand:
        for f, n, S in sites:
            ck.holds('planner-lock', '%s:%s' % (f.loc.split(':')[0], n.get('l')), '%s: planner called with %s held' % (f['q'], sorted(x[1] for x in cand)))
    else:
        for f, n, S in sites:
            ms = {m for _, m, mo in (S or ()) if mo == 'x' and m[0] == 'g'}
            if S is None:
                ck.undecided('planner-lock', f, 'planner call at line %s not reached by the analysis' % n.get('l'))
        bad = [(f, n, S) for f, n, S in sites if S is not None and not {m for _, m, mo in S if mo == 'x' and m[0] == 'g'}]
        for f, n, S in bad or sites[:1]:
            ck.fail('planner-lock', '%s:%s' % (f.loc.split(':')[0], n.get('l')), '%s calls the FFTW planner without the process-wide mutex that the other planner calls hold (held: %s)' % (f['q'], sorted(str(m) + ' ' + mo for _, m, mo in S or ()) or 'none'))
    # caches: static containers that are modified
    for v, accs in an.by_var().items():
        if v[0] not in ('s', 'g', 'f') or not any(a.w for a in accs):
            continue
        t = next((a.n.get('t', '') for a in accs), '')
        if 'mutex' in t or 'atomic' in t or not ('map<' in t or 'vector<' in t or 'list<' in t) or v[0] == 'f' or 'plan' not in t:
            continue
        c = locks.common(accs)
        a0 = accs[0]
        if c:
            ck.holds('cache-lock', a0.f, '%s: %d accesses under %s' % (v[1], len(accs), c[0][1]))
        else:
            bad = [a for a in accs if not a.modes() or (a.w and not any(o == 'x' for _, o in a.modes()))] or accs
            a = bad[0]
            ck.fail('cache-lock', '%s:%s' % (a.f.loc.split(':')[0], a.n.get('l')), '%s is %s with %s held, no lock covers all its accesses' % (v[1], 'modified' if a.w else 'read', sorted('%s (%s)' % (m[1], {'x': 'exclusive', 's': 'shared', 'u': 'shared, upgradable'}[o]) for m, o in a.modes()) or 'no lock'))


# ------------------------------------------------------------------ (b) plans
def traitptr(n):
    for x in walk(n):
        if x['k'] in ('ref', 'mem') and x.get('q'):
            return x['q']


def plans(ck, F):
    w, h = sym('width', 'i'), sym('height', 'i')
    vec = sym('inout', 'o')
    pos = [ge(w, ONE), ge(h, ONE)]
    for cta in ('<float>', '<double>'):
        for nm, d in (('createForwardPlan', 'fwd'), ('createInversePlan', 'inv')):
            fs = [f for f in F.funcs.values() if f['n'] == nm and f.get('cta') == cta and f.get('body')]
            if not fs:
                ck.undecided('cache-key', 'SEFramework/src/lib/FFT/FFT.cpp', 'no %s%s' % (nm, cta))
                continue
            f = fs[0]
            st = State()
            st.pc = list(pos)
            s = summarise(F, f, args={0: w, 1: h, 2: vec}, st=st)
            applies = [e for e in s.effects if e.kind == 'call' and e.d.get('q') == 'apply' and isinstance(e.d.get('obj'), T) and 'func_plan' in show(e.d['obj'])]
            direct_ = [e for e in s.effects if e.kind == 'call' and 'plan_dft' in (e.d.get('n') or '')]
            if len(applies) + len(direct_) != 1:
                ck.undecided('cache-key', f, '%d planner calls' % (len(applies) + len(direct_)))
                continue
            e = (applies + direct_)[0]
            a = [x for x in e.d['args'] if isinstance(x, T)]
            if len(a) < 4:
                ck.undecided('cache-key', f, 'planner arguments not recognised')
                continue
            what = '%s%s' % (nm, cta)
            ck.eqv('cache-key', f, a[0], h, facts=pos, what=what + ': rows of the plan')
            ck.eqv('cache-key', f, a[1], w, facts=pos, what=what + ': columns of the plan')
            key = mk('app', ('tup', w, h), 'o')
            keys = [x for x in s.effects if x.kind in ('mapat', 'mapput', 'mapget', 'mapfind') and isinstance(x.d.get('key'), T)]
            look = [x for x in keys if x.kind != 'mapput']
            put = [x for x in keys if x.kind == 'mapput']
            for x in put:
                k = x.d['key']
                if k.op == 'app' and k.a[0] == 'tup' and len(k.a) == 3:
                    ins = set(subterms(k.a[1])) | set(subterms(k.a[2]))
                    for l in look:
                        lk = l.d['key']
                        if lk.op == 'app' and lk.a[0] == 'tup' and len(lk.a) == 3:
                            for t1, t2 in zip(lk.a[1:], k.a[1:]):
                                ck.eqv('cache-key', f, t1, t2, facts=pos, what=what + ': key looked up is the key inserted')
                        else:
                            ck.undecided('cache-key', f, what + ': key looked up: ' + show(lk))
                    # distinct sizes have distinct keys: both dimensions determine the key injectively
                    if {k.a[1], k.a[2]} == {w, h}:
                        ck.holds('cache-key', f, what + ': the key is the pair of dimensions')
                    else:
                        inj(ck, f, what, k, w, h, pos)
                else:
                    inj(ck, f, what, mk('app', ('tup', k), 'o'), w, h, pos)
            # buffer handed to the planner is the caller's, and is big enough
            need = mul(h, mul(TWO, add(app('idiv', (w, TWO), 'i'), ONE)))
            size0 = None
            rs = [x for x in s.effects if x.kind == 'resize']
            if rs and rs[-1].d['obj'] is vec:
                g = [p for p in rs[-1].pc if p is not TRUE]
                ck.entail('buffer', f, pos + g, ge(rs[-1].d['size'], need), what=what + ': the buffer is enlarged to the size the plan needs')
                # not enlarged only when big enough: negated guard must imply size >= need
                own = [x for p in g for x in subterms(p) if x.op == 'app' and x.a[0] == 'size']
                if own:
                    for p in g:
                        if own[0] in subterms(p):
                            ck.entail('buffer', f, pos + [bnot(p)], ge(own[0], need), what=what + ': the buffer is left alone only when it is big enough')
            elif rs:
                ck.undecided('buffer', f, what + ': resized buffer not recognised')
            else:
                ck.fail('buffer', f, what + ': the planner overwrites the buffer but its size is never ensured')


def inj(ck, f, what, k, w, h, pos):
    """two different sizes must not share a key"""
    w2, h2 = sym('width2', 'i'), sym('height2', 'i')
    same = [eq(x, subst(x, {w: w2, h: h2})) for x in k.a[1:] if isinstance(x, T)]
    goal = band(eq(w, w2), eq(h, h2))
    facts = pos + [ge(w2, ONE), ge(h2, ONE)] + same
    if entails(facts, goal):
        return ck.holds('cache-key', f, what + ': different sizes have different keys')
    for a in (1, 2, 3, 4):
        for b in (1, 2, 3, 4):
            for c in (1, 2, 3, 4):
                for d in (1, 2, 3, 4):
                    if (a, b) != (c, d):
                        e1 = [subst(x, {w: num(a, 'i'), h: num(b, 'i')}) for x in k.a[1:] if isinstance(x, T)]
                        e2 = [subst(x, {w: num(c, 'i'), h: num(d, 'i')}) for x in k.a[1:] if isinstance(x, T)]
                        if all(const(x) is not None and const(x) == const(y) for x, y in zip(e1, e2)):
                            return ck.fail('cache-key', f, '%s: sizes %dx%d and %dx%d share the cache key %s' % (what, a, b, c, d, show(k)))
    return ck.undecided('cache-key', f, what + ': key ' + show(k))


# ------------------------------------------------------------------ traits
def traits(ck, F):
    want = {'func_plan_fwd': '%s_plan_dft_r2c_2d', 'func_plan_inv': '%s_plan_dft_c2r_2d', 'func_destroy_plan': '%s_destroy_plan', 'func_execute_fwd': '%s_execute_dft_r2c', 'func_execute_inv': '%s_execute_dft_c2r'}
    loc = 'SEFramework/src/lib/FFT/FFT.cpp'
    for t, p in (('float', 'fftwf'), ('double', 'fftw')):
        for m, g in want.items():
            v = F.vars.get('SourceXtractor::FFTTraits<%s>::%s' % (t, m))
            ini = [x['n'] for x in walk(v['v'].get('init'))if x['k'] == 'ref'] if v else []
            if not ini:
                ck.undecided('direction', loc, 'FFTTraits<%s>::%s has no initialiser' % (t, m))
            elif ini == [g % p]:
                ck.holds('direction', loc, 'FFTTraits<%s>::%s is %s' % (t, m, ini[0]))
            else:
                ck.fail('direction', loc, 'FFTTraits<%s>::%s is %s, required %s' % (t, m, ini, g % p))
    vec, plan = sym('inout', 'o'), sym('plan', 'o')
    for cta in ('<float>', '<double>'):
        for nm, m in (('executeForward', 'func_execute_fwd'), ('executeInverse', 'func_execute_inv'), ('createForwardPlan', 'func_plan_fwd'), ('createInversePlan', 'func_plan_inv')):
            fs = [f for f in F.funcs.values() if f['n'] == nm and f.get('cta') == cta and f.get('body')]
            if not fs:
                ck.undecided('direction', loc, 'no ' + nm)
                continue
            f = fs[0]
            plan_ = nm.startswith('create')
            s = summarise(F, f, args={0: sym('width', 'i'), 1: sym('height', 'i'), 2: vec} if plan_ else {0: plan, 1: vec})
            es = [e for e in s.effects if e.kind == 'call' and e.d.get('q') == 'apply' and isinstance(e.d.get('obj'), T) and 'func_' in show(e.d['obj']) and 'destroy' not in show(e.d['obj'])]
            if len(es) != 1:
                ck.undecided('direction', f, '%s calls %d transform functions' % (nm, len(es)))
                continue
            q = 'SourceXtractor::FFTTraits%s::%s' % (cta, m)
            got = show(es[0].d['obj'])
            if q in got:
                ck.holds('direction', f, '%s%s runs %s' % (nm, cta, m))
            else:
                ck.fail('direction', f, '%s%s runs %s instead of %s' % (nm, cta, got, q))
            a = [x for x in es[0].d['args'] if isinstance(x, T)]
            bufs = a[2:4] if plan_ else a[1:3]
            d = mk('app', ('data', vec), 'o')
            if len(bufs) == 2 and all(show(b) == show(d) for b in bufs):
                ck.holds('direction', f, '%s%s works in place on the buffer of the caller' % (nm, cta))
            else:
                ck.undecided('direction', f, '%s%s: buffers %s' % (nm, cta, [show(b) for b in bufs]))


# ------------------------------------------------------------------ (c) rounding
def rounding(ck, F):
    fs = F.fn('fftRoundDimension')
    if not fs:
        return ck.undecided('round', 'SEFramework/src/lib/FFT/FFT.cpp', 'no fftRoundDimension')
    f = fs[0]
    tab = {}
    num_ = {}
    for n in walk(f['body']):
        if n['k'] == 'decl':
            for v in n['vars']:
                i = locks.strip(v['init']) if v.get('init') else None
                if i is not None and i.get('k') == 'init' and all(locks.strip(c).get('k') == 'int' for c in i['e']):
                    tab[v['n']] = [locks.strip(c)['v'] for c in i['e']]
                elif i is not None:
                    num_[v['n']] = i
    x = sym('size', 'i')
    s = summarise(F, f, args={0: x})
    r = s.ret
    if not isinstance(r, T):
        return ck.undecided('round', f, 'no value')
    env = {}
    for t in subterms(r):
        if t.op == 'app' and t.a[0] == 'glob' and str(t.a[1]).split('::')[-1] in num_:
            c = evalc(num_[str(t.a[1]).split('::')[-1]], tab)
            if c is not None:
                env[t] = num(c, 'i')
    r = subst(r, env)
    pos = [ge(x, ONE)]
    try:
        cs = list(cases(pos, (r,)))
    except Giveup:
        return ck.undecided('round', f, show(r))
    for lits, (v,) in cs:
        if not lits_feasible(lits):
            continue
        els = [t for t in subterms(v) if t.op == 'app' and t.a[0] == 'elem' and t.a[1].op == 'app' and t.a[1].a[0] == 'glob' and str(t.a[1].a[1]).split('::')[-1] in tab]
        if not els:
            g, fs = nodiv(ge(v, x), list(lits))
            fs = [nodiv(p, fs)[0] for p in fs]
            if not entails(fs, g):
                for k in range(1, 6000):
                    c = {x: num(k, 'i')}
                    if all(subst(p, c) is TRUE for p in lits) and (const(subst(v, c)) or k) < k:
                        ck.fail('round', f, 'size %d is rounded to %d' % (k, const(subst(v, c))))
                        break
                else:
                    ck.undecided('round', f, 'rounded size ' + show(v))
                continue
            ck.entail('round', f, fs, g, what='rounded size for large sizes')
            continue
        T_ = tab[str(els[0].a[1].a[1]).split('::')[-1]]
        if v is not els[0] or len(els) != 1:
            ck.undecided('round', f, 'lookup result ' + show(v))
            continue
        idx = els[0].a[2]
        ck.entail('round', f, list(lits), band(ge(idx, num(0)), lt(idx, num(len(T_)))), what='the lookup stays inside the table of %d entries' % len(T_))
        off = const(sub(idx, x))
        if off is None:
            ck.undecided('round', f, 'index ' + show(idx))
            continue
        bad = [(k - off, T_[k]) for k in range(len(T_)) if k - off >= 1 and T_[k] < k - off]
        if bad:
            ck.fail('round', f, 'size %d is rounded to %d' % bad[0])
        else:
            ck.holds('round', f, 'each of the %d table entries is at least the size it stands for' % len(T_))


def evalc(n, tab):
    n = locks.strip(n)
    if n['k'] == 'int':
        return n['v']
    if n['k'] == 'sizeof':
        return n.get('v')
    if n['k'] == 'bin':
        a, b = evalc(n['x'], tab), evalc(n['y'], tab)
        if a is None or b is None:
            return None
        return {'+': a + b, '-': a - b, '*': a * b, '/': a // b if b else None}.get(n['op'])
    return None


# ------------------------------------------------------------------ views
def vdim(img, which):
    if img.op == 'app' and img.a[0] == 'view':
        k = img.a[1]
        if k in ('padded',):
            return img.a[3 if which == 'width' else 4]
        return vdim(img.a[2], which)
    if img is KER:
        return add(mul(TWO, A if which == 'width' else B), ONE)
    if img is IMG:
        return Wd if which == 'width' else Hd
    return dim(img, which)


def vpix(img, x, y, facts):
    """(value, None) or (None, why): pixel (x, y) of a view, as C06 establishes for the view classes"""
    if img.op == 'app' and img.a[0] == 'view':
        k = img.a[1]
        src = img.a[2]
        if k == 'copy':
            return vpix(src, x, y, facts)
        if k == 'mirror':
            return vpix(src, sub(sub(vdim(src, 'width'), x), ONE), sub(sub(vdim(src, 'height'), y), ONE), facts)
        if k == 'recenter':
            cx, cy = img.a[3], img.a[4]
            r = []
            for t, n in ((add(x, cx), vdim(src, 'width')), (add(y, cy), vdim(src, 'height'))):
                if entails(facts, band(ge(t, num(0)), lt(t, n))):
                    r.append(t)
                elif entails(facts, band(ge(t, n), lt(t, add(n, n)))):
                    r.append(sub(t, n))
                else:
                    return None, 'position %s modulo %s' % (show(t), show(n))
            return vpix(src, r[0], r[1], facts)
        if k == 'padded':
            lp, tp = pad(img)
            return mk('app', ('ext', src, img.a[5] if len(img.a) > 5 else num(0), sub(x, lp), sub(y, tp)), 'r'), None
    return pix(img, x, y), None


def pad(img):
    src = img.a[2]
    return app('idiv', (sub(img.a[3], vdim(src, 'width')), TWO), 'i'), app('idiv', (sub(img.a[4], vdim(src, 'height')), TWO), 'i')


def inside(e, facts):
    """pixel of the source behind ext(src, ., x, y): inside / outside / unknown"""
    src, x, y = e.a[1], e.a[3], e.a[4]
    g = band(ge(x, num(0)), lt(x, vdim(src, 'width')), ge(y, num(0)), lt(y, vdim(src, 'height')))
    if entails(facts, g):
        return True
    if entails(facts, bnot(g)):
        return False
    return None


def vhandlers(F, log, par=(0, 0)):
    def size(which):
        def h(it, n, st):
            o = n.get('obj')
            if o is None:
                return None
            img = it.objval(o, st)
            if not isinstance(img, T) or (img, '#class') in st.heap:
                return None
            if img.op == 'app' and img.a[0] == 'view' or img in (IMG, KER):
                return vdim(img, which)
            if not isimg(o.get('t')) and 'Image' not in o.get('t', ''):
                return None
            if img.op == 'app' and img.a[0] == 'chunk':
                return dim(img, which)
            return dim(img, which)
        return h

    def setv(it, n, st):
        o = n.get('obj')
        if o is None or not isimg(o.get('t')):
            return None
        img = it.objval(o, st)
        if not isinstance(img, T) or (img, '#class') in st.heap:
            return None
        av = [it._t(it.val(it.arg(x, m, st), st), st) for x, m in zip(n['args'], n.get('pm', '') + 'v' * 9)]
        if len(av) != 3:
            return None
        it.effect('setpix', st, n, img=img, x=av[0], y=av[1], val=av[2])
        return num(0)

    def create(it, n, st):
        q = n['q']
        av = [it.val(it.arg(x, m, st), st) for x, m in zip(n['args'], n.get('pm', '') + 'v' * 9)]
        av = [it.rd(st, v.lv, '') if isinstance(v, Ref) else v for v in av]
        if not av or not all(isinstance(v, T) for v in av):
            return None
        if 'PaddedImage' in q and len(av) >= 3:
            return mk('app', ('view', 'padded') + tuple(av), 'o')
        if 'MirrorImage' in q and len(av) == 1:
            return mk('app', ('view', 'mirror', av[0]), 'o')
        if 'VectorImage' in q and len(av) == 1:
            return mk('app', ('view', 'copy', av[0]), 'o')
        if 'RecenterImage' in q and len(av) == 2:
            c = [it._t(it.hread(st, av[1], m, 'int'), st) for m in ('m_x', 'm_y')]
            return mk('app', ('view', 'recenter', av[0], c[0], c[1]), 'o')
        return None

    def rnd(it, n, st):
        a = it._t(it.val(it.arg(n['args'][0], 'v', st), st), st)
        for v, s, p in ((Wd, M, par[0]), (Hd, N, par[1])):
            if v in subterms(a):
                r = add(mul(TWO, s), num(p, 'i'))
                log.append(ge(r, a))
                return r
        return None

    def div_(it, n, st):
        a = [it._t(it.val(it.arg(x, 'v', st), st), st) for x in n['args']]
        o = it.fresh('obj', 'o')
        st.heap[(o, 'quot')] = app('idiv', tuple(a), 'i')
        st.heap[(o, 'rem')] = app('imod', tuple(a), 'i')
        return o

    def plan(d):
        def h(it, n, st):
            a = [it.val(it.arg(x, m, st), st) for x, m in zip(n['args'], 'vvr')]
            v = it.rd(st, a[2].lv, '') if isinstance(a[2], Ref) else a[2]
            w, h_ = it._t(a[0], st), it._t(a[1], st)
            r = mk('app', ('plan', d, w, h_), 'o')
            it.effect('plan', st, n, d=d, w=w, h=h_, vec=v, ret=r)
            return r
        return h

    def execute(d):
        def h(it, n, st):
            a = [it.val(it.arg(x, 'r', st), st) for x in n['args']]
            a = [it.rd(st, x.lv, '') if isinstance(x, Ref) else x for x in a]
            it.effect('exec', st, n, d=d, plan=a[0], vec=a[1])
            return num(0)
        return h
    h = {'setValue': setv, 'create': create, 'getWidth': size('width'), 'getHeight': size('height'), 'SourceXtractor::fftRoundDimension': rnd, 'div': div_, 'std::div': div_,
         'createForwardPlan': plan('fwd'), 'createInversePlan': plan('inv'), 'executeForward': execute('fwd'), 'executeInverse': execute('inv')}
    return handlers(F, h)


# ------------------------------------------------------------------ (e) DFT convolution
def dft(ck, F, par):
    cls = 'DFTConvolution<float, SourceXtractor::PaddedImage<float>>'
    get = lambda nm, k: [f for f in F.funcs.values() if f['n'] == nm and cls in f['q'] and len(f['params']) == k and f.get('body') and not f.get('dep')]
    fp, fc = get('prepare', 1), get('convolve', 2)
    ct = [f for f in F.funcs.values() if f.get('fk') == 'ctor' and cls in f['q'] and 'Context' not in f['q'] and len(f['params']) == 1 and not f.get('implicit')]
    if not fp or not fc or not ct:
        return ck.undecided('padding', 'SEFramework/SEFramework/Convolution/DFT.h', 'prepare / convolve not found')
    fp, fc = fp[0], fc[0]
    log = []
    hs = vhandlers(F, log, par)
    base = [ge(A, num(0)), ge(B, num(0)), ge(Wd, ONE), ge(Hd, ONE), ge(M, num(0)), ge(N, num(0))]
    st = State()
    st.pc = list(base)
    it = Interp(F, handlers=hs)
    this = sym('this', 'o')
    s0 = summarise(F, ct[0], args={0: KER}, this=this, st=st, interp=it)
    st = s0.st
    m0 = len(it.effects)
    s1 = summarise(F, fp, args={0: IMG}, this=this, st=st, interp=it)
    e1 = it.effects[m0:]
    ctx = s1.ret
    pl = [e for e in e1 if e.kind == 'plan']
    ex = [e for e in e1 if e.kind == 'exec']
    where = 'padded sizes %s x %s' % tuple('odd' if p else 'even' for p in par)
    if {e.d['d'] for e in pl} != {'fwd', 'inv'} or len(ex) != 1:
        return ck.undecided('direction', fp, 'prepare makes %s plans and runs %d transforms' % ([e.d['d'] for e in pl], len(ex)))
    PW, PH = pl[0].d['w'], pl[0].d['h']
    for e in pl[1:]:
        ck.eqv('direction', fp, e.d['w'], PW, facts=base + log, what='both plans have the same width')
        ck.eqv('direction', fp, e.d['h'], PH, facts=base + log, what='both plans have the same height')
    KW, KH = vdim(KER, 'width'), vdim(KER, 'height')
    facts = base + log
    ck.entail('padding', fp, facts, ge(PW, sub(add(Wd, KW), ONE)), what='transform width >= image width + kernel width - 1')
    ck.entail('padding', fp, facts, ge(PH, sub(add(Hd, KH), ONE)), what='transform height >= image height + kernel height - 1')
    stride = mul(TWO, add(app('idiv', (PW, TWO), 'i'), ONE))
    need = mul(PH, stride)
    kvec = ex[0].d['vec']
    # buffers
    work = pl[0].d['vec']
    for nm, v in (('kernel buffer', kvec), ('work area', work)):
        rs = [e for e in e1 if e.kind == 'resize' and e.d['obj'] is v]
        planned = any(e.d['vec'] is v for e in pl)
        if rs:
            ck.entail('buffer', fp, facts, ge(rs[-1].d['size'], need), what='%s holds the transform' % nm)
        elif planned:
            ck.holds('buffer', fp, '%s is sized by the planner' % nm)
        else:
            ck.undecided('buffer', fp, '%s: no size set' % nm)
    if ex[0].d['d'] != 'fwd' or ex[0].d['plan'] is not [e for e in pl if e.d['d'] == 'fwd'][0].d['ret']:
        ck.fail('direction', fp, 'the kernel is transformed with %s' % show(ex[0].d['plan']))
    else:
        ck.holds('direction', fp, 'the kernel is transformed with the forward plan of that size')
    # kernel buffer contents
    r = fill(e1, kvec, stride, ex[0], facts, PH)
    if r[0] is False:
        ck.fail('kernel', fp, '%s: %s' % (where, r[1]))
    elif r[0] is None:
        ck.undecided('kernel', fp, '%s: %s' % (where, r[1]))
    else:
        val, dom = r
        for sx_ in (0, 1):
            for sy in (0, 1):
                fs = facts + [ge(P, num(0)), lt(P, KW), ge(Q, num(0)), lt(Q, KH)]
                fs += [lt(P, A) if sx_ else ge(P, A), lt(Q, B) if sy else ge(Q, B)]
                u, v = sub(P, A), sub(Q, B)
                if sx_:
                    u = add(u, PW)
                if sy:
                    v = add(v, PH)
                fs += [ge(PW, sub(add(Wd, KW), ONE)), ge(PH, sub(add(Hd, KH), ONE))]
                tag = '%s, tap %s and %s the centre' % (where, 'left of' if sx_ else 'right of', 'above' if sy else 'below')
                ck.entail('kernel', fp, fs, subst(dom, {U: u, V_: v}), what=tag + ': written')
                one_tap(ck, fp, val(u, v), fs, tag)
    # convolve
    m1 = len(it.effects)
    s2 = summarise(F, fc, args={0: IMG, 1: ctx}, this=this, st=s1.st, interp=it)
    e2 = it.effects[m1:]
    ex2 = [e for e in e2 if e.kind == 'exec']
    facts = base + log + [ge(PW, sub(add(Wd, KW), ONE)), ge(PH, sub(add(Hd, KH), ONE))]
    if [e.d['d'] for e in ex2] != ['fwd', 'inv'] or any(e.loops for e in ex2):
        if len(ex2) == 2 and not any(e.loops for e in ex2):
            return ck.fail('direction', fc, 'convolve runs transforms %s' % [e.d['d'] for e in ex2])
        return ck.undecided('direction', fc, 'convolve runs %d transforms' % len(ex2))
    work = ex2[0].d['vec']
    for e in ex2:
        want = [p for p in pl if p.d['d'] == e.d['d']][0].d['ret']
        if e.d['plan'] is want:
            ck.holds('direction', fc, 'convolve runs the %s transform with the plan prepared for it' % e.d['d'])
        elif e.d['plan'].op == 'app' and e.d['plan'].a[0] == 'plan':
            ck.fail('direction', fc, 'the %s transform is run with the %s plan' % (e.d['d'], show(e.d['plan'])))
        else:
            ck.undecided('direction', fc, 'plan ' + show(e.d['plan']))
    if ex2[1].d['vec'] is not work:
        return ck.undecided('result', fc, 'the inverse transform works on another buffer')
    # image
    r = fill(e2, work, stride, ex2[0], facts, PH)
    pim = None
    if r[0] is False:
        ck.fail('image', fc, '%s: %s' % (where, r[1]))
    elif r[0] is None:
        ck.undecided('image', fc, '%s: %s' % (where, r[1]))
    else:
        val, dom = r
        fs = facts + inrect(U, V_, PW, PH)
        ck.entail('image', fc, fs, dom, what=where + ': every sample of the transform is written')
        t = val(U, V_)
        vs = [x for x in subterms(t) if x.op == 'app' and x.a[0] == 'pix']
        if len(vs) != 1 or t is not vs[0]:
            ck.undecided('image', fc, where + ': transformed samples ' + show(t))
        else:
            pim = vs[0].a[1]
            v, why = vpix(pim, vs[0].a[2], vs[0].a[3], fs)
            if v is None or v.op != 'app' or v.a[0] != 'ext' or v.a[1] is not IMG:
                ck.undecided('image', fc, '%s: %s' % (where, why or show(v)))
                pim = None
            else:
                lp = sub(U, v.a[3])
                tp = sub(V_, v.a[4])
                pim = (lp, tp)
                # enough room for the kernel on both sides
                for n, l, k, p, im in (('columns', lp, A, PW, Wd), ('rows', tp, B, PH, Hd)):
                    entail_div(ck, 'padding', fc, facts, ge(l, k), '%s: at least half a kernel of padding before the image %s' % (where, n))
                    entail_div(ck, 'padding', fc, facts, le(add(l, im, k), p), '%s: at least half a kernel of padding after the image %s' % (where, n))
    # product
    product(ck, fc, e2, ex2, work, kvec, mul(PH, add(app('idiv', (PW, TWO), 'i'), ONE)), facts)
    # result
    out = [e for e in e2 if e.kind == 'setpix']
    if len(out) != 1 or out[0].d['img'] is not IMG:
        return ck.undecided('result', fc, '%d pixel writes' % len(out))
    e = out[0]
    m, guard_ = solve(e, e.d['x'], e.d['y'], I, J)
    if m is None:
        return ck.undecided('result', fc, 'written position %s, %s' % (show(e.d['x']), show(e.d['y'])))
    fs = facts + inrect(I, J, Wd, Hd)
    ck.entail('result', fc, fs, band(*[subst(p, m) for p in e.pc]), what=where + ': every pixel of the image is written')
    val = subst(e.d['val'], m)
    el = [x for x in subterms(val) if x.op == 'app' and x.a[0].startswith('elem') and x.a[1] is work]
    if len(el) != 1:
        return ck.undecided('result', fc, where + ': value ' + show(val))
    if pim is not None:
        eqdiv(ck, 'result', fc, el[0].a[2], add(I, pim[0], mul(add(J, pim[1]), stride)), fs, where + ': position read')
    Z = sym('sample', 'r')
    eqdiv(ck, 'result', fc, subst(val, {el[0]: Z}), div(Z, mul(PW, PH)), fs, where + ': normalisation')


def nodiv(t, facts):
    """remainders as dividend minus quotient, quotients of even numbers resolved, what is left bounded: (term, facts)"""
    for k in range(4):
        env = {}
        for x in subterms(t):
            if x.op == 'app' and x.a[0] == 'imod' and (const(x.a[2]) or 0) > 0:
                env[x] = sub(x.a[1], mul(x.a[2], app('idiv', (x.a[1], x.a[2]), 'i')))
        t2 = simp_div(subst(t, env) if env else t, facts)
        if t2 is t:
            break
        t = t2
    out = list(facts)
    for x in subterms(t):
        if x.op == 'app' and x.a[0] == 'idiv' and (const(x.a[2]) or 0) > 0 and entails(facts, ge(x.a[1], num(0))):
            c = x.a[2]
            out += [le(mul(c, x), x.a[1]), le(x.a[1], add(mul(c, x), sub(c, ONE)))]
    return t, out


def eqdiv(ck, rule, f, got, want, facts, what):
    g2, fs = nodiv(got, facts)
    w2, fs2 = nodiv(want, facts)
    if equal(g2, w2, fs + fs2)[0]:
        return ck.holds(rule, f, what)
    r, why = TT.equal_div(got, want, facts)
    if r:
        return ck.holds(rule, f, what)
    if r is None or lost(got) or foreign(got, want):
        return ck.undecided(rule, f, '%s: %s; %s' % (what, why, show(got)))
    return ck.fail(rule, f, '%s: code computes %s, required %s; differs for %s' % (what, show(got), show(want), why))


def entail_div(ck, rule, f, facts, goal, what):
    g2, fs = nodiv(goal, facts)
    if entails(fs, g2):
        return ck.holds(rule, f, what)
    return eqdiv(ck, rule, f, to_num(goal), ONE, facts, what)


def one_tap(ck, f, t, fs, tag):
    vs = [x for x in subterms(t) if x.op == 'app' and x.a[0] == 'pix']
    if len(vs) != 1 or t is not vs[0]:
        return ck.undecided('kernel', f, '%s: stored value %s' % (tag, show(t)))
    img = vs[0].a[1]
    # the recentring modulo: decide the case after splitting the halves
    v, why = vpix_div(img, vs[0].a[2], vs[0].a[3], fs)
    if v is None:
        bad = kernel_point(img, vs[0].a[2], vs[0].a[3], fs)
        if bad:
            return ck.fail('kernel', f, '%s: %s' % (tag, bad))
        return ck.undecided('kernel', f, '%s: %s' % (tag, why))
    if v.op == 'app' and v.a[0] == 'ext' and v.a[1] is KER:
        eqdiv(ck, 'kernel', f, v.a[3], P, fs, tag + ': column of the kernel')
        eqdiv(ck, 'kernel', f, v.a[4], Q, fs, tag + ': row of the kernel')
    elif v.op == 'app' and v.a[0] == 'pix' and v.a[1] is KER:
        eqdiv(ck, 'kernel', f, v.a[2], P, fs, tag + ': column of the kernel')
        eqdiv(ck, 'kernel', f, v.a[3], Q, fs, tag + ': row of the kernel')
    else:
        ck.undecided('kernel', f, '%s: %s' % (tag, show(v)))


def kernel_point(img, x, y, fs):
    """small concrete sizes for which the stored pixel is not the kernel tap (p, q)"""
    def ev(t, m):
        return const(subst(t, m))
    import itertools
    for a, b, w, h, m, n in itertools.product((1, 2), (1, 2), (1, 2), (1, 2), (2, 3, 4), (2, 3, 4)):
        e = {A: num(a, 'i'), B: num(b, 'i'), Wd: num(w, 'i'), Hd: num(h, 'i'), M: num(m, 'i'), N: num(n, 'i')}
        for p, q in itertools.product(range(2 * a + 1), range(2 * b + 1)):
            e[P], e[Q] = num(p, 'i'), num(q, 'i')
            if any(subst(f, e) is not TRUE for f in fs):
                continue
            i, X, Y = img, ev(x, e), ev(y, e)
            while i.op == 'app' and i.a[0] == 'view' and X is not None and Y is not None:
                if i.a[1] == 'recenter':
                    W_, H_, cx, cy = (ev(t, e) for t in (vdim(i.a[2], 'width'), vdim(i.a[2], 'height'), i.a[3], i.a[4]))
                    if None in (W_, H_, cx, cy) or X + cx < 0 or Y + cy < 0:
                        return None
                    X, Y = (X + cx) % W_, (Y + cy) % H_
                elif i.a[1] == 'padded':
                    l, t = (ev(z, e) for z in pad(i))
                    if l is None or t is None:
                        return None
                    X, Y = X - l, Y - t
                elif i.a[1] == 'mirror':
                    X, Y = ev(vdim(i.a[2], 'width'), e) - 1 - X, ev(vdim(i.a[2], 'height'), e) - 1 - Y
                i = i.a[2]
            if i is KER and X is not None and Y is not None and (X, Y) != (p, q):
                return 'kernel tap (%d, %d) of a %dx%d kernel in a transform of %s x %s samples is replaced by tap (%d, %d)' % (p, q, 2 * a + 1, 2 * b + 1, ev(vdim(img, 'width'), e), ev(vdim(img, 'height'), e), X, Y)
    return None


def vpix_div(img, x, y, fs):
    """as vpix; a recentred position that may wrap either way is judged for the tap's own side"""
    if img.op == 'app' and img.a[0] == 'view' and img.a[1] == 'recenter':
        src, cx, cy = img.a[2:5]
        r = []
        for t, n in ((add(x, cx), vdim(src, 'width')), (add(y, cy), vdim(src, 'height'))):
            t, fs_ = nodiv(t, fs)
            if entails(fs, band(ge(t, num(0)), lt(t, n))):
                r.append(t)
            elif entails(fs, band(ge(t, n), lt(t, add(n, n)))):
                r.append(sub(t, n))
            else:
                return None, 'position %s modulo %s' % (show(t), show(n))
        return vpix(src, r[0], r[1], fs)
    return vpix(img, x, y, fs)


def simp_div(t, fs):
    """idiv(2 k + c, 2) for c in (0, 1) when 2 k + c is known to be non-negative"""
    env = {}
    for x in subterms(t):
        if x.op == 'app' and x.a[0] == 'idiv' and const(x.a[2]) == 2:
            ms = monos(x.a[1])
            c = ms.get((), 0)
            if all(k == int(k) and int(k) % 2 == 0 for mm, k in ms.items() if mm != ()) and c == int(c):
                fl = int(c) // 2
                if entails(fs, ge(x.a[1], num(0))):
                    env[x] = add(*[poly({mm: k / 2}) for mm, k in ms.items() if mm != ()], num(fl))
    return subst(t, env) if env else t


def fill(effects, vec, stride, until, facts, PH):
    """what a pair of loops stores into row-major buffer vec: (value as function of column and row, condition under which (U, V_) is written)"""
    k = [i for i, e in enumerate(effects) if e is until][0]
    ss = [e for e in effects[:k] if e.kind == 'store' and e.d['lv'][0] == 'elem' and e.d['lv'][1] is vec]
    if len(ss) != 1:
        return None, '%d stores into the buffer before the transform' % len(ss)
    e = ss[0]
    idx = e.d['lv'][2]
    cs = [(x, step) for L in e.loops if isinstance(L, Loop) for x, v0, step in L.vars if x in subterms(idx)]
    if len(cs) != 2:
        return None, 'index ' + show(idx)
    for (cx, _), (cy, _) in ((cs[0], cs[1]), (cs[1], cs[0])):
        kx, ky = deriv(idx, cx), deriv(idx, cy)
        if kx is num(1) and cx not in subterms(ky) and cy not in subterms(ky):
            g, fs = nodiv(ky, facts)
            if not equal(g, nodiv(stride, facts)[0], fs)[0]:
                if TT.equal_div(ky, stride, facts + [ge(PH, TWO)])[0] is False:
                    return False, 'rows are stored %s values apart, the transform expects %s' % (show(ky), show(stride))
                return None, 'row stride in %s is not %s' % (show(idx), show(stride))
            o = sub(sub(idx, cx), mul(cy, ky))
            if const(o) != 0:
                return None, 'offset ' + show(o)
            val = e.d['val']
            if not isinstance(val, T):
                return None, 'value'
            m = {cx: U, cy: V_}
            v0 = subst(val, m)
            return (lambda a, b: subst(v0, {U: a, V_: b})), band(*[subst(p, m) for p in e.pc if cx in subterms(p) or cy in subterms(p)])
    return None, 'row stride in %s is not %s' % (show(idx), show(stride))


def solve(e, x, y, i, j):
    """loop counters as functions of the written pixel"""
    m = {}
    for t, v in ((x, i), (y, j)):
        cs = [c for L in e.loops if isinstance(L, Loop) for c, v0, step in L.vars if c in subterms(t)]
        if len(cs) != 1 or deriv(t, cs[0]) is not num(1) or cs[0] in m:
            return None, None
        m[cs[0]] = sub(v, sub(t, cs[0]))
    return m, TRUE


def product(ck, f, effects, ex2, work, kvec, ncomplex, facts):
    k0, k1 = [[i for i, e in enumerate(effects) if e is x][0] for x in ex2]
    ss = [e for e in effects[k0:k1] if e.kind == 'store' and e.d['lv'][0] == 'elem']
    got = {}
    for e in ss:
        o, c = e.d['lv'][1], e.d['lv'][2]
        if o.op == 'app' and o.a[0].startswith('elem') and o.a[1] is work and const(c) in (0, 1):
            got.setdefault(int(const(c)), []).append((o.a[2], e))
    if set(got) != {0, 1} or any(len(v) != 1 for v in got.values()) or len(ss) != 2:
        return ck.undecided('product', f, '%d stores between the transforms' % len(ss))
    for c, [(ix, e)] in sorted(got.items()):
        cs = [(x, v0, L) for L in e.loops if isinstance(L, Loop) for x, v0, step in L.vars if x in subterms(ix)]
        if len(cs) != 1 or not equal(ix, cs[0][0])[0]:
            return ck.undecided('product', f, 'coefficient ' + show(ix))
        x, v0, L = cs[0]
        Z = sym('z', 'i')
        fs = facts + [ge(Z, num(0)), lt(Z, ncomplex)]
        ck.entail('product', f, fs, band(*[subst(p, {x: Z}) for p in e.pc if x in subterms(p)]), what='every coefficient is multiplied (%s part)' % ('imaginary' if c else 'real'))
        # and none past the end
        pcs = [p for p in e.pc if x in subterms(p)]
        ck.entail('product', f, facts + pcs, lt(x, ncomplex), what='no coefficient past the end (%s part)' % ('imaginary' if c else 'real'))
        E = lambda v, k: mk('app', ('elem', mk('app', ('elem', v, x), 'o'), num(k)), 'r')
        val = e.d['val']
        env = {}
        for t in subterms(val):
            if t.op == 'app' and t.a[0].startswith('elem') and isinstance(t.a[1], T) and t.a[1].op == 'app' and t.a[1].a[0].startswith('elem') and t.a[1].a[1] in (work, kvec) and equal(t.a[1].a[2], ix)[0] and const(t.a[2]) in (0, 1):
                env[t] = sym('%s%d' % ('a' if t.a[1].a[1] is work else 'k', int(const(t.a[2]))), 'r')
        v = subst(val, env)
        a0, a1, k0_, k1_ = (sym(n, 'r') for n in ('a0', 'a1', 'k0', 'k1'))
        ck.eqv('product', f, v, (sub(mul(a0, k0_), mul(a1, k1_)), add(mul(a0, k1_), mul(a1, k0_)))[c], what='%s part of the product' % ('imaginary' if c else 'real'))


# ------------------------------------------------------------------ (f) direct
def direct(ck, F):
    cls = 'DirectConvolution<float, SourceXtractor::PaddedImage<float>>'
    fs = [f for f in F.funcs.values() if f['n'] == 'convolve' and cls in f['q'] and f.get('body') and not f.get('dep')]
    ct = [f for f in F.funcs.values() if f.get('fk') == 'ctor' and cls in f['q'] and 'Context' not in f['q'] and len(f['params']) == 1 and not f.get('implicit')]
    if not fs or not ct:
        return ck.undecided('direct', 'SEFramework/SEFramework/Convolution/DirectConvolution.h', 'convolve not found')
    f = fs[0]
    log = []
    it = Interp(F, handlers=vhandlers(F, log))
    base = [ge(A, num(0)), ge(B, num(0)), ge(Wd, ONE), ge(Hd, ONE)]
    st = State()
    st.pc = list(base)
    this = sym('this', 'o')
    s0 = summarise(F, ct[0], args={0: KER}, this=this, st=st, interp=it)
    m = len(it.effects)
    s = summarise(F, f, args={0: IMG}, this=this, st=s0.st, interp=it)
    es = [e for e in it.effects[m:] if e.kind == 'setpix' and e.d['img'] is IMG]
    if len(es) != 1:
        return ck.undecided('direct', f, '%d pixel writes' % len(es))
    e = es[0]
    mp, _ = solve(e, e.d['x'], e.d['y'], I, J)
    if mp is None:
        return ck.undecided('direct', f, 'written position')
    facts = base + inrect(I, J, Wd, Hd)
    pcs = [simp_div(subst(p, mp), base) for p in e.pc]
    ck.entail('direct', f, facts, band(*pcs), what='every pixel of the image is written')
    pcx = [simp_div(p, base) for p in e.pc]
    x, y = simp_div(e.d['x'], base), simp_div(e.d['y'], base)
    ck.entail('direct', f, base + pcx, band(ge(x, num(0)), lt(x, Wd), ge(y, num(0)), lt(y, Hd)), what='no pixel outside the image is written')
    val = simp_div(subst(e.d['val'], mp), base)
    fo = unfold(val)
    if fo is None:
        return ck.undecided('direct', f, 'value ' + show(val))
    KW, KH = vdim(KER, 'width'), vdim(KER, 'height')
    b, why = over_rect(fo, P, Q, KW, KH, base)
    if b is False:
        return ck.fail('direct', f, why)
    if b is None:
        return ck.undecided('direct', f, why)
    ck.eqv('direct', f, fo.base, num(0), what='initial value of the sum')
    fs = facts + [ge(P, num(0)), lt(P, KW), ge(Q, num(0)), lt(Q, KH)]
    env = {}
    for t in subterms(b):
        if t.op == 'app' and t.a[0] == 'pix':
            v, why = vpix(t.a[1], t.a[2], t.a[3], fs)
            if v is None:
                return ck.undecided('direct', f, why)
            v = simp_div(v, fs)
            env[t] = v
    b = simp_div(subst(b, env), fs)
    ext = [t for t in subterms(b) if t.op == 'app' and t.a[0] == 'ext' and t.a[1] is IMG]
    kp = [t for t in subterms(b) if t.op == 'app' and t.a[0] == 'pix' and t.a[1] is KER]
    if len(ext) != 1 or len(kp) != 1 or b is not mul(ext[0], kp[0]):
        return ck.undecided('direct', f, 'term of the sum: ' + show(b))
    # tap (s, t) of the kernel meets image pixel (i - (s - a), j - (t - b))
    S_, T_ = kp[0].a[2], kp[0].a[3]
    ck.eqv('direct', f, ext[0].a[3], sub(I, sub(S_, A)), facts=fs, what='column of the image met by a kernel tap')
    ck.eqv('direct', f, ext[0].a[4], sub(J, sub(T_, B)), facts=fs, what='row of the image met by a kernel tap')
    ck.entail('direct', f, fs, band(ge(S_, num(0)), lt(S_, KW), ge(T_, num(0)), lt(T_, KH)), what='kernel taps are inside the kernel')
    # every tap exactly once: the map (p, q) -> (s, t) is a reflection or the identity
    for n, z, v, k in (('columns', S_, P, KW), ('rows', T_, Q, KH)):
        if equal(z, v)[0] or equal(z, sub(sub(k, ONE), v))[0]:
            ck.holds('direct', f, 'every kernel tap is used exactly once (%s)' % n)
        else:
            ck.undecided('direct', f, 'taps ' + show(z))
    # no half-updated source: the padded image is copied before pixels are written
    src = [x for t in env for x in [t.a[1]] if 'copy' in show(x)]
    pads = [t.a[1] for t in env if 'padded' in show(t.a[1])]
    if pads and all(x.op == 'app' and x.a[1] == 'copy' for x in pads):
        ck.holds('direct', f, 'the padded image is copied before the first pixel is overwritten')
    elif pads:
        ck.fail('direct', f, 'the padded image is a view of the image that is being overwritten')
