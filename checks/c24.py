"""C24: every declared configuration option is honoured"""
import glob as _glob
import re
from sx.props import *
from sx.facts import walk, REPO, Facts, tus
from sx.interp import summarise, Ref
from sx.own import peel
from sx.terms import *

NS = 'SourceXtractor::'
STR = 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>'

# option -> (getter, the value it reports as a function of the value given)
ID = lambda x: x
SPEC = {
    'background-value': 'getBackgroundLevel', 'detection-threshold': 'getDetectionThreshold',
    'check-image-model-fitting': 'getModelFittingImageFilename', 'check-image-residual': 'getModelFittingResidualFilename',
    'check-image-background': 'getBackgroundFilename', 'check-image-variance': 'getVarianceFilename',
    'check-image-segmentation': 'getSegmentationFilename', 'check-image-measurement-background': 'getMeasurementBackgroundFilename',
    'check-image-measurement-variance': 'getMeasurementVarianceFilename', 'check-image-partition': 'getPartitionFilename',
    'check-image-grouping': 'getGroupFilename', 'check-image-filtered': 'getFilteredFilename',
    'check-image-thresholded': 'getThresholdedFilename', 'check-image-snr': 'getSnrFilename',
    'check-image-auto-aperture': 'getAutoApertureFilename', 'check-image-aperture': 'getApertureFilename',
    'check-image-psf': 'getPsfFilename', 'check-image-ml-detection': 'getMLDetectionFilename',
    'debug-image-moffat': 'getMoffatFilename', 'check-image-fitting-window': 'getFittingWindowImageFilename',
    'detection-image': 'getDetectionImagePath',
    'grouping-hard-limit': 'getHardLimit', 'grouping-moffat-threshold': 'getMoffatThreshold', 'grouping-moffat-max-distance': 'getMoffatMaxDistance',
    'model-fitting-iterations': 'getMaxIterations', 'model-fitting-engine': 'getLeastSquaresEngine',
    'magnitude-zero-point': 'getMagnitudeZeroPoint', 'tile-memory-limit': 'getTileMaxMemory', 'tile-size': 'getTileSize',
    'thread-max-queue-size': 'getMaxQueueSize',
    'output-catalog-filename': 'getOutputFile', 'output-flush-size': 'getFlushSize', 'output-flush-sorted': 'getOutputUnsorted',
    'rng-seed': 'getSeed', 'sampling-scale-factor': 'getScaleFactor', 'sampling-max-fit-size': 'getMaxFitSize',
    'segmentation-lutz-window-size': 'getLutzWindowSize', 'segmentation-bfs-max-delta': 'getBfsMaxDelta',
    'segmentation-ml-model': 'getOnnxModelPath', 'segmentation-ml-threshold': 'getMLThreashold',
    'weight-absolute': 'isWeightAbsolute', 'weight-use-symmetry': 'symmetryUsage', 'assoc-radius': 'getAssocRadius',
    'auto-kron-factor': 'getAutoKronFactor', 'auto-kron-min-radius': 'getAutoKronMinrad',
    'core-threshold-value': 'getCoreThreshold', 'core-minimum-area': 'getCoreMinArea',
    'flux-growth-samples': 'getNSamples', 'vignet-default-pixval': 'getVignetDefaultPixval', 'plugin-directory': 'getPluginPath',
}
FORM = {'output-flush-size': lambda x: tmax(x, num(0)), 'output-flush-sorted': bnot}
# settings with several names
ALIAS = {('UNDEF', 'NONE'), ('BACKGROUND', 'FROM_BACKGROUND'), ('', 'UNKNOWN'), ('NONE', 'NO_GROUPING'), ('OVERLAP', 'OVERLAPPING'), ('SPLIT', 'SPLIT_SOURCES')}


def lit(F, n):
    """the string a node denotes, through constants"""
    for x in walk(n or {}):
        if x.get('k') == 'str':
            return x['v']
        if x.get('k') == 'ref' and x.get('q') in F.vars and 'string' in str(F.vars[x['q']]['v'].get('t')):
            return lit(F, F.vars[x['q']]['v'].get('init'))
    return None


def glit(F, t):
    """the same for a term"""
    for x in subterms(t) if isinstance(t, T) else ():
        if x.op == 'app' and x.a[0] == 'glob' and x.a[1] in F.vars and 'string' in str(F.vars[x.a[1]]['v'].get('t')):
            return lit(F, F.vars[x.a[1]]['v'].get('init'))
    q = set(re.findall(r"'g', '([^']+)'", str(t)))      # handed on by reference
    if len(q) == 1:
        q = q.pop()
        return lit(F, F.vars[q]['v'].get('init')) if q in F.vars else None
    return None


def short(t):
    return (t or '?').replace(STR, 'string').strip('<>')


class Module:
    def __init__(self, F, c, f):
        self.F, self.c, self.f = F, c, f
        self.name = c.split('::')[-1]
        self.opts = {}          # name -> (type, has default, node)
        self.sums = []
        self.unread = False     # something was read whose name is not known


def declared(ck, F, f):
    m = Module(F, f['q'].rsplit('::', 1)[0], f)
    for x in walk(f['body']):
        if x.get('k') not in ('ctor', 'init') or not (x.get('q') or x.get('t') or '').endswith('option_description') or len(x.get('args', [])) != 3:
            continue
        nm = lit(F, x['args'][0])
        ty = [short(y.get('ta')) if y['n'] == 'value' else 'bool' for y in walk(x['args'][1]) if y.get('k') == 'call' and y.get('n') in ('value', 'bool_switch')]
        de = any(y.get('k') == 'call' and y.get('n') in ('default_value', 'bool_switch', 'required') for y in walk(x['args'][1]))
        w = '%s:%s' % (f['file'], x.get('l'))
        if nm is None or len(ty) != 1:
            ck.undecided('declared', w, 'an option whose name or type is not understood')
            continue
        nm = nm.split(',')[0]
        ck.ok(nm not in m.opts, 'declared', w, 'option %s is declared once' % nm)
        m.opts[nm] = (ty[0], de, x.get('l'))
    return m


def sortof(t):
    return {'double': 'r', 'float': 'r', 'bool': 'b'}.get(t, 'i' if re.fullmatch(r'(unsigned )?(int|long|short|char)|unsigned', t) else 'o')


def reads(ck, m, opts_all, deps):
    F = m.F
    got = set()
    seen = {}
    cur = [None]

    def h(it, n, st):
        if 'variable_value' not in (n.get('q') or ''):
            return None
        o = it._t(it.val(it.ev(n['obj'], st), st), st)
        key = [x for x in subterms(o) if x.op == 'app' and x.a[0] == 'mget']
        nm = glit(F, key[0].a[2]) if key else None
        if nm is None:
            ks = {lit(F, c['args'][0]) for c in walk(n['obj']) if c.get('k') == 'call' and c.get('n') in ('at', 'find', 'operator[]') and c.get('args')}
            nm = ks.pop() if len(ks) == 1 else None
        w = '%s:%s' % (it_file(it, m), n.get('l'))
        if nm is None:
            m.unread = True
            seen[(n.get('l'), None)] = lambda: ck.undecided('read', w, 'which option is read is not understood')
            return None
        got.add(nm)
        pc = list(st.pc)
        has = mk('app', ('has',) + tuple(key[0].a[1:3]), 'b') if key else None
        seen.setdefault((n.get('l'), nm), []).append((nm, short(n.get('ta')), pc, has, w, cur[0]))
        return sym('opt:' + nm, sortof(short(n.get('ta'))))

    entries = [f for f in F.methods(m.c) if f.get('body') and f['n'] in ('preInitialize', 'initialize', 'postInitialize')]
    for f in sorted(entries, key=lambda f: ['preInitialize', 'initialize', 'postInitialize'].index(f['n'])):
        cur[0] = f['n']
        try:
            m.sums.append((f, summarise(F, f, handlers={'as': h}, maxdepth=6)))
        except Exception as e:
            ck.undecided('read', f, 'not analysed: %s' % str(e)[:100])
    for k, v in seen.items():
        if callable(v):
            v()
            continue
        for nm, ty, pc, has, w, f0 in v[:4]:
            if nm in m.opts:
                dt, de, _ = m.opts[nm]
                ck.ok(ty == dt, 'type', w, 'option %s is declared as %s and read as %s' % (nm, dt, ty))
                if not de:
                    present(ck, w, nm, pc + rejected(m, f0), has, F, family(m, f0))
            elif nm in opts_all:
                o = opts_all[nm]
                ck.ok(o[0] == ty, 'type', w, 'option %s is declared as %s and read as %s' % (nm, o[0], ty))
                if not o[1]:
                    present(ck, w, nm, pc + rejected(m, f0), has, F, family(m, f0))
            else:
                ck.ok(False, 'read', w, 'option %s is read but no module declares it' % nm)
    m.got = got
    for nm, (ty, de, l) in m.opts.items():
        # named at all in another function of the module, which was not followed
        other = any(lit(F, x) == nm for f in F.funcs.values() if f.get('body') and f['file'] == m.f['file'] and f['n'] != 'getProgramOptions' for x in walk(f['body']) if x.get('k') == 'ref' and x.get('dk') == 'global')
        ck.ok(True if nm in got else None if other or not entries else False, 'read', '%s:%s' % (m.f['file'], l), 'option %s is read back by its module' % nm)


def it_file(it, m):
    return m.f['file']


def clean(ts):
    """replace what is computed by unknown functions by names, consistently"""
    memo = {}

    def f(x):
        if x.op == 'app' and (str(x.a[0]).startswith(('call:', 'new:', 'apply')) or x.a[0] in ('glob', 'str')):
            return memo.setdefault(x, sym('v%d' % len(memo), x.sort))
        return None

    def g(x):
        r = f(x)
        return r if r is not None else rebuild(x, g)
    return [g(t) for t in ts]


def rejected(m, phase):
    """what cannot be in this phase, because an earlier one throws"""
    out = []
    for f, s in m.sums:
        if phase != 'preInitialize' and f['n'] == 'preInitialize':
            out += [bnot(band(*x.pc)) for x in s.effects if x.kind == 'throw' and x.pc and not x.loops]
    return out


def family(m, phase):
    return any(x.kind == 'throw' and any('has(' in str(p) for p in x.pc) for f, s in m.sums for x in s.effects if phase != 'preInitialize' and f['n'] == 'preInitialize')


def present(ck, w, nm, pc, has, F, fam=False):
    what = 'option %s has no default and is read only when given' % nm
    if has is None:
        ck.undecided('present', w, what)
        return
    if not isinstance(has.a[2], T) or any(x.op == 'app' and x.a[0] not in ('glob', 'map0') and isinstance(x.a[0], str) for x in subterms(has.a[2])) or has.a[2].op == 'obj' or glit(F, has.a[2]) is None:
        # a name built from a wildcard: any test of an option of that family
        ck.ok(True if any('has(' in str(p) for p in pc) or fam else None, 'present', w, what)
        return
    k = sym('given:' + nm, 'b')
    hs = sorted({x for p in pc for x in subterms(p) if x.op == 'app' and x.a[0] == 'has' and x is not has}, key=str)
    env = {has: k}
    env.update({x: sym('has%d' % i, 'b') for i, x in enumerate(hs)})
    ps = clean([subst(p, env) for p in pc])
    if not any(k in list(subterms(p)) for p in ps):
        ck.ok(False, 'present', w, what)
        return
    ck.entail('present', w, ps, k, exact=[x for p in ps for x in subterms(p)], what=what)


def values(ck, m):
    F = m.F
    for nm, getter in SPEC.items():
        if nm not in m.opts:
            continue
        g = [f for f in F.methods(m.c) if f['n'] == getter]
        if not g:
            ck.undecided('value', m.f, 'option %s: no getter %s' % (nm, getter))
            continue
        bodies = [f for f in g if f.get('body')]
        if not bodies:
            ck.undecided('value', m.f, 'option %s: getter %s is not seen' % (nm, getter))
            continue
        g = bodies[0]
        mem = {x['n'] for x in walk(g['body']) if x.get('k') == 'mem' and x.get('n', '').startswith('m_')}
        o = sym('opt:' + nm, sortof(m.opts[nm][0]))
        st = [(f, s, e) for f, s in m.sums for e in s.effects if e.kind in ('store', 'copy') and e.d.get('lv') and e.d['lv'][0] == 'fld' and e.d['lv'][1] is s.this and e.d['lv'][2] in mem]
        if len(mem) != 1:
            ck.undecided('value', g, '%s reports more than one member' % getter)
            continue
        if not st:
            # stored by other means (swap, assign): is the value used for it at all?
            other = any(o in list(subterms(a)) for f, s in m.sums for e in s.effects for a in e.d.values() if isinstance(a, T))
            ck.ok(None if other else False, 'value', g, 'option %s reaches %s' % (nm, getter))
            continue
        s0 = summarise(F, g)
        fl = mk('app', ('fld', list(mem)[0], s0.this), o.sort)
        ok = False
        sw = [(f, s, e) for f, s, e in st if isinstance(e.d['val'], T) and o not in list(subterms(e.d['val'])) and any(o in list(subterms(p)) for p in e.pc)]
        if sw:
            # the value decides which constant is stored
            want = FORM.get(nm, ID)(o)
            ps = clean([band(*[p for p in e.pc if o in list(subterms(p))]) for f, s, e in sw] + [e.d['val'] for f, s, e in sw])
            comp = want
            for (f, s, e), c, v in zip(sw, ps, ps[len(sw):]):
                comp = band(bor(bnot(c), v), bor(c, comp)) if o.sort == 'b' else ite(c, v, comp)
            f, s, e = sw[-1]
            ck.eqv('value', '%s:%s' % (f['file'], (e.node or {}).get('l')), comp, want, what='option %s is what %s reports' % (nm, getter))
            continue
        for f, s, e in st:
            v = e.d['val']
            if not isinstance(v, T):
                continue
            w = '%s:%s' % (f['file'], (e.node or {}).get('l'))
            src = [x for x in subterms(v) if x.op == 'sym' and str(x.a[0]).startswith('opt:')]
            if o not in src:
                if src:
                    ck.ok(False, 'value', w, '%s reports the value of %s, not of %s' % (getter, src[0].a[0][4:], nm))
                    ok = None
                continue
            ok = True
            r = s0.ret
            mine = [x for x in subterms(r) if x.op == 'app' and x.a[0] == 'fld' and x.a[1] == list(mem)[0]] if isinstance(r, T) else []
            r = subst(r, {x: v for x in mine}) if mine else v
            ck.eqv('value', w, r, FORM.get(nm, ID)(o), what='option %s is what %s reports' % (nm, getter))
            when(ck, w, nm, f, s, e, o)
        if ok is False:
            ck.ok(None if any_unread(m) else False, 'value', g, 'option %s does not reach %s' % (nm, getter))


def any_unread(m):
    return m.unread


def when(ck, w, nm, f, s, e, o):
    """given, and accepted, it is always stored"""
    th = [x for x in s.effects if x.kind == 'throw' and x.seq < e.seq]
    facts, goals = [], []
    for p in e.pc:
        if e.loops or any(k in str(p) for k in ('phi#', 'status#')) or not any(x.op == 'sym' and str(x.a[0]).startswith('opt:') or x.op == 'app' and x.a[0] == 'has' for x in subterms(p)):
            continue
        goals.append(p)
    hs = {x for p in e.pc for x in subterms(p) if x.op == 'app' and x.a[0] == 'has'}
    mine = [x for x in hs if glit(ck.F, x) == nm and 'args' in str(x)]
    pcs = [x.pc for x in th]
    allp = clean(goals + mine + [band(*p) if p else TRUE for p in pcs]) if True else ()
    gs, ms, ts = allp[:len(goals)], allp[len(goals):len(goals) + len(mine)], allp[len(goals) + len(mine):]
    facts = ms + [bnot(t) for t in ts]
    for raw, p in zip(goals, gs):
        if any(x.op == 'sym' and re.fullmatch(r'v\d+', str(x.a[0])) for x in subterms(p)):
            if entails(facts, p):
                ck.ok(True, 'value', w, 'option %s takes effect whenever it is given' % nm)
            elif o in list(subterms(raw)):
                ck.undecided('value', w, 'option %s takes effect when %s' % (nm, show(raw)[:120]))
            elif not any(raw in x.pc for x in s.effects if x.kind == 'store' and x.d['lv'] != e.d['lv']):
                ck.ok(False, 'value', w, 'option %s takes effect only when %s' % (nm, show(raw)[:120]))
            continue
        ck.entail('value', w, facts, p, exact=[x for q in facts + [p] for x in subterms(q)], what='option %s takes effect whenever it is given' % nm)


def dependencies(ck, m):
    F = m.F
    ctor = [f for f in F.methods(m.c) if f['n'] == m.name and f.get('body')]
    ms = [f for f in F.funcs.values() if f.get('body') and f['file'] == m.f['file'] and (f['q'].startswith(m.c + '::'))]
    inh = [f for f in F.methods(m.c) if f.get('body') and f not in ms]
    dec = {x.get('ta') for f in ms + inh for x in walk(f) if x.get('k') == 'call' and x.get('n') == 'declareDependency' and f in (ctor or ms)}
    dec |= {x.get('ta') for f in ms + inh if f['n'] == m.name for x in walk(f.get('body') or {}) if x.get('k') == 'call' and x.get('n') == 'declareDependency'}
    m.deps = dec
    for f in ms + inh:
        for x in walk(f['body']):
            if x.get('k') == 'call' and x.get('n') == 'getDependency' and x.get('ta'):
                ck.ok(x['ta'] in dec, 'depends', '%s:%s' % (f['file'], x.get('l')), '%s consults %s, which it declares as a dependency' % (m.name, short(x['ta'])))


def norm(x):
    return re.sub(r'[^A-Z0-9]', '', re.sub(r'^(WEIGHT_TYPE|GROUPING_ALGORITHM)_', '', x.upper()).replace('_GROUPING', ''))


def same(a, b):
    b = re.sub(r'^WEIGHT_TYPE_', '', b)
    return norm(a) == norm(b) or (a, b) in ALIAS


def enums(ck, m):
    F = m.F
    # tables of names
    used = {}
    for q, v in F.vars.items():
        if 'map<' not in str(v['v'].get('t')) or v['file'] != m.f['file'] or not v['v'].get('init'):
            continue
        et = [e for e in F.enums if re.search(re.escape(e) + r'\b', v['v']['t'])]
        if not et:
            continue
        vals = {}
        for x in walk(v['v']['init']):
            if x.get('k') != 'ctor' or not x['q'].endswith('std::pair'):
                continue
            k = [y['v'] for a in x['args'] for y in walk(a) if y.get('k') == 'str']
            e = [y['n'] for a in x['args'] for y in walk(a) if y.get('k') == 'ref' and y.get('n') in [c[0] for c in F.enums[et[0]]['c']]]
            w = '%s:%s' % (v['file'], x.get('l'))
            if len(k) != 1 or len(e) != 1:
                ck.undecided('enum', w, 'an entry of %s is not understood' % q)
                continue
            ck.ok(True if same(k[0], e[0]) else False if any(same(k[0], c[0]) for c in F.enums[et[0]]['c']) else None, 'enum', w, 'the name %s stands for the setting %s' % (k[0] or '(none)', e[0]))
            ck.ok(k[0] not in vals and k[0] == k[0].upper(), 'enum', w, 'the name %s can be chosen' % k[0])
            vals[k[0]] = e[0]
        miss = [c[0] for c in F.enums[et[0]]['c'] if c[0] not in vals.values() and c[0] != 'UNKNOWN']
        ck.ok(True if not miss else False, 'enum', '%s:%s' % (v['file'], v['v'].get('l')), 'every setting of %s has a name%s' % (et[0].split('::')[-1], ', not ' + ', '.join(miss) if miss else ''))
        used[q] = v
    # looking a name up: unknown names are errors
    for q, v in used.items():
        bad = {}
        for f in F.funcs.values():
            if not f.get('body') or f['file'] != m.f['file']:
                continue
            for x in walk(f['body']):
                if x.get('k') != 'call' or x.get('obj') is None or peel(x['obj']).get('q') != q:
                    continue
                n = x['n']
                w = '%s:%s' % (f['file'], x.get('l'))
                if n == 'at':
                    ck.ok(True, 'unknown', w, 'an unknown name is an error')
                elif n == 'operator[]':
                    bad[w] = f
        for w, f in bad.items():
            th = guarded(ck, F, f, q) or checked(ck, F, m, f, q)
            ck.ok(th, 'unknown', w, 'an unknown name is an error')
        for f in F.funcs.values():
            if f.get('body') and f['file'] == m.f['file'] and any(x.get('k') == 'call' and x.get('n') in ('find', 'count') and x.get('obj') is not None and peel(x['obj']).get('q') == q for x in walk(f['body'])):
                ck.ok(guarded(ck, F, f, q), 'unknown', f, 'a name that is not in %s is an error' % q.split('::')[-1])
    # chains of comparisons
    for f, s in m.sums:
        cases = {}
        for e in s.effects:
            if e.kind != 'store' or e.d['lv'][0] != 'fld' or not isinstance(e.d['val'], T) or const(e.d['val']) is None:
                continue
            pos = [p for p in e.pc if p.op != 'not' and str_eq(F, p)]
            if pos:
                cases.setdefault(e.d['lv'][2], []).append((e, str_eq(F, pos[-1])))
        for fld, cs in cases.items():
            en = [x for x in F.enums.values() if x['q'].startswith(m.c + '::') and all(any(const(e.d['val']) == c[1] for c in x['c']) for e, _ in cs)]
            ty = next((y.get('t') for r in F.rec_list(m.c) for y in r.get('fields', []) if y.get('n') == fld), '') if hasattr(F, 'rec_list') else ''
            if len(en) > 1:
                en = [x for x in en if x['q'] in str(ty)] or en
            if len(en) != 1:
                continue
            names = {c[1]: c[0] for c in en[0]['c']}
            for e, (k, up) in cs:
                w = '%s:%s' % (f['file'], (e.node or {}).get('l'))
                n = names.get(const(e.d['val']))
                ck.ok(True if same(k, n) else False if any(same(k, c) for c in names.values()) else None, 'enum', w, 'the name %s selects the setting %s' % (k, n))
                ck.ok(not up or k == k.upper(), 'enum', w, 'the name %s can be chosen' % k)
            th = [x for x in s.effects if x.kind == 'throw' and not any(p.op != 'not' and str_eq(F, p) for p in x.pc) and all(any(p.op == 'not' and str_eq(F, p.a[0]) and str_eq(F, p.a[0])[0] == k for p in x.pc) for e, (k, up) in cs)]
            ck.ok(bool(th), 'unknown', f, 'a name that is none of %s is an error' % ', '.join(k for _, (k, up) in cs))


def str_eq(F, p):
    """p is <value of an option> == <string>: the string, and whether the value was made upper case"""
    if p.op not in ('eq', 'same', 'app') or 'opt:' not in str(p):
        return None
    if p.op in ('eq', 'same') or str(p.a[0]).endswith('operator=='):
        a = [x for x in p.a if isinstance(x, T)]
        if len(a) != 2:
            return None
        for x, y in (a, a[::-1]):
            if 'opt:' in str(x) and 'opt:' not in str(y):
                k = glit(F, y)
                if k is None:
                    c = [z.a[1] for z in subterms(y) if z.op == 'app' and z.a[0] == 'str' and isinstance(z.a[1], str)] or [z.a[0] for z in subterms(y) if z.op == 'str' and isinstance(z.a[0], str)]
                    k = c[0] if c else None
                if k is not None:
                    return k, 'to_upper' in str(x)
    return None


def checked(ck, F, m, f, q):
    """every caller of f looks the name up where that is an error first"""
    fs = [g for g in F.funcs.values() if g.get('body') and g['file'] == m.f['file']]
    safe = {g['q'] for g in fs if any(x.get('k') == 'call' and x.get('n') in ('find', 'count', 'at') and x.get('obj') is not None and peel(x['obj']).get('q') == q for x in walk(g['body'])) and (guarded(ck, F, g, q) or any(x.get('k') == 'call' and x.get('n') == 'at' and x.get('obj') is not None and peel(x['obj']).get('q') == q for x in walk(g['body'])))}
    while True:
        more = {g['q'] for g in fs if g['q'] not in safe and any(x.get('k') == 'call' and x.get('q') in safe for x in walk(g['body']))}
        if not more:
            break
        safe |= more
    res = []
    for g in fs:
        done = False
        for x in walk(g['body']):
            if x.get('k') == 'call' and x.get('q') in safe:
                done = True
            if x.get('k') == 'call' and x.get('q') == f['q']:
                res.append(done)
    return all(res) if res else False


def guarded(ck, F, f, q):
    """f throws exactly when the name is not in table q"""
    s = summarise(F, f)
    for x in s.effects:
        if x.kind != 'throw':
            continue
        for p in x.pc:
            hs = [y for y in subterms(p) if y.op == 'app' and y.a[0] == 'has' and q in str(y)]
            for hh in hs:
                k = sym('known', 'b')
                p2 = clean([subst(p, {hh: k})])[0]
                if entails([bnot(k)], p2) is True and entails([k], bnot(p2)) is True:
                    return True
                if entails([k], p2) is True or set(x for x in subterms(p2) if x.op == 'sym') <= {k}:
                    return False
    return None if any(x.kind == 'throw' for x in s.effects) else False


def everything(ck):
    mods = []
    files = tus('SEImplementation/src/lib/Configuration/*.cpp', 'SEImplementation/src/lib/Plugin/*/*Config.cpp', 'SEMain/src/lib/*Config.cpp')
    errors = 0
    for p in files:
        F = Facts([p])
        ck.F = F
        for f in list(F.funcs.values()):
            if f['n'] == 'getProgramOptions' and f.get('body') and f['file'] == p:
                mods.append(declared(ck, F, f))
        if not any(m.F is F for m in mods):
            for f in list(F.funcs.values()):
                if f['n'] in ('initialize', 'preInitialize') and f.get('body') and f['file'] == p:
                    m = Module(F, f['q'].rsplit('::', 1)[0], f)
                    if not any(x.c == m.c for x in mods):
                        mods.append(m)
    allo = {}
    for m in mods:
        for nm, o in m.opts.items():
            ck.ok(nm not in allo, 'declared', '%s:%s' % (m.f['file'], o[2]), 'option %s is declared by one module' % nm)
            allo[nm] = o
    for m in mods:
        ck.F = m.F
        dependencies(ck, m)
        reads(ck, m, allo, m.deps)
        values(ck, m)
        enums(ck, m)
    return mods


def run(ck):
    ck.rule('declared', 'every option is declared once')
    ck.rule('read', 'every option declared is read back by its module, and every option read is declared')
    ck.rule('type', 'an option is read with the type it was declared with')
    ck.rule('present', 'an option without a default is read only on paths where its presence was established')
    ck.rule('value', 'the value given is the one the getter of the option reports, whenever it is given and accepted')
    ck.rule('depends', 'a module consults only modules it declared as dependencies')
    ck.rule('enum', 'every name of an enumerated option stands for its own setting')
    ck.rule('unknown', 'names that stand for no setting are errors')
    everything(ck)
    return 50
