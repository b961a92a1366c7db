"""C23: catalogue rows keep their order, columns and values."""
from sx.props import *
from sx.own import peel
from sx.flow import Flow, Client, TooBig
from sx.facts import walk, REPO
from sx.interp import strip_targs, summarise, Lam, Ref
from sx.terms import *

NS = 'SourceXtractor::'
REG = NS + 'OutputRegistry'


def calls(s, *names):
    return [e for e in s.effects if e.kind == 'call' and e.d.get('n') in names]


def head(t):
    return str(t.a[0]) if isinstance(t, T) and t.op == 'app' else ''


def args_of(t):
    """the arguments a column description is made of"""
    if isinstance(t, T) and t.op == 'app' and (str(t.a[0]).startswith('new:') or t.a[0] == 'emplaced'):
        return list(t.a[1:])
    return None


def atoms(t, *heads):
    return [x for x in subterms(t) if x.op == 'app' and any(str(x.a[0]) == h or str(x.a[0]).startswith(h) for h in heads)]


# ------------------------------------------------------------------ sorter
class Ids:
    """the identifiers of all sources of a group, as a list that may be sorted"""
    def __init__(self):
        self.lists = {}
        self.least, self.most, self.some = sym('least', 'i'), sym('greatest', 'i'), sym('first', 'i')

    def put(self, it, st, v, a, b):
        st.heap.pop((v, '#fill'), None)
        n = st.heap.get((v, '#size'))
        st.heap[(v, '[]')] = ([(TRUE, (), sub(n, num(1)), b)] if isinstance(n, T) else []) + [(TRUE, (), num(0), a)]

    def vec(self, t):
        return t.a[1] if isinstance(t, T) and t.op == 'app' and t.a[0] == 'iter' else None

    def args(self, it, n, st):
        return [it._t(it.val(it.ev(x, st), st), st) for x in n['args']]

    def transform(self, it, n, st):
        a = self.args(it, n, st)
        if len(a) != 4:
            return None
        v = self.vec(a[2])
        m = [x for x in (a[0], a[1]) if head(x).endswith(('cbegin', 'cend', 'begin', 'end'))]
        if v is None or len(m) != 2 or m[0].a[-1] is not m[1].a[-1]:
            return None
        self.lists[v] = (m[0].a[-1], n['args'][3], n)
        self.put(it, st, v, self.some, sym('last', 'i'))
        return a[2]

    def sort(self, it, n, st):
        a = self.args(it, n, st)
        v = self.vec(a[0]) if a else None
        if v in self.lists and len(a) == 2:
            self.put(it, st, v, self.least, self.most)
        elif v in self.lists:
            self.put(it, st, v, self.most, self.least) if 'greater' in str(n['args'][2]) else self.put(it, st, v, sym('sorted_0'), sym('sorted_n'))
        else:
            return None
        return T


def sorter(ck, F):
    for f in F.methods(NS + 'Sorter'):
        if not f.get('body'):
            continue
        if f['n'] == 'receiveSource':
            ids = Ids()

            def sort(it, n, st):
                r = ids.sort(it, n, st)
                return num(0) if r is T else r
            s = summarise(F, f, opaque=['sendSource', 'getProperty', 'getId'], handlers={'transform': ids.transform, 'sort': sort, 'stable_sort': sort})
            msg = s.params[0]
            puts = [e for e in s.effects if e.kind == 'mapput']
            if len(puts) != 1:
                ck.undecided('key', f, 'a group is not stored once')
            else:
                p = puts[0]
                k = p.d['key']
                ck.ok(True if not p.pc else None, 'key', f, 'every group that arrives is stored')
                ck.ok(True if p.d['val'] is msg else None, 'key', f, 'the group is what is stored')
                ok = True if k is ids.least else False if {ids.most, ids.some, sym('last', 'i')} & set(subterms(k)) else None
                if ok is None and k.op == 'app' and str(k.a[0]).endswith('::getId') and not any(w in str(k) for w in ('min_element', 'minmax')):
                    ok = False      # the identifier of one particular member
                ck.ok(ok, 'key', f, 'it is stored under its smallest identifier' + ('' if ok else ', not under the %s one of its list' % show(k)))
                for v, (m, fn, n) in ids.lists.items():
                    ck.ok(True if m is msg else None, 'key', f, 'the identifiers are those of the group')
                    r = peel(fn)
                    g = [h for h in F.funcs.values() if r.get('k') == 'ref' and h['n'] == r.get('n', '').split('::')[-1] and h.get('body')]
                    body = g[0]['body'] if g else r.get('body') if r.get('k') == 'lambda' else None
                    if body is None:
                        ck.undecided('key', f, 'which identifier is taken is not understood')
                        continue
                    nm = [x['n'] for x in walk(body) if x.get('k') == 'call' and x.get('n', '').startswith('get') and x['n'] != 'getProperty']
                    ty = [t.strip('<>') for x in walk(body) if x.get('k') == 'call' and x.get('n') == 'getProperty' for t in [str(x.get('ta', ''))]]
                    good = nm == ['getId'] and len(ty) == 1 and str(ty[0]).endswith('SourceID')
                    ck.ok(True if good else False if len(nm) == 1 and len(ty) == 1 and str(ty[0]).endswith(('SourceID', 'SourceId')) else None, 'key', f, 'the identifier is the one counted without gaps (%s of %s)' % (nm, ty))
            released(ck, f, s)
        if f.get('fk') == 'ctor' and not f.get('implicit') and len(f['params']) == 0:
            s = summarise(F, f)
            ck.eqv('start', f, s.it.hread(s.st, s.this, 'm_output_next', 'int'), num(1), what='the first identifier that is waited for')


def released(ck, f, s):
    buf = s.it.initial(s.this, 'm_output_buffer', 'o')
    nxt = s.it.initial(s.this, 'm_output_next', 'int')
    snd = calls(s, 'sendSource')
    if len(snd) != 1 or len(snd[0].loops) != 1:
        ck.undecided('release', f, 'groups are not sent from one place in a loop')
        return
    e = snd[0]
    g = e.d['argt'][0]
    sto = [x for x in s.effects if x.kind == 'store' and x.d['lv'][:3] == ('fld', s.this, 'm_output_next')]
    if len(sto) != 1 or sto[0].loops != e.loops:
        ck.ok(False if not sto else None, 'release', f, 'the next identifier moves on with every group sent')
        return
    size = [x for x in subterms(sto[0].d['val']) if x.op == 'app' and str(x.a[0]).endswith('::size')]
    cur = [x for x in subterms(sto[0].d['val']) if x.op == 'sym' and str(x.a[0]).startswith('phi#')]
    if len(cur) != 1:
        ck.undecided('release', f, show(sto[0].d['val']))
        return
    cur = cur[0]
    first = mk('app', ('elem', buf, num(0)), 'o')
    fk, fv = [[x for x in list(subterms(g)) + [y for c in e.pc for y in subterms(c)] if x.op == 'app' and x.a[:2] == ('fld', k) and x.a[2].op == 'app' and x.a[2].a[0] == 'elem' and x.a[2].a[1] is buf] for k in ('first', 'second')]
    if not fv or g is not fv[0] or const(fv[0].a[2].a[2]) != 0:
        ck.undecided('release', f, 'what is sent is not seen to be the first group waiting: %s' % show(g))
        return
    key = mk('app', ('fld', 'first', fv[0].a[2]), 'i') if not fk else fk[0]
    phis = [x for c in e.pc for x in subterms(c) if x.op == 'sym' and str(x.a[0]).startswith('phi#')]
    ck.entail('release', f, e.pc, eq(key, cur), exact=[cur, key] + phis, what='a group is sent only when its first identifier is the next one')
    # when it is the next one it is sent
    empt = [x for c in e.pc for x in subterms(c) if x.op == 'sym' and str(x.a[0]).startswith('phi#') and x is not cur]
    facts = [eq(key, cur)] + [gt(x, num(0)) for x in empt] + [c for c in e.pc if cur in list(subterms(c)) and key not in list(subterms(c))]
    for c in e.pc:
        ck.entail('release', f, facts, c, exact=[cur, key] + empt, what='the first group waiting is sent when it is the next one')
    if size:
        ck.eqv('release', f, sto[0].d['val'], add(cur, size[0]), exact=[cur], what='the next identifier after the group')
        ck.ok(True if size[0].a[-1] is g else None, 'release', f, 'it moves on by the size of the group sent')
        sz = [x for x in calls(s, 'size') if x.d['ret'] is size[0]]
        ck.ok(True if sz and min(x.seq for x in sz) < e.seq else None, 'release', f, 'the size is taken before the group is handed on')
        bad = [x for x in sz if x.seq > e.seq]
        if bad and len(bad) == len(sz):
            ck.ok(False, 'release', f, 'the size of the group is taken after it was handed on')
    else:
        # the number of groups is not the number of sources
        d = sub(sto[0].d['val'], cur)
        ck.ok(False if const(d) is not None else None, 'release', f, 'the next identifier moves on by the size of the group, not by %s' % show(d))
    dl = [x for x in s.effects if x.loops == e.loops and (x.kind == 'call' and x.d.get('n') in ('erase', 'extract') and x.d.get('obj') is buf or x.kind == 'mapdel' and x.d.get('obj') is buf)]
    ck.ok(True if dl and all(x.seq > e.seq or True for x in dl) else False, 'release', f, 'a group that was sent no longer waits')
    for x in dl:
        a = x.d.get('argt') or [x.d.get('key')]
        t = a[0]
        ok = isinstance(t, T) and (t is key or t is cur or t.op == 'app' and t.a[0] == 'iter' and t.a[1] is buf and const(t.a[2]) == 0)
        ck.ok(True if ok else None, 'release', f, 'the group erased is the one sent')


# ------------------------------------------------------------------ columns
def typeids(t):
    return {str(x.a[0]) + '(' + ','.join(str(y) for y in x.a[1:]) + ')' for x in subterms(t) if x.op == 'app' and str(x.a[0]).startswith('typeid')} or \
           ({str(t)} if 'typeid(' in str(t) else set())


def tid(t):
    import re
    return set(re.findall(r'typeid\((.*?)\)(?=[,)]|$)', str(t)))


def which(t):
    """the table of the registry a container term comes from"""
    u = str(t)
    r = [k for k in ('m_property_to_names_map', 'm_name_to_converter_map', 'm_name_to_col_info_map', 'm_output_properties') if k in u]
    return r[0] if len(r) == 1 else None


def columns(ck, F):
    done = set()
    for f in F.funcs.values():
        if f['q'] != REG + '::registerColumnConverter' or f.get('dep') or not f.get('body'):
            continue
        import re
        m = re.search(r'function<(.*?) ?\(const (?:class )?(.*?) ?&\)>', f['params'][1]['t'])
        s = summarise(F, f, opaque=['getProperty'])
        name, conv, unit, desc = [s.params[i] for i in range(4)]
        psh = [e for e in s.effects if e.kind == 'push' and which(e.d['obj']) == 'm_property_to_names_map']
        put = {k: [e for e in s.effects if e.kind == 'mapput' and which(e.d['obj']) == k] for k in ('m_name_to_converter_map', 'm_name_to_col_info_map')}
        if len(psh) != 1 or any(len(v) != 1 for v in put.values()):
            ck.undecided('column', f, 'the registration is not understood')
            continue
        e = psh[0]
        ck.ok(True if e.d['val'] is name and not e.pc else None if e.d['val'] is name or e.d['val'] not in (unit, desc) else False, 'column', f, 'the column is listed under its name')
        if m:
            t = tid(e.d['obj'])
            ck.ok(True if len(t) == 1 and t.copy().pop().endswith(m.group(2).strip()) else None, 'column', f, 'it is listed for its property (%s)' % ', '.join(t))
        c = put['m_name_to_converter_map'][0]
        i = put['m_name_to_col_info_map'][0]
        for x, w in ((c, 'converter'), (i, 'description')):
            ck.ok(True if x.d['key'] is name else False if x.d['key'] in (unit, desc) else None, 'column', f, 'the %s is stored under the name of the column' % w)
        pr = c.d['val']
        ty = s.it.hread(s.st, pr, 'first', 'std::type_index')
        t = tid(ty)
        if m and len(t) == 1:
            out = t.pop()
            ck.ok(True if norm(out) == norm(m.group(1)) else False if norm(out) == norm(m.group(2)) else None, 'column', f, 'the type of the column is that of its values (%s, %s)' % (out, m.group(1)))
        else:
            ck.undecided('column', f, 'type of the column: %s' % show(ty) if isinstance(ty, T) else str(ty))
        cf = s.it.hread(s.st, pr, 'second', 'o')
        fn = s.st.heap.get((cf, 'm_convert_func'))
        fn = s.it.lams.get(fn, fn) if isinstance(fn, T) else fn
        if isinstance(fn, Lam):
            st = s.st.copy()
            n0 = len(s.it.effects) if hasattr(s.it, 'effects') else 0
            r = s.it.val(s.it.call_lambda(fn, [sym('src', 'o'), sym('index', 'i')], st, fn.node), st)
            gp = [x for x in atoms(r, 'call:' + NS + 'SourceInterface::getProperty')] if isinstance(r, T) else []
            if isinstance(r, T) and len(gp) == 1 and atoms(r, 'apply'):
                ap = atoms(r, 'apply')[0]
                ck.ok(True if ap.a[1] is conv or 'converter' in str(ap.a[1]) else None, 'column', f, 'the value comes from the converter of the column')
                ck.ok(True if gp[0].a[1] is sym('src', 'o') else None, 'column', f, 'it is computed from the source asked for')
                ix = gp[0].a[2] if len(gp[0].a) > 2 else num(0)
                ck.eqv('column', f, ix, sym('index', 'i'), exact=[sym('index', 'i')], what='index of the property that is read')
            else:
                ck.undecided('column', f, 'value of the column: %s' % (show(r) if isinstance(r, T) else r))
        else:
            ck.undecided('column', f, 'the converter is not seen')
        a = i.d['val']
        for k, w in (('unit', unit), ('description', desc)):
            ck.eqv('column', f, s.it.hread(s.st, a, k, 'std::string'), w, what='%s of the column' % k)
    for f in F.funcs.values():
        if f['q'] == REG + '::ColumnFromSource::operator()' and f.get('body'):
            s = summarise(F, f)
            ap = atoms(s.ret, 'apply') if isinstance(s.ret, T) else []
            if len(ap) != 1 or len(ap[0].a) != 4:
                ck.undecided('column', f, 'value of a column')
                continue
            ck.ok(True if 'm_convert_func' in str(ap[0].a[1]) and ap[0].a[2] is s.params[0] else None, 'column', f, 'a column converts the source it is given')
            ck.eqv('column', f, ap[0].a[3], s.it.initial(s.this, 'index', 'int'), what='index a column reads')


def norm(t):
    return t.replace(' ', '').replace('SourceXtractor::', '').replace('std::__cxx11::', 'std::').replace('class', '')


# ------------------------------------------------------------------ instances
def instances(ck, F):
    for f in F.funcs.values():
        if f['q'] != REG + '::registerPropertyInstances' or f.get('dep') or not f.get('body'):
            continue
        s = summarise(F, f)
        two = len(f['params']) == 2
        inst = s.params[1 if two else 0]
        dels = {k: [e for e in s.effects if e.kind == 'mapdel' and which_base(e.d['obj']) == k] for k in ('m_name_to_converter_map', 'm_name_to_col_info_map')}
        puts = {k: [e for e in s.effects if e.kind == 'mapput' and which_base(e.d['obj']) == k] for k in dels}
        if any(len(v) != 1 for v in list(puts.values())):
            ck.undecided('instance', f, 'the registration is not understood')
            continue
        c, i = puts['m_name_to_converter_map'][0], puts['m_name_to_col_info_map'][0]
        for k, v in dels.items():
            ck.ok(True if len(v) == 1 else None if v else False, 'instance', f, 'the entry of the old name is removed from %s' % k[2:])
        if any(len(v) != 1 for v in dels.values()):
            continue
        cur = dels['m_name_to_converter_map'][0].d['key']
        ck.ok(True if dels['m_name_to_col_info_map'][0].d['key'] is cur else None, 'instance', f, 'the same name is removed from both tables')
        for k in dels:
            # a new name may be the old one
            ck.ok(dels[k][0].seq < puts[k][0].seq and dels[k][0].loops == c.loops[:len(dels[k][0].loops)] or (None if dels[k][0].seq < puts[k][0].seq else False), 'instance', f, 'the old name is removed before the new ones are added, which may be equal to it')
        el = [x for x in subterms(c.d['key']) if x.op == 'app' and x.a[0] == 'elem' and x.a[1] is inst]
        if not el:
            ck.undecided('instance', f, 'name of an instance: %s' % show(c.d['key']))
            continue
        el = el[0]
        first, second = mk('app', ('fld', 'first', el), c.d['key'].sort), el
        fx = [x for x in subterms(c.d['key']) if x.op == 'app' and x.a[:2] == ('fld', 'first') and x.a[2] is el]
        if not two:
            ck.ok(True if cur in list(subterms(c.d['key'])) and fx and str(c.d['key']).count('str(_)') == 1 and str(c.d['key']).index(str(cur)) < str(c.d['key']).index('str(_)') else None, 'instance', f, 'the new name is the old one and the suffix of the instance')
        else:
            ck.ok(True if fx and c.d['key'] is fx[0] else None, 'instance', f, 'the new name is that of the instance')
        ck.ok(True if i.d['key'] is c.d['key'] else False if i.d['key'] is cur else None, 'instance', f, 'converter and description are stored under the same name')
        # which converter, which index
        pr = c.d['val']
        cf = s.it.hread(s.st, pr, 'second', 'o')
        ix = idx_value(s, f, c)
        ck.ok(True if ix is not None and ix.op == 'app' and ix.a[:2] == ('fld', 'second') and ix.a[2] is el else False if ix is not None and (const(ix) is not None or 'second' not in str(ix) and 'size(' in str(ix)) or ix is None and not any(x.kind == 'store' and x.d['lv'][0] == 'fld' and x.d['lv'][2] == 'index' or x.kind == 'call' and c.d['val'] in x.d.get('argt', ()) for x in s.effects) else None, 'instance', f, 'the column of an instance reads the property at the index of that instance')
        for nm in ('m_name_to_converter_map', 'm_name_to_col_info_map'):
            at = [e for e in s.effects if e.kind == 'mapat' and which_base(e.d['obj']) == nm]
            ck.ok(True if at and all(e.d['key'] is cur for e in at) and all(e.seq < dels[nm][0].seq for e in at) else None, 'instance', f, 'converter and description are those of the old name')
        # all instances, in order
        ps = [e for e in s.effects if e.kind == 'push' and e.loops == c.loops]
        ps = [e for e in ps if e.d['val'] is c.d['key']]
        ck.ok(True if len(ps) == 1 else False if not [e for e in s.effects if e.kind == 'push'] else None, 'instance', f, 'the new name is listed once')
        lp = [x for x in subterms(el.a[2])]
        ids = el.a[2]
        for e in ps + [c, i]:
            for p in e.pc:
                if ids in list(subterms(p)):
                    ck.entail('instance', f, [ge(ids, num(0)), lt(ids, mk('app', ('size', inst), 'i'))], p, exact=[ids], what='every instance is registered')
        if ps:
            v = ps[0].d['obj']
            if two:
                cp = [e for e in s.effects if e.kind == 'copy']
                ok = [e for e in cp if str(v) in str(e.d['src']) and 'm_property_to_names_map' in str(e.d['dst'])]
                if ok:
                    ck.eqv('instance', f, ok[0].d['count'], mk('app', ('size', inst), 'i'), what='number of names that replace the old one')
                else:
                    ins = [e for e in s.effects if e.kind in ('push', 'call') and e.d.get('n') in (None, 'insert') and which_base(e.d.get('obj')) == 'm_property_to_names_map']
                    ck.ok(None, 'instance', f, 'the new names replace the old one')
                er = [e for e in s.effects if e.kind == 'call' and e.d.get('n') in ('erase', 'remove') and 'm_property_to_names_map' in str(e.d.get('obj'))]
                ck.ok(True if er and 'current_name' in str(er[0].d['argt']) or er and str(cur) in str(er[0].d['argt']) else None if er else False, 'instance', f, 'the old name is no longer listed')
            else:
                asn = [e for e in s.effects if e.kind == 'mapput' and which_base(e.d['obj']) == 'm_property_to_names_map' and e.d.get('how') == 'assign']
                after = [e for e in s.effects if e.seq > ps[0].seq and not e.loops and any('m_property_to_names_map' in str(x) for x in e.d.values())]
                ck.ok(True if len(asn) == 1 and asn[0].seq > ps[0].seq and not asn[0].loops else False if not after and not any(e.kind == 'push' and which_base(e.d['obj']) for e in s.effects) else None, 'instance', f, 'the new names replace the old ones')


def which_base(t):
    u = str(t)
    r = [(u.index(k), k) for k in ('m_property_to_names_map', 'm_name_to_converter_map', 'm_name_to_col_info_map') if k in u]
    return min(r)[1] if r else None


def idx_value(s, f, c):
    """the index the stored converter holds: the last store to it before it is stored"""
    st = [e for e in s.effects if e.kind == 'store' and e.d['lv'][0] == 'fld' and e.d['lv'][2] == 'index' and e.seq < c.seq and e.loops == c.loops]
    if st:
        return st[-1].d['val']
    return None


# ------------------------------------------------------------------ rows
def rows(ck, F):
    for f in F.funcs.values():
        if f['q'] == REG + '::getSourceToRowConverter' and f.get('body'):
            selection(ck, F, f)
    for f in F.funcs.values():
        if not f['q'].startswith(REG + '::getSourceToRowConverter') or f['n'] != 'operator()' or not f.get('body') or len(f['params']) != 1:
            continue
        s = summarise(F, f)
        rw = [e for e in s.effects if e.kind == 'call' and e.d.get('ctor') and e.d['q'].endswith('Table::Row')]
        ci = [e for e in s.effects if e.kind == 'call' and e.d.get('ctor') and e.d['q'].endswith('Table::ColumnInfo')]
        ps = {}
        for e in s.effects:
            if e.kind == 'push':
                ps.setdefault(e.d['obj'], []).append(e)
        ps = {k: v for k, v in ps.items() if len(v[0].loops) >= 1}
        if len(rw) != 1 or len(ci) != 1 or len(ps) != 2 or any(len(v) != 1 for v in ps.values()):
            ck.undecided('row', f, 'how a row is made is not understood')
            continue
        desc = [v[0] for k, v in ps.items() if args_of(v[0].d['val']) and not str(v[0].d['val']).startswith('apply') and len(args_of(v[0].d['val'])) == 4]
        vals = [v[0] for k, v in ps.items() if v[0] not in desc]
        if len(desc) != 1 or len(vals) != 1:
            ck.undecided('row', f, 'descriptions and values are not told apart')
            continue
        d, v = desc[0], vals[0]
        ck.ok(True if ci[0].d['argt'][0] is d.d['obj'] else None, 'row', f, 'the columns described are the ones collected')
        nm, ty, un, de = args_of(d.d['val'])
        ck.ok(d.loops == v.loops or None, 'row', f, 'descriptions and values are collected in the same loop')
        same = [str(x) for x in d.pc] == [str(x) for x in v.pc]
        if not same:
            stops = {str(bnot(p)) for e in s.effects if e.kind == 'throw' for p in e.pc} | {str(p) for e in s.effects if e.kind == 'throw' for p in e.pc}
            for a, b, what in ((d, v, 'a value has a description'), (v, d, 'a column described has a value')):
                extra = [p for p in b.pc if p not in a.pc and not entails(a.pc, p)] if b is d else [p for p in b.pc if p not in a.pc and not entails(a.pc, p)]
                for p in extra:
                    ck.ok(None if str(p) in stops else False, 'row', f, '%s, also unless %s' % ('a column has a value exactly when it has a description', show(p)))
        else:
            ck.ok(True, 'row', f, 'a column has a value exactly when it has a description')
        # everything by the same name
        def by(t, table, fields):
            """t is the field of the entry of a table: the key it is read at"""
            for fd in fields:
                if not (isinstance(t, T) and t.op == 'app' and t.a[0] == 'fld' and t.a[1] == fd):
                    return None, 'field'
                t = t.a[2]
            if isinstance(t, T) and t.op == 'app' and t.a[0] == 'mget' and which(t.a[1]) == table:
                return t.a[2], None
            return None, 'table'
        for t, table, fields, what in ((ty, 'm_name_to_converter_map', ['first'], 'type'), (un, 'm_name_to_col_info_map', ['unit'], 'unit'), (de, 'm_name_to_col_info_map', ['description'], 'description')):
            k, why = by(t, table, fields)
            if k is None:
                other = {'unit': 'description', 'description': 'unit'}.get(fields[0])
                bad = other and by(t, table, [other])[0] is not None
                ck.ok(False if bad else None, 'row', f, '%s of a column: %s' % (what, show(t)))
                continue
            ck.ok(True if k is nm else None, 'row', f, 'the %s belongs to the column named' % what)
        val = v.d['val']
        ap = atoms(val, 'apply')
        if len(ap) != 1 or len(ap[0].a) != 4:
            ck.undecided('row', f, 'value of a column: %s' % show(val))
        else:
            k, _ = by(ap[0].a[1], 'm_name_to_converter_map', ['m_convert_func', 'second'])
            other = k is not None and k is not nm and k.op == 'app' and nm.op == 'app' and k.a[:2] == nm.a[:2] == ('elem', nm.a[1])
            ck.ok(True if k is nm else False if other else None, 'row', f, 'the value is computed by the converter of the column named')
            k, _ = by(ap[0].a[3], 'm_name_to_converter_map', ['index', 'second'])
            ck.ok(True if k is nm else None, 'row', f, 'from the property at the index of the column named')
            ck.ok(True if ap[0].a[2] is s.params[0] else None, 'row', f, 'of the source the row is made for')
        # the columns of every property requested, in the order they were registered
        okn = isinstance(nm, T) and nm.op == 'app' and nm.a[0] == 'elem' and isinstance(nm.a[1], T) and nm.a[1].op == 'app' and nm.a[1].a[0] == 'mget' and which(nm.a[1].a[1]) == 'm_property_to_names_map'
        ck.ok(True if okn else None, 'row', f, 'the columns are the names registered for a property')
        if okn:
            pk = nm.a[1].a[2]
            facts = []
            for el in (nm, pk):
                if el.op == 'app' and el.a[0] == 'elem':
                    facts += [ge(el.a[2], num(0)), lt(el.a[2], mk('app', ('size', el.a[1]), 'i'))]
            # what raises an error instead may be left out
            thr = [bnot(band(*[p for p in e.pc if p not in facts])) for e in s.effects if e.kind == 'throw' and len(e.loops) == 1]
            for p in d.pc:
                if 'has(' in str(p):
                    ck.ok(True if any(str(q) in str(p) or str(p).strip('!()') in str(q) for e in s.effects if e.kind == 'throw' for q in e.pc) else None, 'row', f, 'a property without columns is an error')
                    continue
                if any(k in str(p) for k in ('fld(description', 'fld(unit')) and any(x.op == 'app' and x.a[0] in ('fld',) for x in subterms(p)):
                    ck.ok(False, 'row', f, 'whether a column is in the row depends on %s' % show(p))
                    continue
                ck.entail('row', f, facts, p, exact=[x for el in (nm, pk) for x in subterms(el)], what='all columns of all properties requested are in the row')
            for el in (nm, pk):
                if el.op == 'app' and el.a[0] == 'elem':
                    ck.ok(True if str(el.a[2]).startswith('idx@') else None, 'row', f, 'in their order')


def selection(ck, F, f):
    s = summarise(F, f)
    ps = [e for e in s.effects if e.kind == 'push']
    req = s.params[0]
    if len(ps) != 1:
        ck.undecided('select', f, 'how the properties are selected is not understood')
        return
    e = ps[0]
    el = [x for x in subterms(e.d['val']) if x.op == 'app' and x.a[0] == 'elem' and x.a[1] is req]
    ck.ok(True if el and 'm_output_properties' in str(e.d['val']) else None, 'select', f, 'the properties are those of the names requested')
    v = e.d['obj']
    seen = [p for p in e.pc if any(x is v for x in subterms(p)) and any(str(x.a[0]).endswith(('find', 'count', 'count_if', 'any_of', 'none_of')) for x in subterms(p) if x.op == 'app')]
    loopc = [p for p in e.pc if el and el[0].a[2] in list(subterms(p))]
    ck.ok(True if seen else None if len(e.pc) > len(loopc) + 2 else False, 'select', f, 'a property is selected once, however many names ask for it')
    th = [x for x in s.effects if x.kind == 'throw']
    ck.ok(True if th else False, 'select', f, 'an unknown name is an error')
    for x in th:
        un = [p for p in x.pc if 'm_output_properties' in str(p)]
        ck.ok(True if un else None, 'select', f, 'the error is raised for a name that is not registered')
        for p in un:
            for c in {c for c in subterms(p) if c.op == 'app' and str(c.a[0]).endswith('::count')}:
                k = sym('count', 'i')
                ck.entail('select', f, [eq(k, num(0))], subst(p, {c: k}), exact=list(subterms(p)), what='a name that is not registered is an error')
        if un and el:
            for p in un:
                # what is selected is known
                ck.entail('select', f, e.pc, bnot(p), exact=[y for y in subterms(p)], what='the names that select properties are registered')


# ------------------------------------------------------------------ buffered rows
def buffered(ck, F):
    B = NS + 'FlushableOutput'
    for f in F.methods(B):
        if not f.get('body'):
            continue
        if f['n'] == 'flush':
            s = summarise(F, f, opaque=['writeRows'])
            m = s.it.initial(s.this, 'm_rows', 'o')
            n = mk('app', ('size', m), 'i')
            w = calls(s, 'writeRows')
            if len(w) != 1:
                ck.ok(False if not w else None, 'flush', f, 'the rows are written once')
                continue
            ck.ok(True if w[0].d['argt'][0] is m else None, 'flush', f, 'what is written are the rows waiting')
            for p in w[0].pc:
                ck.entail('flush', f, [gt(n, num(0))], p, what='rows waiting are written')
            z = s.st.heap.get((m, '#size'))
            ck.eqv('flush', f, z if isinstance(z, T) else n, num(0), what='rows waiting after they were written')
            cl = [e for e in s.effects if e.kind == 'clear' and e.d['obj'] is m]
            for e in cl:
                if e.seq < w[0].seq:
                    ck.ok(False, 'flush', f, 'the rows are discarded before they are written')
            ck.eqv('flush', f, s.ret, add(s.it.initial(s.this, 'm_total_rows_written', 'int'), n), what='number of rows reported')
            ck.eqv('flush', f, s.it.hread(s.st, s.this, 'm_total_rows_written', 'int'), add(s.it.initial(s.this, 'm_total_rows_written', 'int'), n), what='number of rows written so far')
    for f in sorted(F.funcs.values(), key=lambda f: f['q']):
        if f['n'] != 'outputSource' or not f.get('body') or not f['file'].startswith(REPO) or 'Output' not in (f.get('cls') or ''):
            continue
        s = summarise(F, f, opaque=['writeRows', 'flush', 'writeHeaders', 'getProperty'])
        m = s.it.initial(s.this, 'm_rows', 'o')
        ps = [e for e in s.effects if e.kind == 'push' and e.d['obj'] is m]
        if len(ps) != 1:
            ck.ok(False if len(ps) == 0 and not calls(s, 'outputSource') or len(ps) > 1 and all(not e.pc for e in ps) else None, 'row-added', f, 'one row is added for a source (%d)' % len(ps))
            continue
        e = ps[0]
        for p in e.pc:
            ck.entail('row-added', f, [], p, what='every source gets a row')
        ck.ok(True if not e.loops else None, 'row-added', f, 'a source gets one row')
        v = e.d['val']
        ok = isinstance(v, T) and v.op == 'app' and v.a[0] == 'apply' and 'm_source_to_row' in str(v.a[1]) and v.a[2] is s.params[0]
        ck.ok(True if ok else None, 'row-added', f, 'the row is made from the source')
        z = s.st.heap.get((m, '#size'))
        fl = calls(s, 'flush')
        for x in s.effects:
            if x.kind == 'clear' and x.d['obj'] is m and x.seq > e.seq:
                ck.ok(None if calls(s, 'writeRows') else False, 'row-added', f, 'a row that was added is not discarded')
        if isinstance(z, T) and not any(x.kind in ('clear', 'popback') for x in s.effects):
            ck.eqv('row-added', f, z, add(mk('app', ('size', m), 'i'), num(1)), what='rows waiting after a source')
        for x in fl:
            ck.ok(True if x.seq > e.seq else None, 'row-added', f, 'rows are written after the one of the source was added')
        fs = mk('app', ('fld', 'm_flush_size', s.this), 'i')
        fz = s.it.initial(s.this, 'm_flush_size', 'int')
        for x in fl:
            cs = [q for p in x.pc for q in (p.a if p.op == 'and' else (p,))]
            if any('imod' in str(p) for p in cs):
                ck.entail('row-added', f, [p for p in cs if 'imod' not in str(p)] + [ge(fz, num(0))], gt(fz, num(0)), exact=[fz], what='rows are not counted in packets of none')
        # the writer is there when rows may be written
        wr = s.st.heap.get((s.this, 'm_fits_writer'))
        if isinstance(wr, T):
            at = [x for x in s.effects if x.kind == 'store' and x.d['lv'] == ('fld', s.this, 'm_fits_writer')]
            bad = [x for x in at if x.seq > e.seq]
            ck.ok(None if bad else True, 'row-added', f, 'the writer is made before the row is added')
            nn = mk('app', ('nonnull', s.it.initial(s.this, 'm_fits_writer', 'o')), 'b')
            for x in at:
                for p in x.pc:
                    ck.entail('row-added', f, [bnot(nn)], p, what='a writer is made when there is none')
                if not x.pc:
                    ck.ok(False, 'row-added', f, 'a new writer replaces the one in use')
                else:
                    ck.entail('row-added', f, x.pc, bnot(nn), what='a writer in use is kept')
    for f in sorted(F.funcs.values(), key=lambda f: f['q']):
        if f['n'] != 'writeRows' or not f.get('body') or not f['file'].startswith(REPO):
            continue
        s = summarise(F, f)
        ad = calls(s, 'addData')
        if len(ad) != 1:
            ck.ok(False if not ad or all(not e.pc and not e.loops for e in ad) else None, 'write', f, 'the rows are added to the file once (%d)' % len(ad))
            continue
        e = ad[0]
        if e.loops:
            ck.undecided('write', f, 'the rows are added in pieces')
            continue
        for p in e.pc:
            ck.ok(None, 'write', f, 'the rows are added under the condition %s' % show(p))
        t = [x for x in s.effects if x.kind == 'call' and x.d.get('ctor') and x.d['q'].endswith('Table::Table')]
        r = s.params[0]
        a = t[-1].d['argt'][0] if t else None
        ok = a is not None and (a is r or s.st.heap.get((a, '#size'), mk('app', ('size', a), 'i')) is mk('app', ('size', r), 'i') and s.it.elem_read(s.st, a, sym('k', 'i'), 'o') is s.it.elem_read(s.st, r, sym('k', 'i'), 'o') or str(s.it.elem_read(s.st, a, sym('k', 'i'), 'o')) == str(s.it.elem_read(s.st, r, sym('k', 'i'), 'o')))
        ck.ok(True if ok else None, 'write', f, 'the table holds the rows')
        ck.ok(True if isinstance(e.d['obj'], T) and 'writer' in str(e.d['obj']) else None, 'write', f, 'they are added by the writer of the catalogue')


# ------------------------------------------------------------------ parts
def parts(ck, F):
    for f in sorted(F.funcs.values(), key=lambda f: f['q']):
        if not f.get('body') or not f['file'].startswith(REPO) or not (f.get('cls') or '').endswith(('FitsOutput', 'LdacOutput')):
            continue
        s = summarise(F, f, opaque=['generateHeader', 'generateHistory', 'outputSource', 'writeHeaders', 'getProperty'] if f['n'] != 'writeHeaders' else ['generateHeader', 'generateHistory'])
        nb = s.it.initial(s.this, 'm_part_nb', 'int')
        for e in s.effects:
            if e.kind != 'call' or not e.d.get('ctor') or not e.d['q'].endswith('FitsWriter'):
                continue
            a = e.d['argt']
            over = a[1] if len(a) > 1 else FALSE
            if f.get('fk') == 'ctor':
                ck.ok(True if over is TRUE else False if over is FALSE else None, 'part', f, 'a new catalogue replaces an old file')
                continue
            if over is FALSE:
                ck.ok(True, 'part', f, 'the file made so far is kept')
                continue
            cur = s.it.hread(s.st, s.this, 'm_part_nb', 'int')
            ck.entail('part', f, e.pc + [over, ge(nb, num(0))], eq(nb, num(0)) if f['n'] != 'nextPart' else FALSE, what='only the first part replaces an old file')
            if f['n'] == 'writeHeaders':
                ck.entail('part', f, [eq(nb, num(0))], over, what='the first part replaces an old file')
        if f['n'] == 'nextPart':
            ck.eqv('part', f, s.it.hread(s.st, s.this, 'm_part_nb', 'int'), add(nb, num(1)), what='number of the part')
            w = s.st.heap.get((s.this, 'm_fits_writer'))
            ck.ok(True if isinstance(w, T) and (w.op == 'app' and str(w.a[0]) == 'null' or str(w.a[0]).startswith('new:')) else False if w is None else None, 'part', f, 'the rows of the next part go elsewhere')


# ------------------------------------------------------------------ the session
class Session(Client):
    """rows: not yet written out; run: measurements may still be running; pre: prefetches may"""
    limit = 4000

    def __init__(self):
        self.seen = {}
        self.frames = 0

    def obj(self, n):
        o = n.get('obj')
        return (o or {}).get('t') or ''

    def say(self, ok, n, msg):
        self.seen[(n.get('l'), msg)] = (ok, n, msg)

    def event(self, n, S):
        if n.get('k') != 'call':
            return (S,)
        nm, q = n.get('n'), n.get('q') or ''
        if nm == 'processFrame':
            self.frames += 1
            return (S | {'rows', 'run', 'pre'},)
        if nm == 'synchronize' and 'Prefetcher' in q:
            if 'run' not in S and 'pre' in S:
                self.say(False, n, 'measurements are waited for before the prefetches that feed them')
            return (S - {'pre'},)
        if nm == 'synchronizeThreads' or nm == 'stopThreads' and 'Measurement' in q:
            if 'pre' in S and 'rows' in S and nm == 'synchronizeThreads':
                self.say(False, n, 'measurements are waited for while prefetches still feed them')
            return (S - {'run'},)
        if nm == 'flush' and ('Output' in q):
            if 'run' in S:
                self.say(False, n, 'the catalogue is flushed while measurements still add rows')
            else:
                self.say(True, n, 'the catalogue is flushed when all measurements are done')
            return (S - {'rows'},)
        if nm == 'nextPart':
            self.say('rows' not in S, n, 'the rows of a part are written before the next part begins')
        return (S,)

    def branch(self, c, truth, S):
        p = peel(c)
        while p.get('k') == 'call' and p.get('n') == 'operator bool' and p.get('obj') is not None:
            p = peel(p['obj'])
        if p.get('k') == 'call' and p.get('n') in ('operator!=', 'operator==') and len(p.get('args', [])) == 2 and peel(p['args'][1]).get('k') in ('null', 'nullptr'):
            return self.branch(p['args'][0], truth == (p['n'] == 'operator!='), S)
        if p.get('k') == 'bin' and p.get('op') in ('!=', '=='):
            for a, b in ((p['a'], p['b']), (p['b'], p['a'])) if 'a' in p else ():
                if peel(b).get('k') in ('null', 'nullptr'):
                    return self.branch(a, truth == (p['op'] == '!='), S)
        if p.get('k') == 'ref' and 'Prefetcher' in (p.get('t') or '') and not truth:
            return (S - {'pre'},)
        return (S,)


def session(ck, F):
    n = 0
    for f in F.funcs.values():
        if not f.get('body') or not f['file'].endswith('program/SourceXtractor.cpp') or not any(x.get('k') == 'call' and x.get('n') == 'processFrame' for x in walk(f['body'])):
            continue
        c = Session()
        try:
            fl = Flow(c)
            o = fl.run(f, {frozenset()})
        except TooBig:
            ck.undecided('session', f, 'too many paths')
            continue
        for ok, nd, msg in c.seen.values():
            n += 1
            ck.ok(ok, 'session', '%s:%s' % (f['file'], nd.get('l')), msg)
        for i, l, S in o.ret:
            if 'rows' in S:
                u = str(fl.nodes.get(i, ''))
                ck.ok(True if 'NOT_OK' in u or 'USAGE' in u or 'SOFTWARE' in u else False if 'OK' in u else None, 'session', '%s:%s' % (f['file'], l), 'the run ends with success while rows wait to be written')
            else:
                ck.ok(True, 'session', '%s:%s' % (f['file'], l), 'the run ends with all rows written')
    ck.ok(True if n >= 2 else None, 'session', 'SourceXtractor.cpp', '%d points of the session' % n)


def run(ck):
    ck.rule('key', 'a group waits under the smallest of the identifiers of its sources')
    ck.rule('start', 'identifiers are counted from one')
    ck.rule('release', 'the sorter hands on a group exactly when it is the next one, once, and moves on by its size')
    ck.rule('column', 'a column is stored with its own converter, type, unit and description and reads its own property and index')
    ck.rule('instance', 'the columns of several instances replace the old one, each reading its own index')
    ck.rule('select', 'the properties of every requested name are selected once, unknown names are errors')
    ck.rule('row', 'a row holds name, type, unit, description and value of the same column, for every column of every property selected')
    ck.rule('flush', 'rows waiting are written before they are discarded, and discarded once written')
    ck.rule('row-added', 'every source adds exactly one row, to an output that is open')
    ck.rule('write', 'the rows are added to the file once')
    ck.rule('part', 'only the first part replaces an old file, every part has its own place')
    ck.rule('session', 'the catalogue is flushed after all measurements and before the next part or the end')
    F = ck.F = Facts(tus('SEMain/src/lib/Sorter.cpp'))
    ck.section(sorter, ck, F)
    G = Facts(tus('SEFramework/src/lib/Output/OutputRegistry.cpp', 'SEImplementation/src/lib/Plugin/PixelCentroid/PixelCentroidPlugin.cpp', 'SEImplementation/src/lib/Plugin/AutoPhotometry/AutoPhotometryTaskFactory.cpp', 'SEImplementation/src/lib/Plugin/AperturePhotometry/AperturePhotometryTaskFactory.cpp'))
    ck.F = G
    ck.section(columns, ck, G)
    ck.section(instances, ck, G)
    ck.section(rows, ck, G)
    H = Facts(tus('SEImplementation/src/lib/Output/*.cpp'))
    ck.F = H
    ck.section(buffered, ck, H)
    ck.section(parts, ck, H)
    M = Facts(tus('SEMain/src/program/SourceXtractor.cpp'))
    ck.F = M
    ck.section(session, ck, M)
    return 10
