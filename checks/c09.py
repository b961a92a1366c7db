"""C09: every tile pixel type is handled, and handled as the same type everywhere."""
from sx.props import *
from sx.own import peel
from sx.facts import walk, REPO
from sx.interp import strip_targs, summarise
from sx.terms import *
import re

NS = 'SourceXtractor::'
IT = NS + 'ImageTile'
FILES = ['SEFramework/src/lib/FITS/*.cpp', 'SEFramework/src/lib/Image/*.cpp', 'SEFramework/src/lib/Frame/*.cpp', 'SEImplementation/src/lib/Segmentation/*.cpp',
         'SEImplementation/src/lib/Background/*/*.cpp', 'SEImplementation/src/lib/Configuration/*ImageConfig.cpp', 'SEImplementation/src/lib/Plugin/ExternalFlag/*.cpp',
         'SEImplementation/src/lib/CheckImages/*.cpp', 'SEMain/src/program/*.cpp']
# the C++ type, its size, the FITS type of its pixels in memory and in the file (FITS standard and the cfitsio manual)
TYPES = {'FloatImage': ('float', 4, 42, -32), 'DoubleImage': ('double', 8, 82, -64), 'IntImage': ('int', 4, 31, 32),
         'UIntImage': ('unsigned int', 4, 30, 40), 'LongLongImage': ('long', 8, 81, 64)}
ALIAS = {'std::int64_t': 'long', 'int64_t': 'long', 'long long': 'long', 'SeFloat32': 'float', 'SeFloat': 'float', 'SourceXtractor::SeFloat': 'float', 'uint32_t': 'unsigned int'}


def canon(t):
    t = t.replace('const ', '').strip().rstrip('&').strip()
    return ALIAS.get(t, t)


def targ(t):
    m = re.search(r'<\s*([A-Za-z_: ]+?)\s*>', t or '')
    return canon(m.group(1)) if m else None


def codes(F):
    e = F.enums.get(IT + '::ImageType')
    return dict(e['c']) if e else {}


def at(t, sym, v):
    return subst(t, {sym: num(v)}) if isinstance(t, T) else t


def value(t):
    c = const(t) if isinstance(t, T) else None
    return None if c is None else int(c)


def tables(ck, F):
    en = codes(F)
    known = {k: v for k, v in en.items() if v >= 0}
    ck.ok(True if set(known) == set(TYPES) else False if set(TYPES) - set(known) else None, 'types', F.enums[IT + '::ImageType']['file'] + ':%d' % F.enums[IT + '::ImageType']['l'], 'pixel types: %s' % ', '.join(sorted(known)))
    ck.ok(len(set(known.values())) == len(known), 'types', 'ImageTile::ImageType', 'the pixel types have distinct codes')
    inst = {}
    for f in F.funcs.values():
        if f.get('body') and not f.get('dep'):
            inst.setdefault(strip_targs(f['q']), []).append(f)
    # code of a C++ type
    got = {}
    for f in inst.get(IT + '::getTypeValue', []):
        t = canon(f['params'][0]['t'])
        got[t] = value(summarise(F, f).ret)
        want = next((en[k] for k, z in TYPES.items() if z[0] == t and k in en), None)
        ck.ok(None if want is None or got[t] is None else got[t] == want, 'types', f, 'code of %s' % t)
    for k, z in TYPES.items():
        if z[0] not in got:
            ck.undecided('types', IT + '::getTypeValue', 'no code for %s' % z[0])
    # the tile made for each code
    for f in inst.get(IT + '::create', []):
        p = next((i for i, q in enumerate(f['params']) if 'ImageType' in q['t']), None)
        for k, z in TYPES.items():
            if k not in en or p is None:
                continue
            s = summarise(F, f, args={p: num(en[k])})
            r = s.ret
            v = value(s.it.hread(s.st, r, 'm_image_type', 'int')) if isinstance(r, T) else None
            ck.ok(None if v is None else v == en[k], 'create', f, 'the tile made for %s says it is of type %s' % (k, v), key='create:' + k)
    # size of a pixel
    for f in inst.get(IT + '::getTypeSize', []):
        s = summarise(F, f)
        for k, z in TYPES.items():
            v = value(at(s.ret, s.params[f['params'][0]['n']], en[k]))
            ck.ok(None if v is None else v == z[1], 'size', f, 'a %s pixel has %s bytes' % (k, v), key='size:' + k)
    for f in inst.get(NS + 'ImageTileWithType::getTileMemorySize', []):
        s = summarise(F, f)
        t = targ(f['q'])
        z = next((z for z in TYPES.values() if z[0] == t), None)
        fld = {n: s.it.hread(s.st, s.this, n, 'int') for n in ('m_x', 'm_y', 'm_max_x', 'm_max_y')}
        if z is not None:
            ck.eqv('size', f, s.ret, mul(num(z[1]), mul(sub(fld['m_max_x'], fld['m_x']), sub(fld['m_max_y'], fld['m_y']))), what='memory of a tile of %s' % t)
    # FITS codes
    for nm, i, what in (('getDataType', 2, 'FITS type of the pixels in memory'), ('getImageType', 3, 'BITPIX')):
        for f in inst.get(NS + 'FitsImageSource::' + nm, []):
            s = summarise(F, f)
            m = s.it.hread(s.st, s.this, 'm_image_type', 'int')
            for k, z in TYPES.items():
                v = value(at(s.ret, m, en[k]))
                ck.ok(None if v is None else v == z[i], 'fits', f, '%s of %s is %s' % (what, k, v), key=nm + ':' + k)
    conv = [f for f in F.funcs.values() if f.get('body') and f['file'].endswith('FITS/FitsImageSource.cpp') and 'ImageType' in f.get('ret', '') and len(f['params']) == 1 and canon(f['params'][0]['t']) == 'int']
    ck.ok(True if conv else None, 'fits', 'FitsImageSource', 'the conversion of BITPIX is analysed')
    for f in conv:
        s = summarise(F, f)
        b = s.params[f['params'][0]['n']]
        for k, z in TYPES.items():
            if any(at_true(t, b, z[3]) for t in s.throws):
                ck.ok(False, 'fits', f, 'images with BITPIX %d are refused' % z[3], key='bitpix:' + k)
                continue
            v = value(at(s.ret, b, z[3]))
            ck.ok(None if v is None else v == en[k], 'fits', f, 'BITPIX %d is read as %s' % (z[3], v), key='bitpix:' + k)
        for v in (8, 16, 20, 1, -1, 0):
            thr = [at_true(t, b, v) for t in s.throws]
            ck.ok(True if any(x is True for x in thr) else None if any(x is None for x in thr) else False, 'fits', f, 'BITPIX %d, for which there is no pixel type, is refused' % v, key='refuse:%d' % v)
    # the source reads its type from the file only when none was asked for
    for f in inst.get(NS + 'FitsImageSource::FitsImageSource', []):
        p = next((q['n'] for q in f['params'] if 'ImageType' in q['t']), None)
        if p is None:
            continue
        s = summarise(F, f, opaque=[NS + 'FitsFile::getFitsFilePtr', NS + 'FitsImageSource::switchHdu', NS + 'FitsFile::refresh', NS + 'FitsFile::getImageHdus'])
        v = s.it.hread(s.st, s.this, 'm_image_type', 'int')
        for k, z in TYPES.items():
            x = at(v, s.params[p], en[k])
            w = value(x)
            if w is None and isinstance(x, T):
                ls = leaves(x)
                if ls is not None and any(l != en[k] for l in ls):
                    ck.ok(False, 'fits', f, 'an image asked for as %s may be read as another type (%s)' % (k, sorted(ls)), key='asked:' + k)
                    continue
            ck.ok(None if w is None else w == en[k], 'fits', f, 'an image asked for as %s is read as %s' % (k, w), key='asked:' + k)


def leaves(t):
    """constants a conditional value can take, None if it can take others"""
    c = value(t)
    if c is not None:
        return {c}
    if t.op == 'ite':
        a, b = leaves(t.a[1]), leaves(t.a[2])
        return None if a is None or b is None else a | b
    return None


def at_true(t, sym, v):
    pc = t if isinstance(t, (list, tuple)) else getattr(t, 'pc', None)
    if pc is None:
        return None
    r = True
    for c in pc:
        x = subst(c, {sym: num(v)})
        if x is FALSE:
            return False
        if x is not TRUE:
            r = None
    return r


def same(ck, F):
    """one pixel type per class: what is stored, what is converted, what is reported"""
    n = 0
    for f in F.funcs.values():
        if strip_targs(f['q']) == NS + 'ImageTileWithType::ImageTileWithType' and f.get('body') and not f.get('dep') and len(f['params']) >= 4:
            t = targ(f['q'])
            base = [c for i in f.get('inits', ()) if i.get('e') is not None for c in walk(i['e']) if c.get('k') == 'call' and c.get('n') == 'getTypeValue']
            if not base:
                ck.undecided('stored', f, 'what the tile says its type is is not understood')
                continue
            a = canon(peel(base[0]['args'][0]).get('t', ''))
            ck.ok(a == t, 'stored', f, 'a tile of %s says it is of %s' % (t, a))
            n += 1
    for f in F.funcs.values():
        if strip_targs(f['q']) == NS + 'ImageTileWithType::getDataPtr' and f.get('body') and not f.get('dep'):
            t = targ(f['q'])
            for m in walk(f['body']):
                if m.get('k') == 'mem' and 'VectorImage<' in (m.get('t') or ''):
                    mt = targ(m['t'][m['t'].index('VectorImage'):])
                    ck.ok(None if mt is None else mt == t, 'stored', '%s:%s' % (f['file'], m.get('l')), 'a tile of %s stores pixels of %s' % (t, mt))
            cs = [c for c in walk(f['body']) if c.get('k') == 'cast' and c.get('expl') and c.get('ck') not in ('NoOp', 'ToVoid')]
            ck.ok(True if any(m.get('n') == 'm_tile_image' for m in walk(f['body'])) and not cs else None, 'stored', f, 'the memory of the tile is that of its pixels')
            n += 1
    ck.ok(True if n else None, 'stored', NS + 'ImageTileWithType', '%d typed tiles' % n)
    # no tile is taken for one of another type
    k = 0
    for f in F.funcs.values():
        if not f.get('body') or not f['file'].startswith(REPO) or f.get('dep'):
            continue
        for c in walk(f['body']):
            if c.get('k') == 'call' and c.get('n') in ('static_pointer_cast', 'reinterpret_pointer_cast') and 'ImageTileWithType' in (c.get('t') or ''):
                ck.ok(False, 'cast', '%s:%s' % (f['file'], c['l']), 'a tile is taken for one of another type without looking')
            if c.get('k') == 'call' and c.get('n') == 'dynamic_pointer_cast' and 'ImageTileWithType' in (c.get('t') or ''):
                k += 1
                ck.ok(True, 'cast', '%s:%s' % (f['file'], c['l']), 'the type of the tile is looked at')
            if c.get('k') == 'cast' and c.get('expl') and c.get('e') is not None:
                src = peel(c['e'])
                if 'ImageTileWithType' in (c.get('t') or '') and c.get('ck') in ('BaseToDerived', 'BitCast'):
                    ck.ok(False, 'cast', '%s:%s' % (f['file'], c['l']), 'a tile is taken for one of another type without looking')
                if src is not None and src.get('k') == 'call' and src.get('n') == 'getDataPtr' and c.get('ck') in ('BitCast',):
                    ck.ok(False, 'cast', '%s:%s' % (f['file'], c['l']), 'the memory of a tile is taken for %s without looking at its type' % c.get('t'))
    ck.ok(True if k else None, 'cast', 'ImageTileWithType', '%d conversions of tiles to a typed tile' % k)


def sources(ck, F):
    """a source makes tiles of the type it reports; a typed image reads from a source of its type"""
    n = 0
    by = {}
    for f in F.funcs.values():
        if f.get('body') and not f.get('dep') and f['n'] in ('getImageTile', 'getType') and f.get('cls'):
            by.setdefault(f['cls'], {})[f['n']] = f
    for cls, m in sorted(by.items()):
        if 'getImageTile' not in m:
            continue
        f = m['getImageTile']
        g = m.get('getType')
        if g is None:
            b = [h for h in F.funcs.values() if h['n'] == 'getType' and h.get('body') and not h.get('dep') and h.get('cls') in bases(F, cls)]
            g = b[0] if b else None
        if g is None or not f['file'].startswith(REPO):
            continue
        mk_ = [c for c in walk(f['body']) if c.get('k') == 'call' and c.get('q') == IT + '::create']
        if not mk_:
            continue        # the tile comes from another source
        sg = summarise(F, g)
        sf = summarise(F, f, opaque=[IT + '::create'] + sorted({c['q'] for c in walk(f['body']) if c.get('k') == 'call' and c.get('q') and c.get('n') not in ('getTypeValue', 'getType') and c['q'].startswith(NS)}))
        es = [e for e in sf.effects if e.kind == 'call' and e.d['q'] == IT + '::create']
        if not es:
            ck.undecided('source', f, 'where the tile is made is not understood')
            continue
        n += 1
        for e in es:
            want = sg.ret
            if sg.this in subterms(want) or True:
                want = subst(want, {sg.this: sf.this}) if isinstance(sg.this, T) else want
            ck.eqv('source', f, e.d['argt'][0], want, what='type of the tiles of %s' % strip_targs(cls).split('::')[-1])
    ck.ok(True if n else None, 'source', 'ImageSource', '%d sources make their own tiles' % n)
    # typed images
    k = 0
    en = codes(F)
    code = {en[c]: z[0] for c, z in TYPES.items() if c in en}
    for f in sorted(F.funcs.values(), key=lambda f: (f['file'], f['l'])):
        if not f.get('body') or not f['file'].startswith(REPO) or f.get('dep'):
            continue
        for c in walk(f['body']):
            if c.get('k') != 'call' or c.get('n') != 'create' or strip_targs(c.get('q') or '') not in (NS + 'BufferedImage::create', NS + 'WriteableBufferedImage::create') or not c['args']:
                continue
            t = targ(c['q']) or targ(c.get('t'))
            for o in origins(F, f, c['args'][0], set()):
                where = '%s:%s' % (f['file'], c['l'])
                u = srctype(F, o, code)
                if u is None:
                    continue
                k += 1
                ck.ok(u == t, 'source', where, 'an image of %s reads from a source of %s' % (t, u))
    ck.ok(True if k else None, 'source', 'BufferedImage', '%d typed images over a source of known type' % k)


def bases(F, cls):
    r = set()
    for x in F.records.values():
        if x['q'] == cls:
            for b in x.get('bases', []):
                q = b.get('q') if isinstance(b, dict) else b
                if q:
                    r.add(q)
                    r |= bases(F, q)
    return r


def origins(F, f, e, seen):
    e = peel(e)
    if e is None:
        return []
    if e.get('k') == 'call' and e.get('n') in ('move', 'forward', 'static_pointer_cast', 'dynamic_pointer_cast', 'const_pointer_cast') and e['args']:
        return origins(F, f, e['args'][0], seen)
    if e.get('k') == 'ctor' and len(e.get('args') or ()) == 1 and 'shared_ptr' in (e.get('t') or ''):
        return origins(F, f, e['args'][0], seen)
    if e.get('k') == 'ref' and e.get('dk') in ('var', 'parm'):
        if (f['key'], e['id']) in seen:
            return []
        seen.add((f['key'], e['id']))
        r = []
        ps = [p['id'] for p in f['params']]
        if e['id'] in ps:
            i = ps.index(e['id'])
            for g in F.funcs.values():
                if g.get('body') and not g.get('dep'):
                    for c in walk(g['body']):
                        if c.get('k') == 'call' and c.get('key') == f['key'] and len(c['args']) > i:
                            r += origins(F, g, c['args'][i], seen)
            return r
        for n in walk(f['body']):
            if n.get('k') == 'decl':
                for v in n['vars']:
                    if v['id'] == e['id'] and v.get('init') is not None:
                        r += origins(F, f, v['init'], seen)
            if n.get('k') == 'asg' and peel(n['x']).get('id') == e['id'] and peel(n['x']).get('k') == 'ref':
                r += origins(F, f, n['y'], seen)
            if n.get('k') == 'call' and (n.get('n') == 'operator=' or n.get('op') == '='):
                o = n['obj'] if n.get('obj') is not None else n['args'][0]
                if peel(o).get('k') == 'ref' and peel(o).get('id') == e['id']:
                    r += origins(F, f, n['args'][-1], seen)
        return r
    if e.get('k') == 'cond':
        return origins(F, f, e['a'], seen) + origins(F, f, e['b'], seen)
    return [(f, e)]


def srctype(F, o, code):
    f, e = o
    t = e.get('t') or ''
    if 'FitsImageSource' in t:
        c = e
        if e.get('k') == 'new':
            c = peel(e.get('init') or e)
        args = c.get('args') or []
        for a in args:
            p = peel(a)
            if p.get('k') == 'call' and p.get('n') == 'getTypeValue':
                return canon(peel(p['args'][0]).get('t', ''))
            if 'ImageType' in (p.get('t') or '') and p.get('k') in ('ref', 'int', 'mem', 'enum'):
                v = dict(F.enums[IT + '::ImageType']['c']).get(p.get('n'))
                if v is None and p.get('k') == 'int':
                    v = p['v']
                if v is not None:
                    return code.get(v, 'whatever the file has' if v == -1 else None)
        if e.get('k') == 'call' and e.get('n') == 'make_shared' and len(args) <= 2:
            return 'whatever the file has'
        return None
    m = re.search(r'SourceXtractor::(\w*ImageSource)<([\w: ]+)>', t)
    if m:
        return canon(m.group(2))
    return None


def run(ck):
    ck.rule('types', 'the pixel types and their C++ types are the known ones')
    ck.rule('create', 'the tile made for a type holds pixels of that type')
    ck.rule('size', 'the size of a pixel is that of its C++ type')
    ck.rule('fits', 'the FITS codes for pixels in memory and in the file are those of the type, and codes without a type are refused')
    ck.rule('stored', 'a typed tile stores, hands out and reports its type')
    ck.rule('cast', 'no tile is taken for one of another type without looking')
    ck.rule('source', 'a source makes tiles of the type it reports, and an image reads from a source of its type')
    F = ck.F = Facts(tus(*FILES))
    ck.section(tables, ck, F)
    ck.section(same, ck, F)
    ck.section(sources, ck, F)
    return 30
