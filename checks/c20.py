"""C20: Python measurement images, groups and the compatibility functions."""
from sx import pysym
from sx.pysym import *
from sx.pyseq import Facts

OPAQUE = {'MeasurementImage', 'FitsFile', 'DataCubeSlice'}
LOAD = 'MeasurementConfig.load_fits_'


class Out:
    def __init__(self, P, it, s, v, pref=()):
        self.exc = s.exc[0] if s.exc else None
        self.pc = [(it.freeze(a, s), b) for a, b in s.pc]
        self.known = {it.freeze(a, s): b for a, b in s.known.items()}
        self.F = Facts(self.known, pref)
        self.raw = it.freeze(v, s) if v is not None else None
        self.v = self.F.canon(self.raw)
        self.eff = [it.freeze(e, s) for e in s.eff]

    def is_(self, cond):
        return self.known.get(cond)

    def empty(self):
        """a list the path found empty, a generic one otherwise"""
        return any(not b and q[0] in ('list', 'call') for q, b in self.pc)

    def text(self):
        return 'when %s' % ' and '.join(('' if b else 'not ') + show(q, 90)[:90] for q, b in self.pc) if self.pc else ''


def outs(P, code, names=(), assume=None, opaque=(), mod='measurement_config', pref=(), hook=None, rec=2):
    res = pysym.run(P, code, assume, opaque, names, mod, hook=hook, rec=rec)
    return [Out(P, pysym.run.last, s, v, pref) for s, v in res]


def where(P, q):
    if '.' in q:
        f = P.method(*q.split('.'))
    else:
        f = [f for m in P.mods.values() for n, f in m.funcs.items() if n == q][0]
    return f.loc


def norm(v):
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'at' and is_const(v[2]):
            return ('item', norm(v[1]), v[2])
        return tuple(norm(x) for x in v)
    return {norm(x) for x in v} if isinstance(v, set) else {k: norm(x) for k, x in v.items()} if isinstance(v, dict) else v


def judge(ck, rule, w, o, got, want, what=''):
    got, want = norm(got), norm(want)
    if got == want:
        return ck.holds(rule, w, what)
    d = '%s: %s, expected %s %s' % (what, show(got, 500)[:500], show(want, 400)[:400], o.text())
    if lost(got) or unknown(got):
        return ck.undecided(rule, w, d)
    return ck.fail(rule, w, d)


def unknown(v):
    """the value depends on something the reader of the program did not model"""
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'attr' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'self' and str(v[2]).startswith('_'):
            return True
        if v and v[0] in ('unk', 'first', 'bin?'):
            return True
        if len(v) > 1 and v[0] == 'call' and isinstance(v[1], tuple) and v[1][0] == 'ext' and v[1][1] not in ('float', 'abs', 'str', 're.match', 'int'):
            return True
        return any(unknown(x) for x in v)
    return False


def isnone(n, b):
    return {('is', sym(n), NONE): b}


def islist(n, b):
    return {('isinstance', sym(n), 'list'): b}


# ------------------------------------------------------------------------------------------------ one image
BASE = {sym('p'): True, sym('w'): True, ('isinstance', sym('f'), 'FitsFile'): False, ('isinstance', sym('w'), 'FitsFile'): False}


def ctor_rules(ck, P, cls, extra=''):
    w = where(P, cls + '.__init__')
    R = 'image-option'

    def make(args, attr, names, assume):
        return outs(P, 'm = %s(f, p, w, %s)\nreturn m.%s' % (cls, args, attr), ['f', 'p', 'w'] + names, {**BASE, **assume}, {'FitsFile'})
    other = {}
    # header keywords: explicit value, else the header, else the default
    for opt, default in (('gain', 0.0), ('saturation', 0.0), ('flux_scale', 1.0)):
        rest = ', '.join('%s=z%d' % (x, i) for i, x in enumerate(y for y in ('gain', 'saturation', 'flux_scale') if y != opt))
        nz = {('is', sym('z%d' % i), NONE): False for i in range(2)}
        for o in make('%s=v, %s_keyword=kw, %s' % (opt, opt, rest), opt, ['v', 'kw', 'z0', 'z1'], nz):
            if o.exc:
                ck.fail('image-no-error', w, '%s raises %s %s' % (cls, o.exc, o.text()))
                continue
            none = o.is_(('is', sym('v'), NONE))
            present = [b for q, b in o.pc if q[0] == 'in' and q[1] == sym('kw')]
            if none is False:
                judge(ck, R, w, o, o.v, sym('v'), 'an explicit %s' % opt)
            elif none and present == [False]:
                judge(ck, R, w, o, o.v, c(default), 'default of %s' % opt)
            elif none and present == [True]:
                v = o.v
                good = v[0] == 'float' and v[1][0] == 'item' and v[1][2] == sym('kw') and headers_of(v[1][1], c(0))
                if good:
                    ck.holds(R, w, '%s from the header' % opt)
                else:
                    judge(ck, R, w, o, v, ('float', ('item', 'the header', sym('kw'))), '%s from the header' % opt)
            else:
                ck.undecided(R, w, '%s: %s %s' % (opt, show(o.v), o.text()))
    # an omitted keyword argument has the documented name
    allz = ', '.join('%s=z%d' % (x, i) for i, x in enumerate(('gain', 'saturation', 'flux_scale')))
    nz3 = {('is', sym('z%d' % i), NONE): False for i in range(3)}
    for opt, kw in (('gain', 'GAIN'), ('saturation', 'SATURATE'), ('flux_scale', 'FLXSCALE')):
        rest = ', '.join('%s=z%d' % (x, i) for i, x in enumerate(y for y in ('gain', 'saturation', 'flux_scale') if y != opt))
        for o in make(rest, opt, ['z0', 'z1'], {('is', sym('z%d' % i), NONE): False for i in range(2)}):
            ks = {q[1] for q, b in o.pc if q[0] == 'in'}
            judge(ck, 'image-keyword', w, o, ks, {c(kw)}, 'keyword of %s' % opt)

    def one(args, attr, names, assume, want, what=None, rule=R):
        rs = make((args + ', ' if args else '') + allz, attr, names + ['z0', 'z1', 'z2'], {**nz3, **assume})
        for o in rs:
            if o.exc == 'ValueError' and any(q[0] == '<' and b for q, b in o.pc):
                continue
            if o.exc:
                ck.fail('image-no-error', w, '%s raises %s %s' % (cls, o.exc, o.text()))
                continue
            judge(ck, rule, w, o, o.v, want, what or attr)
    for opt in ('weight_type', 'weight_absolute', 'weight_scaling', 'image_hdu') + (('psf_renormalize',) if cls == 'MeasurementImage' else ()):
        one('%s=v' % opt, opt, ['v'], {}, sym('v'))
    for opt in ('psf_hdu', 'weight_hdu'):
        one('image_hdu=ih, %s=v' % opt, opt, ['v', 'ih'], isnone('v', False), sym('v'), 'explicit ' + opt)
        one('image_hdu=ih', opt, ['ih'], {}, sym('ih'), 'default of ' + opt)
    one('weight_threshold=v', 'weight_threshold', ['v'], isnone('v', False), sym('v'))
    one('weight_threshold=v', 'has_weight_threshold', ['v'], isnone('v', False), c(True))
    one('', 'has_weight_threshold', [], {}, c(False), 'no weight threshold')
    one('constant_background=v', 'constant_background_value', ['v'], isnone('v', False), sym('v'))
    one('constant_background=v', 'is_background_constant', ['v'], isnone('v', False), c(True))
    one('', 'is_background_constant', [], {}, c(False), 'no constant background')
    for attr, v in (('weight_type', 'none'), ('weight_absolute', False), ('weight_scaling', 1.0), ('image_hdu', 0)):
        one('', attr, [], {}, c(v), 'default of ' + attr)
    one('', 'psf_renormalize', [], {}, c(True), 'default of psf_renormalize')
    # the files
    for a, b, want in ((True, True, ('p', 'w')), (False, False, ('', ''))):
        for ff in (True, False):
            for wf in ((True, False) if b else (False,)):
                A = {sym('p'): a, sym('w'): b, ('isinstance', sym('f'), 'FitsFile'): ff, ('isinstance', sym('w'), 'FitsFile'): wf, ('attr', sym('w'), 'filename'): True}
                for o in outs(P, 'return %s(f, p, w, %s)' % (cls, allz), ['f', 'p', 'w', 'z0', 'z1', 'z2'], {**A, **nz3}, {'FitsFile'}):
                    sup = [e for e in o.eff if e[0] == 'super' and e[2] == '__init__']
                    f = ('attr', sym('f'), 'filename') if ff else sym('f')
                    wt = ('attr', sym('w'), 'filename') if wf else sym('w')
                    ab = lambda x: ('abspath', x)
                    w2 = (ab(f), ab(sym('p')) if a else c(''), ab(wt) if b else c(''))
                    got = tuple(sup[0][3]) if len(sup) == 1 else ('unk', len(sup))
                    judge(ck, 'image-files', w, o, tuple(got), w2, 'files')
    # headers come from the image HDU of the image file
    for ff in (True, False):
        for o in outs(P, 'm = %s(f, p, w, image_hdu=ih, %s)\nreturn m.meta' % (cls, allz), ['f', 'p', 'w', 'ih', 'z0', 'z1', 'z2'], {**BASE, **nz3, ('isinstance', sym('f'), 'FitsFile'): ff}, {'FitsFile'}):
            if o.exc:
                continue
            ck.ok(headers_of(o.v, sym('ih'), sym('f') if ff else None) or (None if lost(o.v) else False), 'image-headers', w, show(o.v))
    # negative HDUs are refused
    for k in ('image_hdu', 'psf_hdu', 'weight_hdu'):
        A = {**BASE, **nz3, ('<', sym('h'), c(0)): True, ('is', sym('h'), NONE): False}
        for o in outs(P, 'return %s(f, p, w, %s=h, %s)' % (cls, k, allz), ['f', 'p', 'w', 'h', 'z0', 'z1', 'z2'], A, {'FitsFile'}):
            ck.ok(o.exc == 'ValueError', 'image-hdu-range', w, '%s below zero gives %s' % (k, o.exc))


def headers_of(d, hdu, ff=None):
    """a dictionary that contains everything of get_headers(hdu) of the image file"""
    f = ff if ff is not None else ('new', 'FitsFile', (('filename', sym('f')),))
    want = ('call', ('attr', f, 'get_headers'), (hdu,), ())
    alt = ('call', ('meth', f, 'get_headers'), (hdu,), ())
    return isinstance(d, tuple) and d[0] == 'dict' and any(x[0] == 'update' and x[1] in (want, alt) for x in d[1:])


def image_rules(ck, P):
    ck.rule('image-option', 'each option of an image is the explicit value, else the value of its header keyword, else the documented default')
    ck.rule('image-keyword', 'an omitted keyword argument reads the documented header keyword')
    ck.rule('image-files', 'image, PSF and weight files reach the underlying image in their own place')
    ck.rule('image-headers', 'the headers of an image are those of its own HDU')
    ck.rule('image-hdu-range', 'negative HDU numbers are refused')
    ck.rule('image-no-error', 'a valid image is accepted')
    ctor_rules(ck, P, 'MeasurementImage')


def slice_rules(ck, P):
    ck.rule('slice-option', 'a data cube slice keeps its layers')
    ctor_rules(ck, P, 'DataCubeSlice')
    w = where(P, 'DataCubeSlice.__init__')
    nz = {('is', sym('z%d' % i), NONE): False for i in range(3)}
    for attr, want in (('is_data_cube', c(True)), ('image_layer', sym('il')), ('weight_layer', sym('wl'))):
        for o in outs(P, 'm = DataCubeSlice(f, p, w, image_layer=il, weight_layer=wl, gain=z0, saturation=z1, flux_scale=z2)\nreturn m.%s' % attr, ['f', 'p', 'w', 'il', 'wl', 'z0', 'z1', 'z2'], {**BASE, **nz}, {'FitsFile'}):
            judge(ck, 'slice-option', w, o, o.v, want, attr)


# ------------------------------------------------------------------------------------------------ loading
def new(cls, **kw):
    return ('new', cls, tuple(sorted(kw.items())))


def fits(x):
    return new('FitsFile', filename=x)


def attrs_of(v):
    return dict(v[2]) if isinstance(v, tuple) and v and v[0] == 'new' else None


def last_only(v):
    while isinstance(v, tuple) and v and v[0] in ('all', 'one'):
        v = v[1]
    return isinstance(v, tuple) and bool(v) and v[0] == 'after' and "'prev'" not in repr(v)


def check_images(ck, w, o, rule, n, cls, want, skip=()):
    """the result is the group of n images of class cls whose arguments are want(i), and they are all registered"""
    i = c(0) if n == c(1) else ('i', 0)
    v = o.v
    if v[0] != 'tuple' or len(v[1]) != 2 or v[1][0][0] != 'list':
        return ck.undecided(rule, w, show(v))
    lst, reg = v[1]
    n = o.F.find(n)
    if n == c(1):
        body = lst[1][1] if len(lst) == 2 and lst[1][0] == 'one' else None
        cnt = c(len(lst) - 1) if all(x[0] == 'one' for x in lst[1:]) else None
    else:
        e = lst[1] if len(lst) == 2 and lst[1][0] == 'each' else None
        cnt = e[2] if e else (c(0) if len(lst) == 1 else None)
        body = e[3][0][1][0][1] if e and len(e[3]) == 1 and not e[3][0][0] and len(e[3][0][1]) == 1 and e[3][0][1][0][0] == 'one' else None
    if len(lst) == 2 and last_only(lst[1]):
        return ck.fail(rule, w, 'the group holds only what the last iteration of a loop found: %s %s' % (show(lst), o.text()))
    if body is None and cnt is None:
        return ck.undecided(rule, w, 'images: %s %s' % (show(lst), o.text()))
    if cnt != n:
        return ck.fail(rule, w, 'the group has %s images, expected %s %s' % (show(cnt, 300), show(n), o.text()))
    a = attrs_of(body)
    if a is None or body[1] != cls:
        return ck.undecided(rule, w, show(body))
    exp = want(i)
    for k in sorted(set(a) | set(exp)):
        if k in skip:
            continue
        g, x = a.get(k), exp.get(k)
        if isinstance(x, set):
            if norm(g) in norm(x):
                ck.holds(rule, w, k)
            else:
                judge(ck, rule, w, o, g if g is not None else ('none',), sorted(x, key=repr)[0], 'argument %s of image i' % k)
        else:
            judge(ck, rule, w, o, g if g is not None else ('not given',), x if x is not None else ('not given',), 'argument %s of image i' % k)
    # registered under its own identifier
    ent = [x for x in reg[1:]]
    good = len(ent) == 1
    if good and ent[0][0] == 'set':
        good = n == c(1) and ent[0] == ('set', ('attr', body, 'id'), body)
    elif good and ent[0][0] == 'each':
        good = ent[0][2] == n and len(ent[0][3]) == 1 and ent[0][3][0] == ((), (('set', ('attr', body, 'id'), body),))
    ck.ok(bool(good) or (None if lost(reg) else False), 'load-register', w, 'registered images %s' % show(reg))


def mismatch(o):
    return any((q[0] == '==' and not b) or (q[0] in ('<', '<=') and b) or (q[0] == '==' and b and c(0) in q[1:]) for q, b in o.pc)


def image_loading(ck, P):
    ck.rule('load-pairing', 'image i of a multi-HDU file gets HDU i and the PSF, weight map and options given for it; mismatched numbers of files are an error')
    ck.rule('load-register', 'every loaded image is registered for measurement under its own identifier')
    ck.rule('load-error', 'loading fails only when the numbers of files do not match')
    w = where(P, 'MeasurementConfig.load_fits_image')
    R = 'load-pairing'
    I = fits(sym('image'))
    for ih in (False, True):
        n = c(1) if ih else ('len', ('attr', I, 'hdu_list'))
        for psf in ('list', 'one', 'hdu', 'none'):
            for wt in ('list', 'one', 'hdu', 'none'):
                A = {**islist('psf', psf == 'list'), **islist('weight', wt == 'list')}
                if wt != 'list':
                    A.update(isnone('weight', wt == 'none'))
                kw = ['gain=gg']
                names = ['image', 'psf', 'weight', 'gg', 'ih', 'ph', 'wh']
                if ih:
                    kw.append('image_hdu=ih')
                if psf == 'hdu':
                    kw.append('psf_hdu=ph')
                if wt == 'hdu':
                    kw.append('weight_hdu=wh')
                psfarg = 'None' if psf == 'none' else 'psf'
                wtarg = 'None' if wt == 'none' else 'weight'
                try:
                    rs = outs(P, 'mc = MeasurementConfig()\ng = mc.load_fits_image(image, %s, %s, %s)\nreturn list(g), mc.measurement_images' % (psfarg, wtarg, ', '.join(kw)), names, A, OPAQUE, pref=[n])
                except TooMany:
                    ck.undecided(R, w, 'too many paths')
                    continue
                ok = 0
                for o in rs:
                    if o.exc:
                        ck.ok(o.exc == 'ValueError' and mismatch(o), 'load-error', w, 'raises %s %s' % (o.exc, o.text()))
                        continue
                    if o.empty():
                        continue
                    ok += 1

                    def want(i):
                        e = {'fits_file': {I, sym('image')}, 'gain': sym('gg'), 'image_hdu': sym('ih') if ih else ('at', ('attr', I, 'hdu_list'), i)}
                        e['psf_file'] = ('at', sym('psf'), i) if psf == 'list' else NONE if psf == 'none' else sym('psf')
                        e['psf_hdu'] = c(0) if psf == 'list' else sym('ph') if psf == 'hdu' else i
                        W = fits(sym('weight'))
                        e['weight_file'] = ('at', sym('weight'), i) if wt == 'list' else NONE if wt == 'none' else {W, sym('weight')}
                        e['weight_hdu'] = c(0) if wt == 'list' else sym('wh') if wt == 'hdu' else ('at', ('attr', W, 'hdu_list'), i)
                        if psf == 'list' and ih:
                            e['psf_file'] = {('at', sym('psf'), i), ('item', sym('psf'), i)}
                        return e
                    skip = ({'weight_hdu'} if wt == 'none' else set()) | ({'psf_hdu'} if psf == 'none' else set())
                    check_images(ck, w, o, R, n, 'MeasurementImage', want, skip)
                ck.ok(ok > 0, 'load-error', w, 'matching files are accepted (%s, %s, %s)' % (ih, psf, wt))


def cube_loading(ck, P):
    ck.rule('cube-pairing', 'slice i of a data cube gets layer i and its own PSF and weight layer, HDU or file; mismatched sizes are an error')
    w = where(P, 'MeasurementConfig.load_fits_data_cube')
    R = 'cube-pairing'
    I, W = fits(sym('image')), fits(sym('weight'))
    for neg in (True, False):
        hdu = ('item', ('attr', I, 'hdu_list'), c(0)) if neg else sym('ich')
        dims = lambda f, h: ('call', ('attr', f, 'get_dimensions'), (h,), ())
        D = dims(I, hdu)
        n = ('item', D, c(2))
        for psf in ('list', 'one', 'none'):
            for wt in ('list', 'file', 'none'):
                for wneg in ((True, False) if wt == 'file' else (True,)):
                    whdu = ('item', ('attr', W, 'hdu_list'), c(0)) if wneg else sym('wch')
                    A = {**islist('psf', psf == 'list'), **islist('weight', wt == 'list'), ('<', sym('ich'), c(0)): neg, ('<', sym('wch'), c(0)): wneg, ('<', c(0), sym('ich')): not neg and None}
                    A = {k: v for k, v in A.items() if v is not None}
                    if wt != 'list':
                        A.update(isnone('weight', wt == 'none'))
                    rs = outs(P, 'mc = MeasurementConfig()\ng = mc.load_fits_data_cube(image, %s, %s, ich, wch, gain=gg)\nreturn list(g), mc.measurement_images' % ('None' if psf == 'none' else 'psf', 'None' if wt == 'none' else 'weight'),
                              ['image', 'psf', 'weight', 'ich', 'wch', 'gg'], A, OPAQUE, pref=[n])
                    ok = 0
                    for o in rs:
                        if o.exc:
                            ck.ok(o.exc == 'ValueError' and mismatch(o), 'load-error', w, 'raises %s %s' % (o.exc, o.text()))
                            continue
                        if o.empty():
                            continue
                        ok += 1
                        three = lambda d: {b for q, b in o.known.items() if q[0] == '==' and set(q[1:]) == {c(3), ('len', d)}}
                        if True not in three(D):
                            ck.fail(R, w, 'an image that is not a cube is accepted %s' % o.text())
                            continue
                        cube = three(dims(W, whdu)) if wt == 'file' else set()

                        def want(i):
                            e = {'fits_file': {I, sym('image')}, 'gain': sym('gg'), 'image_hdu': hdu, 'image_layer': i}
                            e['psf_file'] = ('at', sym('psf'), i) if psf == 'list' else NONE if psf == 'none' else sym('psf')
                            e['psf_hdu'] = c(0) if psf == 'list' else i
                            e['weight_file'] = ('at', sym('weight'), i) if wt == 'list' else NONE if wt == 'none' else {W, sym('weight')}
                            e['weight_hdu'] = c(0) if wt == 'list' else whdu if cube == {True} else ('at', ('attr', W, 'hdu_list'), i)
                            e['weight_layer'] = i if cube == {True} else c(0)
                            return e
                        if wt == 'file' and cube not in ({True}, {False}):
                            others = [q for q, b in o.known.items() if q[0] == '==' and c(3) in q[1:] and 'get_dimensions' in repr(q) and set(q[1:]) != {c(3), ('len', D)}]
                            (ck.fail if others else ck.undecided)(R, w, 'the weight map is not that of the HDU asked for %s' % o.text())
                            continue
                        if cube == {True}:
                            wn = ('item', dims(W, whdu), c(2))
                            ck.ok(o.F.find(wn) == o.F.find(n), R, w, 'a weight cube is used although its number of layers was not compared with that of the image %s' % o.text())
                        skip = ({'weight_hdu', 'weight_layer'} if wt == 'none' else set()) | ({'psf_hdu'} if psf == 'none' else set())
                        check_images(ck, w, o, R, n, 'DataCubeSlice', want, skip)
                    ck.ok(ok > 0, 'load-error', w, 'matching files are accepted')
    # the documented defaults select the first HDU
    f = P.method('MeasurementConfig', 'load_fits_data_cube')
    rs = outs(P, 'mc = MeasurementConfig()\nmc.load_fits_data_cube(image, psf, weight)', ['image', 'psf', 'weight'], {**islist('psf', False), **islist('weight', False), **isnone('weight', True)}, OPAQUE)
    for o in rs:
        if not o.exc:
            hs = [dict(e[2]).get('image_hdu') for e in flat(o.eff) if e[0] == 'new' and e[1] == 'DataCubeSlice']
            ck.ok(hs == [('item', ('attr', I, 'hdu_list'), c(0))] or (None if len(hs) != 1 else False), R, w, 'default HDU %s' % show(tuple(hs)))


def flat(effs):
    out = []
    for e in effs:
        if e[0] == 'each':
            for g, xs in e[3]:
                out += flat(xs)
        else:
            out.append(e)
    return out


def list_loading(ck, P):
    ck.rule('list-pairing', 'a list of images is loaded file by file, each with its own PSF and weight map, in order; mismatched lists are an error')
    w = where(P, 'MeasurementConfig.load_fits_images')
    R = 'list-pairing'
    n = ('len', sym('images'))
    op = OPAQUE | {'MeasurementConfig.load_fits_image'}
    for wl in (True, False):
        for pl in (True, False):
            A = {**islist('images', True), **islist('psfs', pl), **islist('weights', wl)}
            A[sym('psfs')] = A[sym('weights')] = True
            rs = outs(P, 'mc = MeasurementConfig()\ng = mc.load_fits_images(images, psfs, weights, gain=gg)\nreturn list(g)', ['images', 'psfs', 'weights', 'gg'], A, op, pref=[n])
            if not (wl and pl):
                for o in rs:
                    ck.ok(o.exc == 'ValueError', R, w, 'a single file for a list of images gives %s' % (o.exc or show(o.v)))
                continue
            listed(ck, P, w, R, rs, n, ('at', sym('psfs'), ('i', 0)), ('at', sym('weights'), ('i', 0)))
    for pa, wa, ps, ws in (('None', 'None', NONE, NONE), ('psfs', 'None', ('at', sym('psfs'), ('i', 0)), NONE), ('None', 'weights', NONE, ('at', sym('weights'), ('i', 0)))):
        A = {**islist('images', True), **islist('psfs', True), **islist('weights', True), sym('psfs'): True, sym('weights'): True}
        rs = outs(P, 'mc = MeasurementConfig()\ng = mc.load_fits_images(images, %s, %s, gain=gg)\nreturn list(g)' % (pa, wa), ['images', 'psfs', 'weights', 'gg'], A, op, pref=[n])
        listed(ck, P, w, R, rs, n, ps, ws)
    for o in outs(P, 'mc = MeasurementConfig()\nreturn mc.load_fits_images(images, psfs, weights, gain=gg)', ['images', 'psfs', 'weights', 'gg'], islist('images', False), op):
        v = o.raw
        b = bound(P, 'MeasurementConfig', v)
        want = {'image': sym('images'), 'psf': sym('psfs'), 'weight': sym('weights'), 'gain': sym('gg')}
        if b is None or b[0] != 'load_fits_image':
            ck.undecided(R, w, show(v))
        else:
            judge(ck, R, w, o, b[1], want, 'a single file')


def bound(P, cls, v):
    """(method name, {parameter: argument}) of an opaque call or of a call on a global object"""
    if not isinstance(v, tuple) or v[0] != 'call':
        return None
    fn, args, kw = v[1], list(v[2]), dict(v[3])
    if fn[0] == 'fn':
        name = fn[1].split('.')[-1]
        args = args[1:]
    elif fn[0] in ('meth', 'attr'):
        name = fn[2]
    else:
        return None
    m = P.method(cls, name)
    if m is None:
        return (name, None)
    ps = [a.arg for a in m.node.args.args][1:]
    ds = m.node.args.defaults
    out = dict(zip(ps, args))
    if len(args) > len(ps):
        return (name, None)
    for k, x in kw.items():
        if k in out:
            return (name, None)
        out[k] = x
    # an argument equal to the default of the parameter is the omitted argument
    for p, d in zip(ps[len(ps) - len(ds):], ds):
        try:
            import ast
            if out.get(p) == c(ast.literal_eval(d)):
                out.pop(p)
        except ValueError:
            pass
    return (name, out)


def listed(ck, P, w, R, rs, n, ps, ws):
    ok = 0
    for o in rs:
        if o.exc:
            ck.ok(o.exc == 'ValueError' and mismatch(o), 'load-error', w, 'raises %s %s' % (o.exc, o.text()))
            continue
        if o.empty():
            continue
        ok += 1
        v = o.v
        e = v[1] if v[0] == 'list' and len(v) == 2 and v[1][0] == 'each' else None
        if e is None or len(e[3]) != 1 or e[3][0][0] or len(e[3][0][1]) != 1 or e[3][0][1][0][0] != 'all':
            ck.undecided(R, w, show(v, 500))
            continue
        if e[2] != o.F.find(n):
            ck.fail(R, w, '%s groups for %s images %s' % (show(e[2], 300), show(n), o.text()))
            continue
        b = bound(P, 'MeasurementConfig', e[3][0][1][0][1])
        i = e[1]
        want = {k: x for k, x in {'image': ('at', sym('images'), i), 'psf': ps, 'weight': ws, 'gain': sym('gg')}.items() if x != NONE}
        if b is None or b[0] != 'load_fits_image' or b[1] is None:
            ck.undecided(R, w, show(v, 500))
        else:
            judge(ck, R, w, o, b[1], want, 'file i')
    ck.ok(ok > 0, 'load-error', w, 'matching lists are accepted')


def registering(ck, P):
    ck.rule('register-group', 'registering a group registers each of its images under its own identifier')
    w = where(P, 'MeasurementConfig.add_measurement_image')
    R = 'register-group'
    img = lambda x: ('isinstance', x, 'MeasurementImage')
    code = 'mc = MeasurementConfig()\nmc.add_measurement_image(g)\nreturn mc.measurement_images'
    for o in outs(P, code, ['g'], {img(sym('g')): True}):
        judge(ck, R, w, o, o.v, ('dict', ('set', ('attr', sym('g'), 'id'), sym('g'))), 'a single image')
    leaf = {img(sym('g')): False, ('call', ('attr', sym('g'), 'is_leaf'), (), ()): True, ('isinstance', sym('g'), 'list'): False}

    def hook(q):
        if q[0] == 'isinstance' and q[1] != sym('g') and q[2] == 'MeasurementImage':
            return True
        return None
    for leafy in (True, False):
        A = dict(leaf)
        A[('call', ('attr', sym('g'), 'is_leaf'), (), ())] = leafy
        for o in outs(P, code, ['g'], A, hook=hook):
            if o.exc:
                ck.fail(R, w, 'raises %s %s' % (o.exc, o.text()))
                continue
            x = ('at', sym('g'), ('i', 0)) if leafy else ('item', ('at', sym('g'), ('i', 0)), c(1))
            ent = o.v[1:] if o.v[0] == 'dict' else None
            good = None
            if ent is not None and len(ent) == 1 and ent[0][0] == 'each' and ent[0][2] == ('len', sym('g')):
                alts = ent[0][3]
                good = all(its == (('set', ('attr', x, 'id'), x),) or not its and any(q[0] == 'in' and q[1] == ('attr', x, 'id') and b for q, b in g) for g, its in alts) and any(its for g, its in alts)
            ck.ok(good if good or not lost(o.v) else None, R, w, 'registered: %s' % show(o.v, 400))


# ------------------------------------------------------------------------------------------------ groups
def groups(ck, P):
    ck.rule('group-split', 'splitting a group keeps every image exactly once, under the key the grouping gave it, or is an error')
    ck.rule('group-freeze', 'a measurement group has the subgroups and images of the group it is made from')
    ck.rule('group-edit', 'adding images or subgroups keeps those already there')
    ck.rule('group-access', 'a subgroup is found under its own name, and the length counts what iteration yields')
    L = {('isinstance', sym('imgs'), 'list'): True}

    def hook(q):
        return True if q[0] == 'isinstance' and q[2] == 'list' and q[1][0] == 'item' else None
    m = ('call', sym('method'), (('list', ('all', sym('imgs'))),), ())
    ms = {m, ('call', sym('method'), (sym('imgs'),), ())}
    w = where(P, 'ImageGroup.split')

    def nonempty(v):
        """without the alternatives of an empty list"""
        if not isinstance(v, tuple):
            return v
        if len(v) == 4 and v[0] == 'each':
            alts = [(tuple(nonempty(x) for x in g if not (x[1] and x[0][0] == 'list')), nonempty(i)) for g, i in v[3] if not any(not b and q[0] == 'list' for q, b in g)]
            return v[:3] + (tuple(alts),)
        return tuple(nonempty(x) for x in v)

    def content(o):
        """canonical [(key, [...])] -> (source, body)"""
        v = nonempty(o.v)
        if v[0] == 'list' and len(v) == 2 and v[1][0] == 'each' and len(v[1][3]) == 1 and not v[1][3][0][0] and len(v[1][3][0][1]) == 1:
            return v[1][1], v[1][2], v[1][3][0][1][0][1]
        return None
    for frozen in (False, True):
        pre = 'g = ImageGroup(images=list(imgs))\ng.split(method)\n'
        rule = 'group-freeze' if frozen else 'group-split'
        ww = where(P, 'MeasurementGroup.__init__') if frozen else w
        if frozen:
            pre += 'g = MeasurementGroup(g)\n'
        n1 = 0
        for o in outs(P, pre + 'return [(k, list(sub)) for k, sub in g]', ['imgs', 'method'], L, hook=hook):
            if o.exc:
                ck.ok(o.exc in ('ValueError', 'AssertionError', 'KeyError') and bool(o.pc), 'group-split', w, 'raises %s %s' % (o.exc, o.text()))
                continue
            total = [(q, b) for q, b in o.pc if q[0] == '==' and 'sum' in repr(q)]
            ck.ok(bool(total) and all(b for q, b in total) or (None if not total else False), 'group-split', w, 'the number of grouped images is compared with the number of images %s' % o.text())
            if o.empty():
                continue
            n1 += 1
            ct = content(o)
            if ct is None:
                ck.ok(None if lost(o.v) or o.v != ('list',) else False, rule, ww, show(o.v, 400))
                continue
            i, cnt, body = ct
            src = [x for x in ms if o.F.find(('len', x)) == cnt]
            want = [('tuple', (('item', ('at', x, i), c(0)), ('list', ('all', ('item', ('at', x, i), c(1)))))) for x in src]
            if body in want:
                ck.holds(rule, ww, 'every image of every subgroup')
            else:
                judge(ck, rule, ww, o, body, want[0] if want else ('the subgroups of the grouping',), 'subgroup i')
        ck.ok(n1 > 0, rule, ww, 'a complete grouping is accepted')
        # nested
        if frozen:
            continue
        pre = 'g = ImageGroup(images=list(imgs))\ng.split(method)\ng.split(m2)\n' + ('g = MeasurementGroup(g)\n' if frozen else '')
        for o in outs(P, pre + 'return [(k, [(k2, list(s2)) for k2, s2 in sub]) for k, sub in g]', ['imgs', 'method', 'm2'], L, hook=hook):
            if o.exc or o.empty():
                continue
            ct = content(o)
            if ct is None:
                ck.ok(None if lost(o.v) or o.v != ('list',) else False, rule, ww, show(o.v, 400))
                continue
            i, cnt, body = ct
            want = []
            for x in ms:
                sub = ('item', ('at', x, i), c(1))
                for y in (('call', sym('m2'), (sub,), ()), ('call', sym('m2'), (('list', ('all', sub)),), ())):
                    j = ('i', 1)
                    want.append(('tuple', (('item', ('at', x, i), c(0)), ('list', ('each', j, ('len', y), (((), (('one', ('tuple', (('item', ('at', y, j), c(0)), ('list', ('all', ('item', ('at', y, j), c(1))))))),)),))))))
            if body in want:
                ck.holds(rule, ww, 'nested split')
            else:
                judge(ck, rule, ww, o, body, want[0], 'subgroup i after a second split')
        # a plain group
        pre = 'g = ImageGroup(images=list(imgs))\n' + ('g = MeasurementGroup(g)\n' if frozen else '')
        for o in outs(P, pre + 'return list(g)', ['imgs'], {}, hook=lambda q: True if q[0] == 'list' else None):
            if not o.exc:
                judge(ck, rule, where(P, ('MeasurementGroup' if frozen else 'ImageGroup') + '.__init__'), o, o.v, ('list', ('all', sym('imgs'))), 'images of a plain group')
    # editing
    w = where(P, 'ImageGroup.add_images')
    for single in (True, False):
        for o in outs(P, 'g = ImageGroup(images=list(imgs))\ng.add_images(x)\nreturn list(g), len(g)', ['imgs', 'x'], {('isinstance', sym('x'), 'MeasurementImage'): single}):
            if o.exc:
                ck.fail('group-edit', w, 'raises %s' % o.exc)
                continue
            add = ('one', sym('x')) if single else ('all', sym('x'))
            judge(ck, 'group-edit', w, o, o.v[1][0], ('list', ('all', sym('imgs')), add), 'images after adding')
    for o in outs(P, 'g = ImageGroup(subgroups=list(sg))\ng.add_images(x)\nreturn list(g)', ['sg', 'x']):
        ck.ok(o.exc == 'ValueError', 'group-edit', w, 'adding images to a split group gives %s' % (o.exc or show(o.v)))
    w = where(P, 'ImageGroup.add_subgroup')
    for o in outs(P, 'g = ImageGroup(subgroups=list(sg))\ng.add_subgroup(n, x)\nreturn list(g)', ['sg', 'n', 'x']):
        if o.exc:
            ck.ok(any(q[0] == 'in' and b for q, b in o.pc), 'group-edit', w, 'raises %s %s' % (o.exc, o.text()))
            continue
        ck.ok(any(q[0] == 'in' and q[1] == sym('n') and not b for q, b in o.pc) or None, 'group-edit', w, 'an existing name is refused %s' % o.text())
        judge(ck, 'group-edit', w, o, o.v, ('list', ('all', sym('sg')), ('one', ('tuple', (sym('n'), sym('x'))))), 'subgroups after adding')
    for o in outs(P, 'g = ImageGroup(images=list(imgs))\ng.add_subgroup(n, x)\nreturn list(g)', ['imgs', 'n', 'x']):
        ck.ok(o.exc is not None, 'group-edit', w, 'a subgroup is added to a group of images')
    # access
    for cls, pre in (('ImageGroup', 'g = ImageGroup(subgroups=[(n1, g1), (n2, g2), (n3, g3)])\n'),):
        for k in (1, 2, 3):
            A = {('==',) + tuple(sorted((sym('n%d' % a), sym('q')), key=repr)): a == k for a in (1, 2, 3)}
            for o in outs(P, pre + 'return g[q]', ['n1', 'g1', 'n2', 'g2', 'n3', 'g3', 'q'], A):
                judge(ck, 'group-access', where(P, cls + '.__getitem__'), o, o.v if not o.exc else ('raises', o.exc), sym('g%d' % k), 'the subgroup of that name')
        A = {('==',) + tuple(sorted((sym('n%d' % a), sym('q')), key=repr)): False for a in (1, 2, 3)}
        for o in outs(P, pre + 'return g[q]', ['n1', 'g1', 'n2', 'g2', 'n3', 'g3', 'q'], A):
            ck.ok(o.exc == 'KeyError', 'group-access', where(P, cls + '.__getitem__'), 'an unknown name gives %s' % (o.exc or show(o.v)))
    for code, want in (('g = ImageGroup(subgroups=[(n1, g1), (n2, g2)])\nreturn len(g)', c(2)), ('g = ImageGroup(images=[a, b, d])\nreturn len(g)', c(3)),
                       ('g = MeasurementGroup(ImageGroup(images=[a, b, d]))\nreturn len(g)', c(3))):
        for o in outs(P, code, ['n1', 'n2', 'g1', 'g2', 'a', 'b', 'd']):
            if not o.exc:
                judge(ck, 'group-access', where(P, ('MeasurementGroup' if 'Meas' in code else 'ImageGroup') + '.__len__'), o, o.v, want, 'length')
    for code in ('g = MeasurementGroup(ImageGroup(images=[a, b, d]))\nreturn g[1]',):
        for o in outs(P, code, ['a', 'b', 'd']):
            judge(ck, 'group-access', where(P, 'MeasurementGroup.__getitem__'), o, o.v if not o.exc else ('raises', o.exc), sym('b'), 'image by index')
    for code, want in (('return ImageGroup(images=[a]).is_leaf()', True), ('return ImageGroup(subgroups=[(a, b)]).is_leaf()', False), ('return MeasurementGroup(ImageGroup(images=[a])).is_leaf()', True)):
        for o in outs(P, code, ['a', 'b']):
            ck.ok((o.v == c(want)) if is_const(o.v or ()) else None, 'group-access', where(P, ('MeasurementGroup' if 'Meas' in code else 'ImageGroup') + '.is_leaf'), 'leaf: %s' % show(o.v))


def grouping(ck, P):
    ck.rule('grouping-once', 'grouping by keyword or pattern puts each image once into the list of its own key, and an image without the key is an error')
    R = 'grouping-once'
    for cls, ctor, keyof in (('ByKeyword', 'ByKeyword(key)', lambda x: ('item', ('attr', x, 'meta'), sym('key'))),
                             ('ByPattern', 'ByPattern(key, pat)', lambda x: ('call', ('attr', ('call', ('ext', 're.match'), (sym('pat'), ('item', ('attr', x, 'meta'), sym('key'))), ()), 'group'), (c(1),), ()))):
        w = where(P, cls + '.__call__')
        for o in outs(P, 'return %s(imgs)' % ctor, ['key', 'imgs', 'pat']):
            if o.exc:
                ck.ok(o.exc == 'KeyError' and "'in', ('sym', 'key')" in repr(o.pc), R, w, 'raises %s %s' % (o.exc, o.text()))
                continue
            raw = o.raw
            # [(k, d[k]) for k in d]: one entry per key of the dictionary
            d = None
            if raw[0] == 'list' and len(raw) == 2 and raw[1][0] == 'each' and len(raw[1][3]) == 1 and not raw[1][3][0][0]:
                k, src, body = raw[1][1], raw[1][2], raw[1][3][0][1]
                if src[0] in ('keys', 'items') and src[1][0] == 'dict' and len(body) == 1 and body[0][0] == 'one':
                    d = src[1]
                    e = ('elem', src, k)
                    ke = ('elem', ('keys', d), k)
                    good = body[0][1] in (('tuple', (e, ('item', d, e))), ('tuple', (ke, ('item', d, ke))), ('tuple', (('item', e, c(0)), ('item', e, c(1)))))
                    if not good and body[0][1][0] == 'tuple':
                        t = body[0][1][1]
                        good = len(t) == 2 and t[0] in (e, ke) and t[1][0] == 'item' and t[1][2] in (e, ke)
                    ck.ok(good or None, R, w, 'entries of the result %s' % show(body, 300))
            elif raw[0] == 'list' and len(raw) == 2 and raw[1][0] == 'all' and raw[1][1][0] == 'items':
                d = raw[1][1][1]
            if d is None or len(d) != 2 or d[1][0] != 'each':
                ck.undecided(R, w, show(raw, 300))
                continue
            k, src = d[1][1], d[1][2]
            x = ('elem', src, k)
            ck.ok(src == sym('imgs') or None, R, w, 'images grouped: %s' % show(src))
            want = keyof(x)
            effs = [e for e in o.eff if e[0] == 'each' and e[2] == src]
            for g, its in d[1][3]:
                inside = [(q, b) for q, b in g if q[0] == 'in' and isinstance(q[2], tuple) and q[2][0] in ('obj', 'dict')]
                keyed = [(q, b) for q, b in g if q[0] == 'in' and q[1] == sym('key')]
                ck.ok(bool(keyed) and all(b for q, b in keyed) or None, R, w, 'the image has the key')
                if len(inside) != 1:
                    ck.undecided(R, w, 'alternative %s' % show(tuple(its), 300))
                    continue
                q, b = inside[0]
                if q[1] != want:
                    judge(ck, R, w, o, q[1], want, 'the key looked up')
                if b:
                    ap = [y for e in effs for g2, ys in e[3] if any(bb and qq[0] == 'in' and qq[1] == q[1] and qq[2][0] in ('obj', 'dict', 'prev') for qq, bb in g2) for y in ys if y[0] == 'call' and y[1][0] == 'attr' and y[1][2] == 'append']
                    if its:
                        ck.fail(R, w, 'the entry of a key that is already there is replaced by %s' % show(tuple(its), 300))
                    elif len(ap) == 1:
                        ck.ok(ap[0][2] == (x,) and ap[0][1][1][0] == 'item' and ap[0][1][1][2] == want or (None if lost(ap[0][2]) else False), R, w, 'image of a known key: %s' % show(ap[0], 300))
                    else:
                        ck.ok(None if len(effs) > 1 else False, R, w, 'an image of a known key is appended %d times' % len(ap))
                else:
                    if len(its) == 1 and its[0][0] == 'set':
                        judge(ck, R, w, o, its[0][1:], (want, ('list', ('one', x))), 'first image of a key')
                    else:
                        ck.ok(None if its else False, R, w, 'first image of a key: %s' % show(tuple(its), 300))


# ------------------------------------------------------------------------------------------------ the functions of the configuration scripts
def compat(ck, P):
    ck.rule('compat-forward', 'each configuration function calls the method of the same name of the global configuration with the same arguments and returns its value')
    mod = P.mods['compat']
    R = 'compat-forward'
    G = ('global', 'measurement_config', 'global_measurement_config')
    pre = {'add_aperture_photometry': 'target', 'add_model': 'group'}
    seen = 0
    for name, f in sorted(mod.funcs.items()):
        if name.startswith('_'):
            continue
        ps = [a.arg for a in f.node.args.args]
        va = f.node.args.kwarg is not None
        call = ', '.join('%s=%s' % (p, 'a_' + p) for p in ps) + (', extra=xx' if va else '')
        cls = 'MeasurementConfig' if P.method('MeasurementConfig', name) else 'ModelFitting'
        meth = P.method(cls, name)
        if meth is None:
            ck.undecided(R, f.loc, 'no method of that name')
            continue
        for o in outs(P, 'return %s(%s)' % (name, call), ['a_' + p for p in ps] + ['xx'], mod='compat'):
            calls = [e for e in o.eff if e[0] == 'call']
            if o.exc or not calls:
                ck.fail(R, f.loc, 'raises %s' % o.exc if o.exc else 'does not call %s' % name)
                continue
            seen += 1
            last = calls[-1]
            obj = last[1][1] if last[1][0] in ('meth', 'attr') else None
            want_obj = G if cls == 'MeasurementConfig' else ('attr', G, 'model_fitting')
            b = bound(P, cls, ('call', last[1], last[2], last[3]))
            if obj is None or b is None or b[1] is None:
                ck.undecided(R, f.loc, show(last, 300))
                continue
            judge(ck, R, f.loc, o, (obj, b[0]), (want_obj, name), 'called method')
            mps = [a.arg for a in meth.node.args.args][1:]
            want = {m: sym('a_' + p) for p, m in zip(ps, mps)} if len(mps) == len(ps) else None
            if want is not None and all(p in mps for p in ps):
                want = {p: sym('a_' + p) for p in ps}
            if want is None:
                ck.undecided(R, f.loc, 'parameters %s / %s' % (ps, mps))
                continue
            if va:
                want['extra'] = sym('xx')
            judge(ck, R, f.loc, o, b[1], want, 'arguments of %s' % name)
            if returns(meth):
                judge(ck, R, f.loc, o, o.raw, ('call', last[1], last[2], last[3]), 'value of %s' % name)
            before = calls[:-1]
            if name in pre:
                wb = ('call', ('attr', G, 'add_measurement_image'), (sym('a_' + pre[name]),), ())
                wm = ('call', ('meth',) + wb[1][1:], wb[2], wb[3])
                ck.ok(len(before) == 1 and before[0] in (wb, wm) or (None if len(before) > 1 else False), R, f.loc, 'the images measured are registered first: %s' % show(tuple(before), 200))
            else:
                ck.ok(not before or None, R, f.loc, 'nothing else is called: %s' % show(tuple(before), 200))
            # the same defaults
            import ast
            dd = [ast.unparse(d) for d in f.node.args.defaults]
            md = [ast.unparse(d) for d in meth.node.args.defaults]
            ck.ok(dd == md, R, f.loc, 'defaults of %s: %s, of the method: %s' % (name, dd, md))
    ck.ok(seen >= 12 or None, R, 'compat.py', '%d functions' % seen)


def returns(m):
    import ast
    return any(isinstance(x, ast.Return) and x.value is not None for x in ast.walk(m.node))


def apertures(ck, P):
    ck.rule('aperture-targets', 'each target image gets the requested apertures once, and they are returned in the order of the targets')
    w = where(P, 'MeasurementConfig.add_aperture_photometry')
    R = 'aperture-targets'
    A = {('isinstance', sym('t'), 'list'): False, ('isinstance', sym('t'), 'MeasurementGroup'): False, ('isinstance', sym('t'), 'MeasurementImage'): True}
    for many in (False, True):
        A[('isinstance', sym('a'), 'list')] = many
        for o in outs(P, 'mc = MeasurementConfig()\nr = mc.add_aperture_photometry(t, a)\nreturn r, mc.apertures_for_image', ['t', 'a'], A):
            if o.exc:
                ck.fail(R, w, 'raises %s %s' % (o.exc, o.text()))
                continue
            r, d = o.v[1]
            fl = lambda x: ('float', x)
            ap = ('list', ('each', ('i', 0), ('len', sym('a')), (((), (('one', fl(('at', sym('a'), ('i', 0)))),)),))) if many else ('list', ('one', fl(sym('a'))))
            made = [x for x in _calls(o.v) if x[1] == ('ext', '_SourceXtractorPy.Aperture')]
            if len(set(made)) != 1:
                ck.undecided(R, w, show(o.v, 400))
                continue
            judge(ck, R, w, o, made[0][2], (ap,), 'apertures')
            judge(ck, R, w, o, r, ('list', ('one', made[0])), 'returned')
            judge(ck, R, w, o, d, ('dict', ('set', ('attr', sym('t'), 'id'), made[0])), 'apertures of the image')
    # twice the same image is an error
    A[('isinstance', sym('a'), 'list')] = True
    for o in outs(P, 'mc = MeasurementConfig()\nmc.add_aperture_photometry(t, a)\nmc.add_aperture_photometry(t, a)', ['t', 'a'], A):
        ck.ok(o.exc is not None, R, w, 'a second set of apertures of an image is refused')
    # a leaf group with a single image stands for the image
    for o in outs(P, 'mc = MeasurementConfig()\nmc.add_aperture_photometry(MeasurementGroup(ImageGroup(images=[t])), a)\nreturn mc.apertures_for_image', ['t', 'a'], A):
        if o.exc:
            ck.fail(R, w, 'raises %s %s' % (o.exc, o.text()))
        else:
            ks = {x[1] for x in o.v[1:] if x[0] == 'set'} if o.v[0] == 'dict' else None
            judge(ck, R, w, o, ks, {('attr', sym('t'), 'id')}, 'image of a single image group')
    for o in outs(P, 'mc = MeasurementConfig()\nmc.add_aperture_photometry(MeasurementGroup(ImageGroup(images=[t, u])), a)\nreturn mc.apertures_for_image', ['t', 'u', 'a'], A):
        ck.ok(o.exc is not None, R, w, 'a group of several images is refused')


def _calls(v):
    out = []
    if isinstance(v, tuple):
        if v and v[0] == 'call':
            out.append(v)
        for x in v:
            out += _calls(x)
    return out


def fitsfile(ck, P):
    ck.rule('fits-headers', 'a FITS file lists its image HDUs in order and the headers of the HDU it is asked for')
    w = where(P, 'FitsFile.__init__')
    for o in outs(P, 'f = FitsFile(n)\nreturn f.hdu_list, list(f)', ['n']):
        l = o.v[1][0]
        src = l[1][1] if l[0] == 'list' and len(l) == 2 and l[1][0] == 'all' else None
        ck.ok((src[0] == 'attr' and src[2] == 'image_hdus') if src else None, 'fits-headers', w, 'HDUs: %s' % show(l))
        ck.ok(o.v[1][1] == l or None, 'fits-headers', w, 'iteration yields the HDUs')
    w = where(P, 'FitsFile.get_headers')


def run(ck):
    P = Prog()
    ck.F = P
    for s in (image_rules, slice_rules, image_loading, cube_loading, list_loading, registering, groups, grouping, compat, apertures, fitsfile):
        ck.section(s, ck, P)
    ck.assumptions += ['Python sources are read from SEImplementation/python; objects of _SourceXtractorPy (C++ bindings), numpy and astropy are opaque',
                       'a parameter documented as a list is a list; the FITS library lists the image HDUs of a file']
    return 60
