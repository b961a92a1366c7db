"""C21: Python model-fitting configuration."""
import ast
from sx import pysym
from sx.pysym import *
from checks.c20 import outs, where, judge, unknown, norm, bound

PARAM = ('ParameterBase', 'ConstantParameter', 'FreeParameter', 'DependentParameter')


def idish(x, tab):
    """a given value, its identifier, or the identifier of an object made here: all different"""
    return x in tab or x[:1] == ('attr',) and x[2] == 'id' and (x[1] in tab or x[1][:1] == ('self',))


def kinds(P, names, calls=()):
    """answers for the kinds of the free variables: {name: class or 'value'}; calls: the names that are callable"""
    tab = {sym(n): k for n, k in names.items()}

    def f(q):
        if q[0] == 'isinstance' and q[1] in tab and isinstance(q[2], str):
            k = tab[q[1]]
            return k == q[2] or (k in P.classes and q[2] in P.classes and q[2] in P.mro(k))
        if q[0] == 'issubclass' and isinstance(q[1], tuple) and q[1][:1] == ('typeof',):
            pass
        if q[0] == 'hasattr' and q[1] in tab and q[2] == c('__call__'):
            return q[1][1] in calls
        if q[0] == 'is' and q[1] in tab and q[2] == NONE:
            return False
        if q in tab:
            return True
        if q[0] == '==' and q[1] != q[2] and all(idish(x, tab) for x in q[1:]):
            return False
        return None
    return f


def go(P, code, names, calls=(), assume=None, opaque=(), free=()):
    return outs(P, code, list(names) + list(free), assume, opaque, hook=kinds(P, names, calls), rec=4)


def fine(ck, rule, w, o, what):
    if o.exc:
        ck.fail(rule, w, '%s raises %s %s' % (what, o.exc, o.text()))
    return not o.exc


MODELS = {
    'PointSourceModel': (['x_coord', 'y_coord', 'flux'], 'point_source_model_dict'),
    'ConstantModel': (['value'], 'constant_model_dict'),
    'SersicModel': (['x_coord', 'y_coord', 'flux', 'effective_radius', 'aspect_ratio', 'angle', 'n'], 'sersic_model_dict'),
    'ExponentialModel': (['x_coord', 'y_coord', 'flux', 'effective_radius', 'aspect_ratio', 'angle'], 'exponential_model_dict'),
    'DeVaucouleursModel': (['x_coord', 'y_coord', 'flux', 'effective_radius', 'aspect_ratio', 'angle'], 'de_vaucouleurs_model_dict'),
}
DICTS = [d for _, d in MODELS.values()] + ['onnx_model_dict']
PDICTS = {'ConstantParameter': 'constant_parameter_dict', 'FreeParameter': 'free_parameter_dict', 'DependentParameter': 'dependent_parameter_dict'}


def models(ck, P):
    ck.rule('model-params', 'each argument of a model is the parameter of that name, a value becomes a constant parameter of that value, and all of them are among the parameters of the model')
    ck.rule('model-text', 'describing a model shows each parameter under its own name and does not fail')
    for cls, (ps, _) in MODELS.items():
        w = where(P, cls + '.__init__')
        names = {p: 'FreeParameter' for p in ps}
        call = '%s(%s)' % (cls, ', '.join('%s=%s' % (p, p) for p in ps))
        for o in go(P, 'm = %s\nreturn m.get_params(), %s' % (call, ', '.join('m.' + p for p in ps)), names):
            if not fine(ck, 'model-params', w, o, cls):
                continue
            got = o.v[1]
            lst = [x[1] for x in got[0][1:]] if got[0][0] == 'list' and all(x[0] == 'one' for x in got[0][1:]) else None
            for p, g in zip(ps, got[1:]):
                judge(ck, 'model-params', w, o, g, sym(p), 'attribute %s of %s' % (p, cls))
                if lst is None:
                    ck.undecided('model-params', w, show(got[0], 300))
                else:
                    ck.ok(sym(p) in lst or (None if lost(got[0]) or unknown(got[0]) else False), 'model-params', where(P, cls + '.get_params'), '%s of %s among its parameters' % (p, cls))
        for p in ps:
            nm = dict(names)
            nm[p] = 'value'
            for o in go(P, 'm = %s\nreturn m.%s.get_value(obj), type(m.%s), m.%s in m.get_params()' % (call, p, p, p), nm, free=['obj']):
                if fine(ck, 'model-params', w, o, cls):
                    judge(ck, 'model-params', w, o, o.v[1][0], sym(p), 'value given as %s of %s' % (p, cls))
        for show_ in (True, False):
            for o in go(P, 'm = %s\nreturn m.to_string(show_params=%s)' % (call, show_), names):
                wt = where(P, cls + '.to_string')
                if not fine(ck, 'model-text', wt, o, 'to_string'):
                    continue
                text(ck, P, wt, o, ps, lambda p: sym(p) if show_ else ('attr', sym(p), 'id'))
    w = where(P, 'ComputeGraphModel.__init__')
    base = ['x_coord', 'y_coord', 'flux']
    for given in ((), ('_scale',), ('_angle', 'k'), ('_aspect_ratio', '_scale', 'k'), ('k', 'l')):
        for kind in ('FreeParameter', 'value'):
            names = {p: 'FreeParameter' for p in base}
            names.update({'p' + k: kind for k in given})
            names['ms'] = 'value'
            d = '{%s}' % ', '.join('%r: p%s' % (k, k) for k in given)
            for o in go(P, 'd = %s\nm = ComputeGraphModel(ms, x_coord, y_coord, flux, d)\nreturn d, m.params, m.get_params(), m.scale, m.angle, m.aspect_ratio, m.x_coord, m.y_coord, m.flux' % d, names):
                if not fine(ck, 'model-params', w, o, 'ComputeGraphModel'):
                    continue
                t = o.raw[1]
                judge(ck, 'model-params', w, o, o.v[1][0], ('dict',) + tuple(('set', c(k), sym('p' + k)) for k in given), 'the caller\'s parameters after the call')
                own = {k for k in given if not k.startswith('_')}
                have = {x[1][1] for x in t[1][1:] if x[0] == 'set'} if t[1][0] == 'dict' else None
                judge(ck, 'model-params', w, o, have, own, 'parameters of the graph')
                lst = [x[1] for x in t[2][1:] if x[0] == 'one'] if t[2][0] == 'list' else []
                full = t[2][0] == 'list' and all(x[0] == 'one' for x in t[2][1:])
                want = list(t[3:]) + [x[2] for x in t[1][1:] if x[0] == 'set']
                for q in want:
                    ck.ok(q in lst or (None if not full or lost(t[2]) else False), 'model-params', where(P, 'ComputeGraphModel.get_params'), '%s among the parameters' % show(q, 100))
                for nm, at in (('_scale', 3), ('_angle', 4), ('_aspect_ratio', 5)):
                    if nm in given:
                        if kind == 'FreeParameter':
                            judge(ck, 'model-params', w, o, t[at], sym('p' + nm), nm)
                if kind == 'FreeParameter':
                    for k in own:
                        judge(ck, 'model-params', w, o, {x[1][1]: x[2] for x in t[1][1:]}.get(k), sym('p' + k), 'parameter %s' % k)
                for p, g in zip(base, t[6:]):
                    judge(ck, 'model-params', w, o, g, sym(p), p)
    dflt = {'scale': 1.0, 'angle': 0.0, 'aspect_ratio': 1.0}
    for o in go(P, 'm = ComputeGraphModel(ms, x_coord, y_coord, flux)\nreturn m.scale.get_value(z), m.angle.get_value(z), m.aspect_ratio.get_value(z)', {**{p: 'FreeParameter' for p in base}, 'ms': 'value'}, free=['z']):
        if fine(ck, 'model-params', w, o, 'ComputeGraphModel'):
            judge(ck, 'model-params', w, o, o.v[1], tuple(c(dflt[x]) for x in ('scale', 'angle', 'aspect_ratio')), 'default shape')
    for k in ('_scale', '_angle', '_aspect_ratio', 'q'):
        at = k[1:] if k[0] == '_' else 'params["q"]'
        for o in go(P, 'm = ComputeGraphModel(ms, x_coord, y_coord, flux, {%r: v})\nreturn m.%s.get_value(z)' % (k, at), {**{p: 'FreeParameter' for p in base}, 'ms': 'value', 'v': 'value'}, free=['z']):
            if fine(ck, 'model-params', w, o, 'ComputeGraphModel'):
                judge(ck, 'model-params', w, o, o.v, sym('v'), 'value given as %s' % k)
    for show_ in (True, False):
        for o in go(P, 'm = ComputeGraphModel(ms, x_coord, y_coord, flux, {"_scale": scale, "_angle": angle, "_aspect_ratio": aspect_ratio})\nreturn m.to_string(show_params=%s)' % show_, {**{p: 'FreeParameter' for p in base + ['scale', 'angle', 'aspect_ratio']}, 'ms': 'value'}):
            wt = where(P, 'ComputeGraphModel.to_string')
            if fine(ck, 'model-text', wt, o, 'to_string'):
                text(ck, P, wt, o, base + ['scale', 'aspect_ratio', 'angle'], lambda p: sym(p) if show_ else ('attr', sym(p), 'id'))


def text(ck, P, w, o, ps, want):
    """a format string 'Name[a={}, b={}]' with one argument per field"""
    v = o.v
    if v[0] != 'fmt' or v[1][0] != 'const':
        return ck.undecided('model-text', w, show(v, 300))
    import string
    fields, pos = {}, 0
    try:
        for lit, fld, spec, conv in string.Formatter().parse(v[1][1]):
            if fld is None:
                continue
            name = lit.rstrip('=').split('[')[-1].split(',')[-1].strip()
            if fld == '':
                fields[name] = v[2][pos] if pos < len(v[2]) else ('missing',)
                pos += 1
            elif fld.isdigit():
                fields[name] = v[2][int(fld)] if int(fld) < len(v[2]) else ('missing',)
            else:
                fields[name] = dict(v[3]).get(fld, ('missing',))
    except ValueError:
        return ck.fail('model-text', w, 'bad format %s' % v[1][1])
    for n, g in fields.items():
        if g == ('missing',):
            ck.fail('model-text', w, 'no argument for %s' % n)
        elif n in ps:
            judge(ck, 'model-text', w, o, g, want(n), 'shown as %s' % n)
    missing = [p for p in ps if p not in fields]
    ck.ok(None if missing else True, 'model-text', w, 'not shown by that name: %s' % missing)


def registering(ck, P):
    ck.rule('param-register', 'registering a parameter files it under its kind and, for a dependent parameter, registers the parameters it depends on')
    ck.rule('model-register', 'a model is filed under its own kind only')
    ck.rule('model-frames', 'adding a model to a group attaches it once to every image of the group, nested groups included')
    ck.rule('model-complete', 'adding a model or a prior registers every parameter it uses')
    ck.rule('register-error', 'registering valid objects does not fail')
    w = where(P, 'ModelFitting._register_parameter')
    dicts = 'm.constant_parameter_dict, m.free_parameter_dict, m.dependent_parameter_dict'
    order = ['ConstantParameter', 'FreeParameter', 'DependentParameter']
    for kind in order:
        for o in go(P, 'm = ModelFitting()\nm._register_parameter(p)\nreturn ' + dicts, {'p': kind}):
            if not fine(ck, 'register-error', w, o, 'registering'):
                continue
            for k, d in zip(order, o.v[1]):
                if kind == 'DependentParameter':
                    if k == kind:
                        ck.ok(('set', ('attr', sym('p'), 'id'), sym('p')) in d[1:] or (None if lost(d) or unknown(d) else False), 'param-register', w, 'a dependent parameter is filed')
                else:
                    judge(ck, 'param-register', w, o, d, ('dict', ('set', ('attr', sym('p'), 'id'), sym('p'))) if k == kind else ('dict',), '%s filed in the table of %s' % (kind, k))
    # a dependent parameter: the parameters it refers to
    for o in go(P, 'm = ModelFitting()\nm._register_parameter(DependentParameter(f, a, b, d))\nreturn ' + dicts, {'a': 'ConstantParameter', 'b': 'FreeParameter', 'd': 'DependentParameter'}, free=['f']):
        if not fine(ck, 'register-error', w, o, 'registering'):
            continue
        have = [{x[1]: x[2] for x in d[1:] if x[0] == 'set'} for d in o.v[1]]
        for n, k in (('a', 0), ('b', 1), ('d', 2)):
            g = have[k].get(('attr', sym(n), 'id'))
            rec = any(e[0] == 'call' and '_register_parameter' in repr(e[1]) and sym(n) in e[2] for e in _flat(o.eff))
            ck.ok(g == sym(n) or rec or (None if lost(o.v) or unknown(o.v) else False), 'param-register', w, 'parameter %s of a dependent parameter is registered %s' % (n, o.text()))
    # the parameters of a dependent parameter of a dependent parameter
    deep = 'm = ModelFitting()\nm._register_parameter(DependentParameter(f, DependentParameter(g, a)))\nreturn ' + dicts
    for o in go(P, deep, {'a': 'FreeParameter'}, free=['f', 'g']):
        if fine(ck, 'register-error', w, o, 'registering'):
            g = {x[1]: x[2] for x in o.v[1][1][1:] if x[0] == 'set'}.get(('attr', sym('a'), 'id'))
            rec = any(e[0] == 'call' and '_register_parameter' in repr(e[1]) and sym('a') in e[2] for e in _flat(o.eff))
            ck.ok(g == sym('a') or rec or (None if lost(o.v) or unknown(o.v) else False), 'param-register', w, 'parameters of nested dependent parameters %s' % o.text())
    # models
    w = where(P, 'ModelFitting._register_model')
    for cls, (ps, mine) in list(MODELS.items()) + [('ComputeGraphModel', (['x_coord', 'y_coord', 'flux'], 'onnx_model_dict'))]:
        for o in go(P, 'm = ModelFitting()\nm._register_model(p)\nreturn ' + ', '.join('m.' + d for d in DICTS), {'p': cls}):
            if not fine(ck, 'register-error', w, o, 'registering a ' + cls):
                continue
            for d, g in zip(DICTS, o.v[1]):
                judge(ck, 'model-register', w, o, g, ('dict', ('set', ('attr', sym('p'), 'id'), sym('p'))) if d == mine else ('dict',), '%s in %s' % (cls, d))
    for o in go(P, 'm = ModelFitting()\nm._register_model(p)\n', {'p': 'value'}):
        ck.ok(o.exc == 'TypeError', 'model-register', w, 'an unknown model gives %s' % o.exc)
    # adding a model: frames
    w = where(P, 'ModelFitting.add_model')
    imgs = {n: 'MeasurementImage' for n in ('i1', 'i2', 'i3')}
    shapes = {'MeasurementGroup(ImageGroup(images=[i1, i2, i3]))': ['i1', 'i2', 'i3'],
              'MeasurementGroup(ImageGroup(subgroups=[("a", ImageGroup(images=[i1])), ("b", ImageGroup(images=[i2, i3]))]))': ['i1', 'i2', 'i3'],
              'MeasurementGroup(ImageGroup(subgroups=[("a", ImageGroup(images=[i1, i2])), ("b", ImageGroup(subgroups=[("x", ImageGroup(images=[i3]))]))]))': ['i1', 'i2', 'i3']}
    for code, want in shapes.items():
        for o in go(P, 'm = ModelFitting()\ng = %s\nm.add_model(g, PointSourceModel(x, y, f))\nm2 = ConstantModel(v)\nm.add_model(g, m2)\nreturn m.frame_models_dict, m.point_source_model_dict, m.constant_model_dict, m.free_parameter_dict' % code, {**imgs, **{k: 'FreeParameter' for k in 'xyfv'}}):
            if not fine(ck, 'register-error', w, o, 'add_model'):
                continue
            fr, ps, cm, fp = o.v[1]
            p1 = [x[1] for x in ps[1:] if x[0] == 'set']
            p2 = [x[1] for x in cm[1:] if x[0] == 'set']
            if len(p1) != 1 or len(p2) != 1:
                ck.fail('model-frames', w, 'models registered: %s, %s' % (show(ps, 200), show(cm, 200)))
                continue
            got = {x[1]: x[2] for x in fr[1:] if x[0] == 'set'}
            full = fr[0] == 'dict' and all(x[0] == 'set' for x in fr[1:])
            recs = [e for e in _flat(o.eff) if e[0] == 'call' and '_set_model_to_frames' in repr(e[1])]
            for i in want:
                g = got.get(('attr', sym(i), 'id'))
                exp = ('list', ('one', p1[0]), ('one', p2[0]))
                if g is None:
                    rec = any(('one', sym(i)) in _subterms(e[2]) and p1[0] in _subterms(e[2]) for e in recs)
                    ck.ok(True if rec else None if not full or recs or lost(fr) else False, 'model-frames', where(P, 'ModelFitting._set_model_to_frames'), 'image %s of %s has no model' % (i, code))
                else:
                    judge(ck, 'model-frames', where(P, 'ModelFitting._set_model_to_frames'), o, g, exp, 'models of image %s' % i)
            have = {x[1] for x in fp[1:] if x[0] == 'set'}
            for k in 'xyfv':
                ck.ok(('attr', sym(k), 'id') in have or (None if lost(fp) else False), 'model-complete', w, 'parameter %s of the model is registered' % k)
    for o in go(P, 'm = ModelFitting()\nm.add_model(g, p)', {'g': 'value', 'p': 'PointSourceModel'}):
        ck.ok(o.exc == 'TypeError', 'register-error', w, 'a model added to something that is not a group gives %s' % o.exc)
    # each kind of model is filed with its parameters
    for cls, (ps, mine) in MODELS.items():
        for o in go(P, 'm = ModelFitting()\nm.add_model(MeasurementGroup(ImageGroup(images=[i1])), %s(%s))\nreturn m.%s, m.free_parameter_dict' % (cls, ', '.join('%s=%s' % (p, p) for p in ps), mine), {'i1': 'MeasurementImage', **{p: 'FreeParameter' for p in ps}}):
            if not fine(ck, 'register-error', w, o, 'add_model'):
                continue
            ck.ok(len(o.v[1][0]) == 2, 'model-register', w, '%s registered by add_model' % cls)
            have = {x[1] for x in o.v[1][1][1:] if x[0] == 'set'}
            for p in ps:
                ck.ok(('attr', sym(p), 'id') in have or (None if lost(o.v) else False), 'model-complete', w, 'parameter %s of %s is registered' % (p, cls))
    for o in go(P, 'm = ModelFitting()\nm.add_model(MeasurementGroup(ImageGroup(images=[i1])), ComputeGraphModel(ms, x, y, f, {"_scale": s, "_angle": a, "_aspect_ratio": r, "k": k}))\nreturn m.onnx_model_dict, m.free_parameter_dict',
                {'i1': 'MeasurementImage', 'ms': 'value', **{p: 'FreeParameter' for p in 'xyfsark'}}):
        if fine(ck, 'register-error', w, o, 'add_model'):
            ck.ok(len(o.v[1][0]) == 2, 'model-register', w, 'ComputeGraphModel registered by add_model')
            have = {x[1] for x in o.v[1][1][1:] if x[0] == 'set'}
            for p in 'xyfsark':
                ck.ok(('attr', sym(p), 'id') in have or (None if lost(o.v) else False), 'model-complete', w, 'parameter %s of a compute graph is registered' % p)
    # whatever refers to a dependent parameter registers what that one refers to
    dep = 'DependentParameter(f, a, b, DependentParameter(g, e))'
    one = 'MeasurementGroup(ImageGroup(images=[i1]))'
    users = [('ModelFitting.add_prior', 'm = ModelFitting()\nm.add_prior(%s, v, s)' % dep), ('ModelFitting.add_prior', 'm = ModelFitting()\nm.add_prior(%s, %s, %s)' % (dep, 'f', 'g'))]
    users += [('MeasurementConfig.add_output_column', 'mc = MeasurementConfig()\nmc.add_output_column("n", %s)\nm = mc.model_fitting' % x) for x in (dep, '[%s]' % dep, '[a, %s]' % dep, '[%s, DependentParameter(f, v)]' % dep)]
    for cls, (ps, mine) in MODELS.items():
        for k in range(len(ps)):
            users.append(('ModelFitting.add_model', 'm = ModelFitting()\nm.add_model(%s, %s(%s))' % (one, cls, ', '.join(dep if i == k else 'v' for i in range(len(ps))))))
    for k in range(4):
        users.append(('ModelFitting.add_model', 'm = ModelFitting()\nm.add_model(%s, ComputeGraphModel("ms", %s, {"_scale": v, "k": %s}))' % (one, ', '.join(dep if i == k else 'v' for i in range(3)), dep if k == 3 else 'v')))
    for wq, code in users:
        w = where(P, wq)
        for o in go(P, code + '\nreturn ' + dicts, {'i1': 'MeasurementImage', 'a': 'ConstantParameter', 'b': 'FreeParameter', 'e': 'FreeParameter', 'v': 'FreeParameter', 's': 'value'}, free=['f', 'g']):
            if not fine(ck, 'register-error', w, o, 'registering'):
                continue
            have = [{x[1]: x[2] for x in d[1:] if x[0] == 'set'} for d in o.v[1]]
            for n, k in (('a', 0), ('b', 1), ('e', 1)):
                ck.ok(have[k].get(('attr', sym(n), 'id')) == sym(n) or (None if lost(o.v) or unknown(o.v) else False), 'model-complete', w, 'parameter %s of a dependent parameter is registered by %s' % (n, code.split('\n')[-1]))
            ck.ok(len(have[2]) >= 2 or (None if lost(o.v) or any(e[0] == 'each' for e in o.eff) or any(x[0] != 'set' for d in o.v[1] for x in d[1:]) else False), 'model-complete', w, 'the dependent parameters are registered by %s' % code.split('\n')[-1])
    # priors
    w = where(P, 'ModelFitting.add_prior')
    for kind, d in PDICTS.items():
        for o in go(P, 'm = ModelFitting()\nm.add_prior(p, v, s)\nreturn m.%s, m.prior_dict' % d, {'p': kind, 'v': 'value', 's': 'value'}):
            if not fine(ck, 'register-error', w, o, 'add_prior'):
                continue
            tab = {x[1]: x[2] for x in o.v[1][0][1:] if x[0] == 'set'}
            ck.ok(tab.get(('attr', sym('p'), 'id')) == sym('p') or (None if lost(o.v[1][0]) else False), 'model-complete', w, 'the parameter of a prior is registered')
            for o2 in go(P, 'm = ModelFitting()\nm.add_prior(p, v, s)\nq = list(m.prior_dict.values())[0]\nreturn q.param, q.value(z), q.sigma(z)', {'p': kind, 'v': 'value', 's': 'value', 'z': 'value'}):
                if fine(ck, 'register-error', w, o2, 'add_prior'):
                    judge(ck, 'model-complete', w, o2, o2.v[1], (('attr', sym('p'), 'id'), sym('v'), sym('s')), 'parameter, mean and deviation of the prior')
            pr = o.v[1][1][1:]
            good = len(pr) == 1 and pr[0][0] == 'set' and pr[0][1][0] == 'attr' and pr[0][1][2] == 'id' and pr[0][1][1][:2] == ('self', 'Prior') and pr[0][2][1] == 'Prior'
            ck.ok(good or (None if lost(o.v[1][1]) else False), 'model-complete', w, 'the prior is kept under its own identifier: %s' % show(o.v[1][1], 200))


def _subterms(v):
    if isinstance(v, tuple):
        yield v
        for x in v:
            yield from _subterms(x)


def _flat(effs):
    out = []
    for e in effs:
        if e[0] == 'each':
            for g, its in e[3]:
                out += _flat(its)
        else:
            out.append(e)
    return out


def callables(ck, P):
    ck.rule('param-value', 'values, ranges, normalisations and priors are what was given, or what the given function returns for its arguments')
    R = 'param-value'
    call = lambda f, *a: ('call', sym(f), tuple(sym(x) for x in a), ())
    it = lambda x, k: ('item', x, c(k))
    jobs = [
        ('Range(l, t)', 'r.get_min(v, o)', 'Range.__init__', it(call('l', 'v', 'o'), 0), it(sym('l'), 0)),
        ('Range(l, t)', 'r.get_max(v, o)', 'Range.__init__', it(call('l', 'v', 'o'), 1), it(sym('l'), 1)),
        ('Range(l, t)', 'r.get_type()', 'Range.get_type', sym('t'), sym('t')),
        ('Unbounded(l)', 'r.get_normalization_factor(v, o)', 'Unbounded.__init__', call('l', 'v', 'o'), sym('l')),
        ('ConstantParameter(l)', 'r.get_value(o)', 'ConstantParameter.__init__', call('l', 'o'), sym('l')),
        ('FreeParameter(l, t)', 'r.get_init_value(o)', 'FreeParameter.__init__', call('l', 'o'), sym('l')),
        ('FreeParameter(l, t)', 'r.get_range()', 'FreeParameter.get_range', sym('t'), sym('t')),
        ('Prior(t, l, v)', 'r.value(o)', 'Prior.__init__', call('l', 'o'), sym('l')),
        ('Prior(t, v, l)', 'r.sigma(o)', 'Prior.__init__', call('l', 'o'), sym('l')),
        ('Prior(t, v, l)', 'r.param', 'Prior.__init__', ('attr', sym('t'), 'id'), ('attr', sym('t'), 'id')),
        ('DependentParameter(l, t, v, o)', 'r.params', 'DependentParameter.__init__', ('list', ('one', sym('t')), ('one', sym('v')), ('one', sym('o'))), ('list', ('one', sym('t')), ('one', sym('v')), ('one', sym('o')))),
        ('DependentParameter(l, t, v, o)', 'r.func', 'DependentParameter.__init__', sym('l'), sym('l')),
    ]
    for ctor, ex, wq, wf, wv in jobs:
        w = where(P, wq)
        for fun in (True, False):
            for o in go(P, 'r = %s\nreturn %s' % (ctor, ex), {'l': 'value', 't': 'FreeParameter', 'v': 'value', 'o': 'value'}, calls=('l',) if fun else ()):
                if fine(ck, R, w, o, ctor):
                    judge(ck, R, w, o, o.v, wf if fun else wv, '%s.%s' % (ctor, ex[2:]))
    for o in go(P, 'r = Unbounded()\nreturn r.get_normalization_factor(v, o)', {'v': 'value', 'o': 'value'}):
        judge(ck, R, where(P, 'Unbounded.__init__'), o, o.v, c(1), 'default normalisation')
    for o in go(P, 'r = FreeParameter(v)\nreturn r.get_range().get_normalization_factor(v, o)', {'v': 'value', 'o': 'value'}):
        judge(ck, R, where(P, 'FreeParameter.__init__'), o, o.v, c(1), 'default range')
    at = lambda n: ('attr', sym('o'), n)
    for o in go(P, 'p = get_pos_parameters()\nreturn p[0].get_init_value(o), p[1].get_init_value(o), p[0].get_range().get_min(v, o), p[0].get_range().get_max(v, o), p[1].get_range().get_min(v, o), p[1].get_range().get_max(v, o), p[0].get_range().get_type(), p[1].get_range().get_type()', {'v': 'value', 'o': 'value'}):
        if fine(ck, R, where(P, 'get_pos_parameters'), o, 'get_pos_parameters'):
            algebra(ck, R, where(P, 'get_pos_parameters'), o, o.v[1][:6], (at('centroid_x'), at('centroid_y')) + (('op', '-', sym('v'), at('radius')), ('op', '+', sym('v'), at('radius'))) * 2, 'position parameters')
            lin = ('enum', 'RangeType', 'LINEAR')
            judge(ck, R, where(P, 'get_pos_parameters'), o, o.v[1][6:], (lin, lin), 'type of the ranges')
    for o in go(P, 'p = get_flux_parameter(scale=s)\nreturn p.get_init_value(o), p.get_range().get_min(v, o), p.get_range().get_max(v, o), p.get_range().get_type()', {'v': 'value', 'o': 'value', 's': 'value'}):
        if fine(ck, R, where(P, 'get_flux_parameter'), o, 'get_flux_parameter'):
            algebra(ck, R, where(P, 'get_flux_parameter'), o, o.v[1][:3], (('op', '*', at('isophotal_flux'), sym('s')), ('op', '*', sym('v'), c(1e-3)), ('op', '*', sym('v'), c(1e3))), 'flux parameter')
            judge(ck, R, where(P, 'get_flux_parameter'), o, o.v[1][3], ('enum', 'RangeType', 'EXPONENTIAL'), 'type of the range')
    # printing
    ck.rule('param-text', 'describing a parameter does not fail and shows its value')
    for ctor, n in (('ConstantParameter(l)', 'ConstantParameter'), ('FreeParameter(l, Range(k, RangeType.LINEAR))', 'FreeParameter'), ('FreeParameter(l)', 'FreeParameter'), ('Range(l, RangeType.LINEAR)', 'Range'), ('Range(l, RangeType.EXPONENTIAL)', 'Range'), ('Unbounded(l)', 'Unbounded'), ('DependentParameter(l, k)', None)):
        for fun in (True, False):
            for o in go(P, 'r = %s\nreturn str(r)' % ctor, {'l': 'value', 'k': 'value'}, calls=('l', 'k') if fun else ()):
                w = where(P, (n or 'ParameterBase') + '.__str__')
                fine(ck, 'param-text', w, o, 'str') and ck.holds('param-text', w, ctor)
    w = where(P, 'ModelFitting.print_parameters')
    for o in go(P, 'm = ModelFitting()\nm._register_parameter(a)\nm._register_parameter(b)\nm.print_parameters(file=f)', {'a': 'ConstantParameter', 'b': 'FreeParameter', 'f': 'value'}):
        fine(ck, 'param-text', w, o, 'print_parameters') and ck.holds('param-text', w, '')
    w = where(P, 'print_model_fitting_info')
    for code in ('MeasurementGroup(ImageGroup(images=[i1]))', 'MeasurementGroup(ImageGroup(subgroups=[("a", ImageGroup(images=[i1]))]))'):
        for show_ in (True, False):
            for o in go(P, 'm = ModelFitting()\ng = %s\nm.add_model(g, PointSourceModel(x, y, f))\nprint_model_fitting_info(g, %s, file=q)' % (code, show_), {'i1': 'MeasurementImage', **{k: 'FreeParameter' for k in 'xyf'}, 'q': 'value'}):
                fine(ck, 'param-text', w, o, 'print_model_fitting_info') and ck.holds('param-text', w, '')


# ------------------------------------------------------------------------------------------------ arithmetic
def toterm(v):
    """the arithmetic of a Python value; everything else is an uninterpreted application"""
    from sx import terms as t
    if not isinstance(v, tuple):
        return t.sym('py:%r' % (v,), 'r')
    if v[0] == 'const' and isinstance(v[1], (int, float)) and not isinstance(v[1], bool):
        return t.num(v[1])
    if v[0] == 'op' and len(v) == 4 and v[1] in ('+', '-', '*', '/'):
        a, b = toterm(v[2]), toterm(v[3])
        return {'+': t.add, '-': t.sub, '*': t.mul, '/': t.div}[v[1]](a, b)
    if v[0] == 'op' and len(v) == 4 and v[1] == '**' and v[3] in (c(2), c(3)):
        return t.mul(*[toterm(v[2])] * v[3][1])
    if v[0] == 'op' and v[1] == 'USub':
        return t.neg(toterm(v[2]))
    if v[0] == 'op':
        return t.app('py::op' + v[1], tuple(toterm(x) for x in v[2:]))
    if v[0] in ('float', 'abs') and len(v) == 2:
        return toterm(v[1]) if v[0] == 'float' else t.app('py::abs', (toterm(v[1]),))
    if v[0] == 'call' and v[1][0] in ('ext', 'sym'):
        return t.app('py::' + v[1][1], tuple(toterm(x) for x in v[2]) + tuple(t.app('py::kw:' + k, (toterm(x),)) for k, x in v[3]))
    if v[0] == 'call' and v[1][0] in ('attr', 'meth'):
        return t.app('py::meth:' + v[1][2], (toterm(v[1][1]),) + tuple(toterm(x) for x in v[2]))
    if v[0] == 'attr':
        return t.app('py::attr:' + v[2], (toterm(v[1]),))
    return t.sym('py:%r' % (v,), 'r')


def algebra(ck, rule, w, o, got, want, what):
    from sx import terms as t
    if isinstance(want, tuple) and want and isinstance(want[0], tuple):
        for i, (g, x) in enumerate(zip(got, want)):
            algebra(ck, rule, w, o, g, x, '%s %d' % (what, i))
        return
    a, b = toterm(got), toterm(want)
    if lost(got) or unknown_arith(got):
        return ck.undecided(rule, w, '%s: %s' % (what, show(got, 300)))
    ck.eqv(rule, w, a, b, what="%s %s" % (what, o.text()))


def unknown_arith(v):
    if isinstance(v, tuple):
        if v and v[0] in ('unk', 'first', 'bin?', 'after', 'prev'):
            return True
        return any(unknown_arith(x) for x in v)
    return False


def coordinates(ck, P):
    ck.rule('world-coords', 'pixel coordinates are converted from the first pixel being 1 to the first pixel being 0, and separations and position angles are those of the two positions')
    ck.rule('world-shape', 'the world radius and angle follow the major axis, the ratio is minor over major, and the two axes are perpendicular with lengths radius and radius times ratio')
    one = c(1)
    px = lambda f, x, y: ('call', ('ext', 'pyston.' + f), (('op', '-', x, one), ('op', '-', y, one)), ())
    w = where(P, 'pixel_to_world_coordinate')
    for o in go(P, 'q = pixel_to_world_coordinate(x, y)\nreturn q.ra, q.dec', {'x': 'value', 'y': 'value'}):
        if fine(ck, 'world-coords', w, o, 'pixel_to_world_coordinate'):
            algebra(ck, 'world-coords', w, o, o.v[1], (px('image_to_world_alpha', sym('x'), sym('y')), px('image_to_world_delta', sym('x'), sym('y'))), 'coordinate')
    for o in go(P, 'p = get_world_position_parameters(x, y)\nreturn p[0].func(a, b), p[1].func(a, b), p[0].params, p[1].params', {'x': 'FreeParameter', 'y': 'FreeParameter', 'a': 'value', 'b': 'value'}):
        w = where(P, 'get_world_position_parameters')
        if fine(ck, 'world-coords', w, o, 'get_world_position_parameters'):
            algebra(ck, 'world-coords', w, o, o.v[1][:2], (px('image_to_world_alpha', sym('a'), sym('b')), px('image_to_world_delta', sym('a'), sym('b'))), 'coordinate')
            for k in (2, 3):
                judge(ck, 'world-coords', w, o, o.v[1][k], ('list', ('one', sym('x')), ('one', sym('y'))), 'parameters')
    w = where(P, 'get_sky_coord')
    deg = ('ext', 'astropy.units.degree')
    for o in go(P, 'return get_sky_coord(x, y)', {'x': 'value', 'y': 'value'}):
        if not fine(ck, 'world-coords', w, o, 'get_sky_coord'):
            continue
        kw = dict(o.v[3]) if o.v[0] == 'call' else {}
        if o.v[0] == 'call' and len(o.v[2]) == 2:
            kw = {**kw, 'ra': o.v[2][0], 'dec': o.v[2][1]}
        for k, f in (('ra', 'alpha'), ('dec', 'delta')):
            if k in kw:
                algebra(ck, 'world-coords', w, o, kw[k], ('op', '*', px('image_to_world_' + f, sym('x'), sym('y')), deg), k)
            else:
                ck.undecided('world-coords', w, show(o.v, 300))
    # separation and position angle
    N = {k: 'value' for k in ('x1', 'y1', 'x2', 'y2')}
    for f, meth in (('get_separation_angle', 'separation'), ('get_position_angle', 'position_angle')):
        w = where(P, f)
        for o in go(P, 'return %s(x1, y1, x2, y2)' % f, N):
            if not fine(ck, 'world-coords', w, o, f):
                continue
            m = pair(o.v, meth)
            if m is None:
                ck.undecided('world-coords', w, show(o.v, 300))
                continue
            for got, want in zip(m, ((sym('x1'), sym('y1')), (sym('x2'), sym('y2')))):
                algebra(ck, 'world-coords', w, o, got, tuple(('op', '-', x, one) for x in want), 'position')
            core = ('attr', m[2], 'degree')
            if f == 'get_separation_angle':
                algebra(ck, 'world-coords', w, o, o.v, core, 'angle')
            else:
                algebra(ck, 'world-coords', w, o, o.v, ('op', '-', ('op', '%', ('op', '+', core, c(90.0)), c(180.0)), c(90.0)), 'angle within half a turn')
    # parameters of a shape
    w = where(P, 'get_world_parameters')
    names = {**{k: 'FreeParameter' for k in ('px', 'py', 'pr', 'pa', 'pq')}, **{k: 'value' for k in 'xyraq'}}
    from sx import terms as t
    for k, role in enumerate(('ra', 'dec', 'radius', 'angle', 'ratio')):
        args = 'x, y' if k < 2 else 'x, y, r, a, q'
        for o in go(P, 'p = get_world_parameters(px, py, pr, pa, pq)[%d]\nreturn p.func(%s), p.params' % (k, args), names):
            if not fine(ck, 'world-shape', w, o, role):
                continue
            v, ps = o.v[1]
            judge(ck, 'world-shape', w, o, ps, ('list',) + tuple(('one', sym(x)) for x in (('px', 'py') if k < 2 else ('px', 'py', 'pr', 'pa', 'pq'))), 'parameters of the %s' % role)
            if k < 2:
                algebra(ck, 'world-shape', w, o, v, px('image_to_world_alpha' if k == 0 else 'image_to_world_delta', sym('x'), sym('y')), role)
                continue
            small = [b for q, b in o.pc if q in (('<=', sym('q'), one), ('<', sym('q'), one))] + [not b for q, b in o.pc if q in (('<', one, sym('q')), ('<=', one, sym('q')))]
            if len(small) != 1:
                ck.undecided('world-shape', w, '%s %s' % (role, o.text()))
                continue
            if role == 'ratio':
                if v[0] != 'op' or v[1] != '/':
                    ck.undecided('world-shape', w, show(v, 300))
                    continue
                parts = [(pair(v[2], 'separation'), small[0] is False, 'minor axis'), (pair(v[3], 'separation'), small[0], 'major axis')]
                if None in (parts[0][0], parts[1][0]):
                    ck.undecided('world-shape', w, show(v, 300))
                    continue
                algebra(ck, 'world-shape', w, o, v, ('op', '/', ('attr', parts[0][0][2], 'degree'), ('attr', parts[1][0][2], 'degree')), 'ratio')
            else:
                parts = [(pair(v, 'separation' if role == 'radius' else 'position_angle'), small[0], 'major axis')]
                if parts[0][0] is None:
                    ck.undecided('world-shape', w, show(v, 300))
                    continue
            C, S = t.app('py::math.cos', (toterm(sym('a')),)), t.app('py::math.sin', (toterm(sym('a')),))
            r, q = toterm(sym('r')), toterm(sym('q'))
            for m, along, what in parts:
                algebra(ck, 'world-shape', w, o, m[0], (('op', '-', sym('x'), one), ('op', '-', sym('y'), one)), 'centre')
                dx, dy = t.sub(toterm(m[1][0]), toterm(m[0][0])), t.sub(toterm(m[1][1]), toterm(m[0][1]))
                n = r if along else t.mul(r, q)
                ck.eqv('world-shape', w, t.add(t.mul(dx, dx), t.mul(dy, dy)), t.mul(n, n, t.add(t.mul(C, C), t.mul(S, S))), what='length of the %s of the %s %s' % (what, role, o.text()))
                ck.eqv('world-shape', w, t.sub(t.mul(dy, C), t.mul(dx, S)) if along else t.add(t.mul(dx, C), t.mul(dy, S)), t.num(0), what='direction of the %s of the %s %s' % (what, role, o.text()))
    w = where(P, 'radius_to_wc_angle')
    for o in go(P, 'return radius_to_wc_angle(x, y, r)', {'x': 'value', 'y': 'value', 'r': 'value'}):
        if fine(ck, 'world-coords', w, o, 'radius_to_wc_angle'):
            ms = []
            find_pairs(o.v, 'separation', ms)
            if len(ms) != 2:
                ck.undecided('world-coords', w, show(o.v, 300))
                continue
            ds = []
            for m in ms:
                ds.append(tuple(t.sub(toterm(m[1][z]), toterm(m[0][z])) for z in (0, 1)))
            R = toterm(sym('r'))
            s2 = [t.add(t.mul(d[0], d[0]), t.mul(d[1], d[1])) for d in ds]
            for z in s2:
                ck.eqv('world-coords', w, z, t.mul(R, R), what='distance')
            ck.eqv('world-coords', w, t.add(t.mul(ds[0][0], ds[1][0]), t.mul(ds[0][1], ds[1][1])), t.num(0), what='two axes')
            algebra(ck, 'world-coords', w, o, o.v, ('op', '/', ('op', '+', ('attr', ms[0][2], 'degree'), ('attr', ms[1][2], 'degree')), c(2.0)), 'mean angle')


def sky(v):
    """the pixel position of a SkyCoord"""
    if v[0] != 'call' or v[1] != ('ext', 'astropy.coordinates.SkyCoord'):
        return None
    kw = dict(v[3])
    if v[2] and len(v[2]) == 2:
        kw = {'ra': v[2][0], 'dec': v[2][1]}
    out = []
    for k, f in (('ra', 'pyston.image_to_world_alpha'), ('dec', 'pyston.image_to_world_delta')):
        x = kw.get(k)
        if x is None or x[0] != 'op' or x[1] != '*':
            return None
        d = ('ext', 'astropy.units.degree')
        x = x[2] if x[3] == d else x[3] if x[2] == d else None
        if x is None or x[0] != 'call' or x[1] != ('ext', f) or len(x[2]) != 2:
            return None
        out.append(x[2])
    return out[0] if out[0] == out[1] else None


def find_pairs(v, meth, out):
    if isinstance(v, tuple):
        if v and v[0] == 'call' and isinstance(v[1], tuple) and v[1][0] in ('attr', 'meth') and v[1][2] == meth and len(v[2]) == 1:
            a, b = sky(v[1][1]), sky(v[2][0])
            if a is not None and b is not None:
                out.append((a, b, v))
                return
        for x in v:
            find_pairs(x, meth, out)


def pair(v, meth):
    out = []
    find_pairs(v, meth, out)
    return out[0] if len({m[2] for m in out}) == 1 else None


def settings(ck, P):
    ck.rule('setting', 'each configuration function changes the setting of its own name to the value given, and no other')
    ck.rule('setting-default', 'the documented defaults')
    defaults = {'max_iterations': c(200), 'modified_chi_squared_scale': c(10), 'engine': c(''), 'use_iterative_fitting': c(True), 'meta_iterations': c(5), 'deblend_factor': c(0.95), 'meta_iteration_stop': c(0.0001), 'window_type': ('enum', 'WindowType', 'RECTANGLE'), 'ellipse_scale': c(3.0)}
    w = where(P, 'ModelFitting.__init__')
    for o in go(P, 'm = ModelFitting()\nreturn m.params_dict', {}):
        got = {x[1][1]: x[2] for x in o.v[1:]}
        for k, v in defaults.items():
            judge(ck, 'setting-default', w, o, got.get(k), v, k)
        base = got
    setters = {'set_' + k: k for k in defaults if k != 'use_iterative_fitting'}
    setters['use_iterative_fitting'] = 'use_iterative_fitting'
    for f, k in setters.items():
        w = where(P, 'ModelFitting.' + f)
        for o in outs(P, 'm = ModelFitting()\nm.%s(v)\nreturn m.params_dict' % f, ['v']):
            if o.exc:
                ck.ok(k == 'window_type' and o.exc == 'TypeError', 'setting', w, 'raises %s %s' % (o.exc, o.text()))
                continue
            got = {x[1][1]: x[2] for x in o.v[1:] if x[0] == 'set' and x[1][0] == 'const'}
            judge(ck, 'setting', w, o, got, {**base, k: sym('v')}, 'settings after ' + f)


def columns(ck, P):
    ck.rule('column-register', 'an output column keeps all the parameters or apertures it names, under its own kind, and registers every one of the parameters')
    ck.rule('column-name', 'a column name is used once; a column that was refused does not take the name')
    w = where(P, 'MeasurementConfig.add_output_column')
    R = 'column-register'
    ret = 'return mc.model_fitting_parameter_columns, mc.aperture_columns, mc.model_fitting.free_parameter_dict, mc.model_fitting.constant_parameter_dict'
    if not P.method('MeasurementConfig', 'model_fitting_parameter_columns'):
        ret = ret.replace('mc.model_fitting_parameter_columns', 'mc._model_fitting_parameter_columns')
    n = 0
    for lst, want in (('FreeParameter(v)', 1), ('[FreeParameter(v), FreeParameter(u), FreeParameter(t)]', 3), ('[FreeParameter(v), FreeParameter(u)]', 2)):
        for o in go(P, 'mc = MeasurementConfig()\nmc.add_output_column(n, %s)\n%s' % (lst, ret), {'n': 'value', 'v': 'value', 'u': 'value', 't': 'value'}):
            if not fine(ck, R, w, o, 'add_output_column'):
                continue
            n += 1
            mf, ap, fp, cp = o.v[1]
            judge(ck, R, w, o, ap, ('list',), 'aperture columns')
            judge(ck, R, w, o, cp, ('dict',), 'constant parameters')
            e = mf[1][1] if mf[0] == 'list' and len(mf) == 2 and mf[1][0] == 'one' else None
            if e is None or e[0] != 'tuple' or len(e[1]) != 2:
                (ck.undecided if lost(mf) or unknown(mf) else ck.fail)(R, w, 'parameter columns %s' % show(mf, 300))
                continue
            judge(ck, R, w, o, e[1][0], sym('n'), 'name')
            items = [x[1] for x in e[1][1][1:]] if e[1][1][0] == 'list' else None
            judge(ck, R, w, o, len(items) if items is not None else None, want, 'number of parameters in the column')
            vals = [x[2] for x in fp[1:] if x[0] == 'set']
            judge(ck, R, w, o, sorted(map(repr, vals)), sorted(map(repr, items or [])), 'registered parameters')
    ck.ok(n > 0 or None, R, w, 'columns of parameters')
    A = {('issubclass', ('typeof', sym('a')), x): x == '_SourceXtractorPy.Aperture' for x in ('ParameterBase', '_SourceXtractorPy.Aperture')}
    # names
    for o in go(P, 'mc = MeasurementConfig()\nmc.add_output_column(n, FreeParameter(v))\nmc.add_output_column(n, FreeParameter(u))', {'n': 'value', 'v': 'value', 'u': 'value'}):
        ck.ok(o.exc == 'ValueError', 'column-name', w, 'a second column of the same name gives %s' % o.exc)
    for o in go(P, 'mc = MeasurementConfig()\nmc.add_output_column(n, FreeParameter(v))\nmc.add_output_column(k, FreeParameter(u))\nreturn mc._model_fitting_parameter_columns', {'n': 'value', 'k': 'value', 'v': 'value', 'u': 'value'}):
        if fine(ck, 'column-name', w, o, 'two columns'):
            ck.ok(len(o.v) == 3 or (None if lost(o.v) else False), 'column-name', w, 'two columns of different names')
    for o in go(P, 'mc = MeasurementConfig()\ntry:\n    mc.add_output_column(n, MeasurementConfig())\nexcept TypeError:\n    pass\nmc.add_output_column(n, FreeParameter(v))', {'n': 'value', 'v': 'value'}):
        ck.ok(o.exc is None or (None if o.exc != 'ValueError' else False), 'column-name', w, 'the name of a refused column gives %s' % o.exc)
    for o in go(P, 'mc = MeasurementConfig()\nmc.add_output_column(n, MeasurementConfig())', {'n': 'value'}):
        ck.ok(o.exc == 'TypeError' or (None if o.exc is None and o.pc else False), 'column-name', w, 'a column of something else gives %s' % o.exc)


def run(ck):
    P = Prog()
    ck.F = P
    for s in (models, registering, callables, coordinates, settings, columns):
        ck.section(s, ck, P)
    ck.assumptions += ['Python sources are read from SEImplementation/python; objects of _SourceXtractorPy, pyston and astropy are opaque; identifiers of different objects differ',
                       'arithmetic is over the reals']
    return 60
