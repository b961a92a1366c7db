#!/usr/bin/env python3
"""writes DESIGN.md from the properties, the claims, the rules shown in the evidence, the findings and the planted bugs."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''# Static verification of SourceXtractor++

Every check decides its property from the current source of `/repo` without running it: no test input, no solver, no
symbolic path enumeration handed to a solver. `python3 check.py <id> [quick|thorough]` extracts the program, applies the
rules of the property and reports the construct (file, line, function) that breaks one. Both tiers apply the same rules:
nothing is sampled, so there is no depth to add, and a check takes between one and thirty seconds.

This file is generated by `tools/gen_design.py` from `properties.jsonl`, the claims in `tools/gen_manifest.py`, the rules
recorded in `evidence/`, `known_findings.txt` and `seeded/`.

## The machinery

* `extractor/sxdump.cpp` (built once by `setup_cmd` against the installed clang 18 libraries) runs the clang front end on
  the translation units a property needs and writes the *type-checked* tree: resolved calls, overloads, implicit
  conversions, constructors, template instantiations, base classes, overriders. `stubs/` holds declarations of the
  third-party headers that are not installed (Alexandria, Elements, levmar, onnx ...), used only to parse; `drivers/*.cpp`
  instantiate templates of the repository which nothing else in the repository instantiates. Facts are cached under
  `cache/` by the content of every file read, so that a changed header is always seen.
* `sx/interp.py` + `sx/terms.py` (C++) is an abstract interpreter: it evaluates a function over *unknown* arguments and an
  unknown heap and yields a summary: what is returned, which effects (writes, calls, throws) happen under which condition,
  in which loop. Values are hash-consed terms (value numbers) with a normal form for polynomials, quotients, minima,
  floors, conditionals and sums. A loop is summarised by one generic iteration: counters become closed forms, accumulators
  become sums, extrema or existence over the domain of the loop; anything else becomes an unknown.
  `sx/stdmodel.py`, `sx/maps.py` and `sx/folds.py` model the standard library (vectors as functions of the index,
  associative containers as functional maps, algorithms as folds).
* `sx/flow.py` is a path-sensitive typestate engine over the same tree (branches, loops to a fixed point, exceptions,
  early exits, RAII scopes, closures, inlining of repository functions). `sx/locks.py` builds locksets on it, `sx/own.py`
  ownership.
* `sx/pysym.py` is the same idea for the Python sources (`SEImplementation/python`): symbolic execution over unknown
  arguments, results compared as normal forms.
* A rule compares an extracted term with the specified one (`ck.eqv`) or shows that one condition implies another
  (`ck.entail`). Comparison is by normal form and by a small decision procedure for linear facts in `sx/terms.py`. When the
  two differ, the check evaluates both terms at concrete valuations of their unknowns which satisfy the facts: it reports a
  violation only when such a valuation distinguishes them (the valuation is printed). Otherwise the obligation is
  *undecided*: it is listed in the evidence, counted separately, and neither claimed nor reported. This is what keeps a
  rewritten but equivalent function quiet, and it also means that a change which turns a function into something the
  abstraction cannot follow is not reported: each check has a minimal number of obligations below which it fails.

### What is trusted

The clang front end; the stubs (their declarations, not their behaviour); the standard library models; the specified terms
in `checks/`. Floating point is treated as real arithmetic and machine integers as mathematical ones unless a rule says
otherwise, so rounding and overflow are outside all properties. Third-party code (FFTW, cfitsio, wcslib, GSL, levmar,
boost) is taken at its documentation. This tree is built partially in the sandbox (see `/opt/vp/build-files`); the checks
read all of it, including what does not compile here.

### Judging behaviour and not the text

Checks were run, with `tools/mut.py`, against over a thousand hand-written edits in total (10 to 180 per property): some
break the property, some keep the behaviour (helpers extracted or inlined, loops turned around, range-for against index
loops, conditions reversed, early returns, algorithms for loops). The latter had to stay quiet, the former had to be reported. Obligations that a legitimate rewriting turned into an alarm were either taught to the interpreter or
turned into undecided ones.

'''
NOTES = {}
exec(open(os.path.join(V, 'tools', 'design_notes.py')).read())
g = {'__file__': os.path.join(V, 'tools', 'gen_manifest.py')}
src = open(g['__file__']).read().replace('\nmain()\n', '\n')
exec(src, g)
CLAIMS, NA = g['CLAIMS'], g['NA']
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
seeds = {}
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
fixes = {}
for l in open(os.path.join(V, 'known_findings.txt')):
    l = l.strip()
    if l.startswith('fixed: property='):
        p, c, t = l[len('fixed: property='):].split(' ', 2)
        fixes.setdefault(p, []).append((c, t))
o = [HEAD, '## Properties decided\n']
for p in props:
    i = p['id']
    if i not in CLAIMS or not os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        continue
    o.append('### %s %s\n' % (i, p['title']))
    o.append('%s\n' % p['statement'])
    t, n = CLAIMS[i]
    o.append('*How it is decided:* %s. %s\n' % (t[0].upper() + t[1:], n))
    try:
        c = json.load(open(os.path.join(V, 'evidence', i + '.json')))['coverage']
        o.append('*Rules* (%d obligations on the tree as committed%s):\n' % (c['obligations'], ', %d undecided' % c['undecided'] if c['undecided'] else ''))
        for k, r in c['rules'].items():
            o.append('- `%s`: %s (%d)' % (k, r['text'], r['holds'] + r['undecided'] + r['violated']))
        o.append('')
    except (OSError, KeyError):
        pass
    if i in NOTES:
        o.append('*Limits:* %s\n' % NOTES[i])
    if i in fixes:
        o.append('*Defects found and repaired in `/repo`:*\n')
        for c, t in fixes[i]:
            o.append('- %s: %s' % (c, t))
        o.append('')
    if i in seeds:
        o.append('*Planted bugs this check catches:* %s.\n' % ', '.join('`%s` (%s)' % (s, m['what_it_breaks'].split(':')[0]) for s, m in seeds[i]))
o.append('## Properties this family does not decide here\n')
for p in props:
    i = p['id']
    if i in CLAIMS:
        continue
    o.append('- **%s %s**: %s.' % (i, p['title'], NA.get(i, 'no static check is claimed yet')))
o.append('')
o.append('## Planted bugs\n')
o.append('Each was written from the statement and the code, confirmed to build, to pass the stable tests and to fail its own demonstration, and run against the check of its property with `tools/withseed.sh`. All are reported by the check named here.\n')
o.append('| planted bug | check that reports it | what it needs to manifest |\n|---|---|---|')
for i in sorted(seeds):
    for s, m in seeds[i]:
        o.append('| `%s` | %s | %s |' % (s, i, m['needs']))
o.append('')
o.append(TAIL)
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(o))
