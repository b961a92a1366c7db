#!/usr/bin/env python3
"""development aid: mkseed.py <dir with seed.txt...>: seed spec on stdin (JSON): id, property, needs, what_it_breaks, edits [[file, old, new]], main (C++ or sh body), kind"""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: the repository, after its build
R=$PWD
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
g++ -std=c++17 -O1 %(flags)s -I"$D" -I"$R/SEUtils" -I"$R/SEFramework" -I"$R/ModelFitting" -I"$R/SEImplementation" -I"$R/SEMain" "$D/demo.cpp" %(src)s -o "$T/demo" %(libs)s || { rm -r "$T"; exit 4; }
timeout 120 "$T/demo"; rc=$?
rm -r "$T"
exit $rc
'''
def make(s):
    d = os.path.join(V, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    try:
        for f, old, new in s['edits']:
            p = os.path.join('/repo', f)
            o = open(p).read() if not os.path.exists(os.path.join(t, 'b', f)) else open(os.path.join(t, 'b', f)).read()
            assert o.count(old) == 1, (s['id'], f, old, o.count(old))
            for x, c in (('a', open(p).read()), ('b', o.replace(old, new))):
                q = os.path.join(t, x, f)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                open(q, 'w').write(c)
        r = subprocess.run(['git', 'diff', '--no-index', '--no-color', 'a', 'b'], cwd=t, capture_output=True, text=True)
        txt = r.stdout.replace('a/a/', 'a/').replace('b/b/', 'b/')
        open(os.path.join(d, 'patch.diff'), 'w').write(txt)
    finally:
        shutil.rmtree(t)
    if s.get('kind', 'cpp') == 'cpp':
        open(os.path.join(d, 'demo.cpp'), 'w').write(s['main'])
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % {'flags': s.get('flags', ''), 'src': s.get('src', '"$R/_build/libsourcextractor.a"'), 'libs': s.get('libs', '-lfftw3 -lfftw3f -lfftw3_threads -lfftw3f_threads -lboost_thread -lboost_system -lpthread')})
    elif s['kind'] == 'py':
        open(os.path.join(d, 'demo.py'), 'w').write(s['main'])
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n# cwd: the repository\npython3 -B "$(cd "$(dirname "$0")" && pwd)/demo.py" "$PWD"\n')
    else:
        open(os.path.join(d, 'demo.sh'), 'w').write(s['main'])
    for n, x in s.get('files', {}).items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        open(os.path.join(d, n), 'w').write(x)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what_it_breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
if __name__ == '__main__':
    g = {}
    exec(open(sys.argv[1]).read(), g)
    for s in g['SEEDS']:
        make(s)
        print(s['id'])
