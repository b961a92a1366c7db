#!/usr/bin/env python3
"""development aid (never used by a check): mut.py PID < edits
each edit:  [=]FILE ||| OLD ||| NEW [||| n]   ('=' : behaviour-preserving, must stay quiet); applied to a private scratch copy; several edits joined with ' &&& ' are applied together"""
import os, re, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
pid = sys.argv[1]
jobs = []
for l in sys.stdin:
    l = l.rstrip('\n')
    if re.match(r'=?[\w/.]+\.(h|cpp|icpp|py) \|\|\|', l):
        jobs.append(l)
    elif jobs and not l.startswith('#'):
        jobs[-1] += '\n' + l
jobs = [j.rstrip('\n') for j in jobs]
def one(l):
    keep = l.startswith('=')
    if keep: l = l[1:]
    d = slots.get()
    changed = {}
    try:
        head = subprocess.run(['git', '-C', '/repo', 'rev-parse', 'HEAD'], capture_output=True, text=True).stdout
        if not os.path.exists(d + '/head') or open(d + '/head').read() != head:
            subprocess.run(['bash', '-c', 'rm -rf %s/r; mkdir -p %s/r && git -C /repo archive HEAD | tar -x -C %s/r' % (d, d, d)], check=True)
            open(d + '/head', 'w').write(head)
        for e in l.split(' &&& '):
            q = [x.replace('\\n', '\n') for x in re.split(r' \|\|\|(?: |$)', e)]
            if len(q) == 2 and not os.path.exists(os.path.join(d, 'r', q[0].strip())): q = [f] + q
            f, old, new = q[0].strip(), q[1], q[2]
            n = int(q[3]) if len(q) > 3 else 0
            p = os.path.join(d, 'r', f)
            o = open(p).read()
            changed.setdefault(p, o)
            if old not in o: return 'OLD NOT FOUND', l, ''
            parts = o.split(old)
            open(p, 'w').write(old.join(parts[:n + 1]) + new + old.join(parts[n + 1:]))
        r = subprocess.run([sys.executable, '/verif/check.py', pid], capture_output=True, text=True, env=dict(os.environ, SX_REPO=d + '/r', SX_EVID=d, SX_CACHE=d + '/c'))
        ls = [x for x in r.stdout.splitlines() if x.strip()]
        v = [x for x in ls if 'VIOLATION' in x or 'violated' in x.lower()]
        tag = {0: 'quiet', 1: 'CAUGHT'}.get(r.returncode, 'BROKEN%d' % r.returncode)
        good = (tag == 'quiet') == keep and not tag.startswith('BROKEN')
        return ('ok   ' if good else '****') + ' ' + tag, l, '\n      '.join(x[:260] for x in ls[-(4 if not good or os.environ.get('V') else 1):])
    finally:
        for p, o in changed.items():
            open(p, 'w').write(o)
        if int(subprocess.run(['du', '-sm', d], capture_output=True, text=True).stdout.split()[0]) > 3000:
            shutil.rmtree(d + '/c')
        slots.put(d)
import queue
slots = queue.Queue()
for i in range(6):
    os.makedirs('/tmp/mutw/%d' % i, exist_ok=True)
    slots.put('/tmp/mutw/%d' % i)
nok = 0
with ThreadPoolExecutor(6) as ex:
    for tag, l, o in ex.map(one, jobs):
        if tag.startswith('ok') and not os.environ.get('V'):
            nok += 1
            continue
        print(tag, '|', l[:160].replace('SEImplementation/', 'SEI/'), '\n     ', o)
print('%d as expected' % nok)
