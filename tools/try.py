#!/usr/bin/env python3
"""development aid: try.py PID[,PID] FILE OLD NEW [n] - run checks on a scratch copy with one textual edit (never used by a check)"""
import os, subprocess, sys
S = '/tmp/scr'
pids, f, old, new = sys.argv[1:5]
p = os.path.join(S, f)
o = open(p).read()
if old not in o:
    print('OLD NOT FOUND'); sys.exit(9)
n = int(sys.argv[5]) if len(sys.argv) > 5 else 0
parts = o.split(old)
open(p, 'w').write(old.join(parts[:n + 1]) + new + old.join(parts[n + 1:]))
try:
    for pid in pids.split(','):
        r = subprocess.run([sys.executable, '/verif/check.py', pid], capture_output=True, text=True, env=dict(os.environ, SX_REPO=S))
        print('\n'.join(l[:600] for l in r.stdout.splitlines()[-int(os.environ.get('TAIL', '6')):]), '-> rc', r.returncode, r.stderr[-500:])
finally:
    open(p, 'w').write(o)
