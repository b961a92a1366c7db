#!/bin/bash
# development aid: und.sh PID < one edit per line : show undecided details for each edit
pid=$1
while IFS= read -r l; do
  [ -z "$l" ] && continue
  d=$(mktemp -d /tmp/undXXXX); mkdir $d/r; git -C /repo archive HEAD | tar -x -C $d/r
  python3 - "$d/r" "$l" <<'P'
import sys,os
r,l=sys.argv[1:]
l=l.lstrip('=')
for e in l.split(' &&& '):
    q=[x.replace('\\n','\n') for x in e.split(' ||| ')]
    p=os.path.join(r,q[0].strip()); o=open(p).read(); n=int(q[3]) if len(q)>3 else 0
    parts=o.split(q[1]); assert len(parts)>1, 'not found'
    open(p,'w').write(q[1].join(parts[:n+1])+q[2]+q[1].join(parts[n+1:]))
P
  echo "## $l" | cut -c1-160
  SX_REPO=$d/r SX_EVID=$d SX_CACHE=$d/c SX_VERBOSE=1 python3 check.py $pid 2>&1 | grep -E "undecided|violated" | grep -v "rule .* violated at" | cut -c1-${W:-200}
  rm -rf $d
done
