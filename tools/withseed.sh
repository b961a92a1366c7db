#!/bin/bash
# development aid: withseed.sh SEED PID -- run the check of PID on a scratch copy of /repo with the planted bug applied
d=$(mktemp -d /tmp/ws.XXXX); git -C /repo archive HEAD | tar -x -C $d; (cd $d; git apply --unsafe-paths --directory=. /verif/seeded/$1/patch.diff || patch -p1 -s < /verif/seeded/$1/patch.diff)
SX_REPO=$d SX_EVID=$d SX_CACHE=$d/c SX_VERBOSE=${SX_VERBOSE:-1} python3 /verif/check.py $2; echo "exit $?"
rm -r "$d"
