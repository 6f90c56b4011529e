#!/bin/bash
# tools/trybug.sh BUG PID [n]: survey of PID with a planted bug applied
git -C /repo apply /verif/seeded/$1/patch.diff || exit 2
echo "== $1 on $2"; SHOW=1 ${ST:-timeout 300} /verif/check survey $2 ${3:-300} 40 | cut -c1-240
git -C /repo checkout -- .
