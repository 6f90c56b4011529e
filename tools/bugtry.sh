#!/bin/bash
# tools/bugtry.sh PID NAME [runs]: tries an edit (python list of (file, old, new) on stdin) on a clone of /repo
# Prints the classes a survey of PID finds with it.
R=${RW:-/tmp/rw-$$}
[ -d $R ] || git clone -q /repo $R
cd $R && git checkout -q -- .
python3 -c '
import sys
for f, old, new in eval(sys.stdin.read()):
    s = open(f).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(f, "w").write(s.replace(old, new))
' || exit 2
git diff > /tmp/bugs/$2.diff
for pid in ${1//,/ }; do
  echo "== $2 on $pid"; REPO=$R SIM_WORKERS=${W:-8} SHOW=1 /verif/check survey $pid ${3:-1500} ${T:-40} 2>&1 | cut -c1-260 | grep -v "^runs" || true
done
git checkout -q -- .
[ -n "$RW" ] || rm -rf $R
