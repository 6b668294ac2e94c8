#!/bin/bash
# Confirm every planted bug in a scratch copy of /repo state: demo passes before, fails after, build+tests pass, check catches.
# usage: dev/seeded.sh [regex]   (uses /repo itself, undone afterwards)
cd /verif/seeded
for d in */; do d=${d%/}; [[ $d =~ ${1:-.} ]] || continue
  git -C /repo checkout -q .
  pid=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /repo && bash /verif/seeded/$d/demo.sh >/tmp/sd.log 2>&1); a=$?
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: patch does not apply"; continue; }
  (cd /repo && bash /verif/seeded/$d/demo.sh >/tmp/sd2.log 2>&1); b=$?
  bash /opt/vp/build.sh >/tmp/sb.log 2>&1; c=$?
  bash /opt/vp/test.sh /tmp/sd.json >/tmp/st.log 2>&1; n=$(grep -c '\.\.\. ok' /tmp/st.log)
  cd /verif; timeout 900 python3 check.py $pid > /tmp/sc.log 2>&1; k=$?; v=$(grep -c "VIOLATION property=$pid" /tmp/sc.log)
  cd /verif/seeded
  git -C /repo checkout -q .
  echo "$d: demo clean=$a patched=$b build=$c tests_ok=$n check=$k viol=$v"
done
