#!/bin/bash
# trycheck.sh [ID...]: run the property's quick check against each planted bug, on a copy of /repo (VP_REPO); prints caught / MISSED
V=$(cd "$(dirname "$0")/.." && pwd)
cd "$V"
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  w=/tmp/tc/$d; mkdir -p /tmp/tc /tmp/tc/v; cp -a /repo "$w"
  git -C "$w" apply "$V/seeded/$d/patch.diff" || echo NOAPPLY
  t0=$(date +%s)
  VP_REPO=$w ./check $p quick > /tmp/tc/$d.log 2>&1; r=$?
  t1=$(date +%s)
  if [ $r = 1 ] && grep -q "^VIOLATION property=$p" /tmp/tc/$d.log; then echo "caught $d $p $((t1-t0))s"; else echo "MISSED $d $p rc=$r $((t1-t0))s"; fi
  rm -rf "$w"
done
