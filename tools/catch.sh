#!/bin/bash
# catch.sh ID...: run the property's check against a scratch copy of /repo with the planted change
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  rm -rf /tmp/ts_$i; cp -a /repo /tmp/ts_$i; git -C /tmp/ts_$i apply /verif/seeded/$i/patch.diff || { echo "$i DOES NOT APPLY"; rm -rf /tmp/ts_$i; continue; }
  s=$(date +%s)
  o=$(cd /verif; VERIF_REPO=/tmp/ts_$i timeout 900 python3 bin/check.py $p 2>&1); rc=$?
  echo "$i $p rc=$rc $(( $(date +%s) - s ))s $(echo "$o" | grep -E 'VIOLATION|failing|ERROR|Error' | head -1 | cut -c1-200)"
  rm -rf /tmp/ts_$i
done
