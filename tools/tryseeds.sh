#!/bin/bash
# tryseeds.sh [SEED...]: runs the check of each seed's property on a scratch copy of /repo with the seed applied
cd /verif
for s in ${@:-$(ls seeded)}; do
  d=/tmp/try_$s; cp -a /repo $d; git -C $d apply /verif/seeded/$s/patch.diff
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  t=$(date +%s)
  REPO=$d timeout 880 python3 check.py $p > /tmp/try_$s.out 2>&1; rc=$?
  echo "$s rc=$rc $(( $(date +%s)-t ))s $(grep -c ^FAILED /tmp/try_$s.out) $(grep VIOLATION /tmp/try_$s.out) :: $(grep ^FAILED /tmp/try_$s.out | head -2 | cut -c1-110 | tr '\n' ';')"
  rm -rf "/tmp/try_$s"
done
