#!/bin/bash
# catch.sh ID [PROP...]: run the checks of the given properties (default: its own) with a planted bug in /repo
id=$1; shift
props=("$@"); [ ${#props[@]} = 0 ] && props=($(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])"))
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
git -C /repo apply /verif/seeded/$id/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
for p in "${props[@]}"; do
  python3 /verif/tools/check.py $p > /tmp/catch.$id.$p.log 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -c '^VIOLATION' /tmp/catch.$id.$p.log) $(grep -m1 'is no step\|died' /tmp/catch.$id.$p.log | cut -c1-200)"
done
