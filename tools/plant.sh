#!/bin/bash
# plant.sh ID...: confirm planted bugs (in a scratch copy of /repo) and say which checks catch them (CHECK=props)
. /opt/vp/env.sh
base=$(mktemp -d); trap 'rm -rf -- "$base"' EXIT
cp -a /repo "$base/repo"; cd "$base/repo"
git diff --quiet || { echo "/repo is not clean"; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id; msg=""
  go build ./... && (bash $d/demo.sh >$base/o1 2>&1) || msg="$msg demo-fails-on-clean"
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  go build ./... || msg="$msg does-not-build"
  (bash $d/demo.sh >$base/o2 2>&1) && msg="$msg demo-passes-with-patch"
  # stable tests in the copy
  for i in 1 2; do
  rm -f $base/t.json
  sed "s#cd /repo#cd $base/repo#" /opt/vp/env.sh > $base/env.sh
  sed "s#/opt/vp/env.sh#$base/env.sh#" /opt/vp/test.sh > $base/test.sh
  bash $base/test.sh $base/t.json >$base/t.log 2>&1
  m=$(python3 - $base/t.json <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=set(json.load(open(sys.argv[1]))['passed'])
print(' '.join(sorted(b-r)))
P
)
  [ -z "$m" ] && break
  done
  [ -n "$m" ] && msg="$msg tests-fail:$m"
  echo "$id: ${msg:-confirmed} ($(tail -1 $base/o2 | cut -c1-150))"
  git checkout -q -- .
done
