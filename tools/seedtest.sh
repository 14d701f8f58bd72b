#!/bin/bash
# seedtest.sh ID...: for each planted bug, runs its demonstration on /repo with
# and without the patch, the stable tests, and the check of its property.
cd "$(dirname "$0")/.." || exit 2
for id in "$@"; do
  d=$PWD/seeded/$id
  prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")
  (cd /repo && git diff --quiet) || { echo "/repo is not clean"; exit 2; }
  (cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/seedtest.clean 2>&1); clean=$?
  git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  (cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/seedtest.bug 2>&1); bug=$?
  st=-
  if [ -z "$NOTESTS" ]; then
    bash /opt/vp/build.sh >/dev/null 2>&1 && bash /opt/vp/test.sh /tmp/seedtest.json >/dev/null 2>&1
    st=$(python3 -c 'import json;d=json.load(open("/tmp/seedtest.json"));b=json.load(open("/opt/vp/BASELINE.json"));print(len(d["passed"]),"pass,",len(d["failed"]),"fail")')
  fi
  if [ -z "$NOCHECK" ]; then
    ./run.sh "$prop" quick >/tmp/seedtest.check 2>&1; rc=$?
  else rc=-; fi
  git -C /repo checkout -q -- .
  echo "$id $prop: demo $clean/$bug, tests $st, check $rc: $(grep VIOLATION /tmp/seedtest.check | head -1)"
done
