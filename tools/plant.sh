#!/bin/bash
# plant.sh ID...: confirms planted bugs: builds, passes the stable tests, demo passes without and fails with the patch.
# Works in /repo itself (build.sh and test.sh are tied to that path) and always restores it.
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1
for id in "$@"; do
  d=/verif/seeded/$id; w=$(mktemp -d); cp -r $d/. $w/; rm -f $w/*.diff $w/meta.json
  timeout 300 bash $w/demo.sh >$w/out0 2>&1; r0=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; rm -rf "$w"; continue; }
  bash /opt/vp/build.sh >$w/build 2>&1; b=$?
  if [ $b = 0 ]; then
    [ -n "$NOTEST" ] || bash /opt/vp/test.sh $w/t.json >/dev/null 2>&1
    t=$([ -n "$NOTEST" ] && echo skipped || python3 -c "
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); g=set(json.load(open('$w/t.json'))['passed']); print('ok' if b<=g else 'FAIL '+str(b-g))")
    timeout 300 bash $w/demo.sh >$w/out1 2>&1; r1=$?
  else tail -5 $w/build; fi
  git checkout -q -- .
  bash /opt/vp/build.sh >/dev/null 2>&1
  echo "$id: build=$b tests=$t demo-clean=$r0 demo-planted=$r1 :: $(tail -1 $w/out1 2>/dev/null | cut -c1-150)"
  [ $r0 = 0 ] || tail -5 $w/out0
  rm -rf "$w"
done
