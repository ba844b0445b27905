#!/bin/bash
# catch.sh ID...: run the check of each planted bug's property on a scratch copy of /repo with the bug applied
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  w=$(mktemp -d /tmp/catchw.XXXX); cp -a /repo/. $w
  (cd $w && git apply /verif/seeded/$id/patch.diff) || { echo "$id does not apply"; continue; }
  (cd /verif && PYDV_REPO=$w python3-vt -B -m pydv.check $p --tier quick > /tmp/catch.$id 2>&1); r=$?
  rm -rf "$w"
  echo "$id $p exit=$r $(grep -c ^VIOLATION /tmp/catch.$id) $(grep ' fails on \|refuted' /tmp/catch.$id | head -1 | cut -c1-200)"
done
