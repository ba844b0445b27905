#!/bin/bash
# seedtest.sh ID...: confirm planted bugs in a scratch copy (tests pass, demo distinguishes)
for id in "$@"; do
  d=/verif/seeded/$id; w=/tmp/seedw.$id; rm -rf "$w"; cp -a /repo "$w"
  mkdir -p /tmp/seedd.$id; cp $d/* /tmp/seedd.$id/; rm -f /tmp/seedd.$id/{patch.diff,meta.json}
  (cd $w && bash /tmp/seedd.$id/demo.sh >/tmp/seedo.$id 2>&1); a=$?
  (cd $w && git apply $d/patch.diff) || { echo "$id: patch does not apply"; continue; }
  (cd $w && bash /tmp/seedd.$id/demo.sh >>/tmp/seedo.$id 2>&1); b=$?
  t=$(cd $w && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider 2>&1 | tail -1)
  echo "$id: clean=$a patched=$b tests: $t"
  rm -rf "$w" "/tmp/seedd.$id"
done
