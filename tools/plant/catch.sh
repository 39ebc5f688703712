#!/bin/bash
# plant/catch.sh ID [CHECK]: runs the property's quick check against a scratch copy with the planted bug.
for id in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  T=/tmp/catch-$id; rm -rf -- "/tmp/catch-$id"; mkdir "$T"; cp -a /repo "$T/r"; git -C "$T/r" apply /verif/seeded/$id/patch.diff 2>/dev/null
  s=$(date +%s)
  VERIF_REPO=$T/r VERIF_BUILD=$T/b python3 /verif/check.py $P --no-evidence >/tmp/catch-$id.log 2>&1; rc=$?
  echo "$id $P rc=$rc $(($(date +%s)-s))s $(grep -h VIOLATION /tmp/catch-$id.log | head -1) $(tail -c 300 /tmp/catch-$id.log | tr '\n' ' ' | head -c 200)"
  rm -rf -- "/tmp/catch-$id"
done
