#!/bin/bash
# catch.sh id ... : which seeded changes does the quick check of their property catch (scratch copy)
for id in "$@"; do
  d=$(mktemp -d /tmp/catch.XXXXXX)
  cp -a /repo/src "$d/src"
  (cd "$d" && patch -s -p1 < /verif/seeded/$id/patch.diff)
  p=${PROP:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
  t=$(date +%s)
  out=$(RV_SRC="$d/src" VERIF_SEED=${VERIF_SEED:-1} python3 /verif/check.py $p 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - t ))s $(echo "$out" | grep -m1 '  case' | cut -c1-170)"
  rm -rf "$d"
done
