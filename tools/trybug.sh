#!/bin/bash
# trybug.sh ID...: run the check of the property a planted bug breaks against a copy of /repo with the bug
for id in "$@"; do
  d=$(mktemp -d /tmp/trybug.XXXXXX)
  cp -a /repo/. $d
  git -C $d apply /verif/seeded/$id/patch.diff || echo "$id: DOES NOT APPLY"
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  s=$SECONDS
  VERIF_REPO=$d VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick /verif/check check $p > $d.out 2>&1
  echo "$id $p exit $? $((SECONDS-s)) s: $(grep -a VIOLATION $d.out | head -1 | cut -c1-150)"
  rm -rf $d $d.out
done
