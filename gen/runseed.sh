#!/bin/bash
# runseed.sh SEED...: applies each seed to /repo, runs the check of its property (or $CHECKS), reverts.
for id in "$@"; do
  s=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  git -C /repo apply $s/patch.diff || continue
  out=$(/verif/check.sh ${CHECKS:-$prop} 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $prop rc=$rc $(echo "$out" | grep -m2 -e VIOLATION -e panic)"
done
