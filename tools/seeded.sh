#!/bin/bash
# Runs the check of each planted bug's property against a scratch copy with the bug: tools/seeded.sh ID...
here=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=/tmp/sd-$id
  rm -rf "$d"; cp -a /repo "$d"
  git -C "$d" apply "$here/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$d"; continue; }
  p=$(python3 -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" "$here/seeded/$id/meta.json")
  for q in $p ${ALSO:-}; do
    t=$(date +%s)
    VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} VERIF_REPO=$d VERIF_EVIDENCE=/tmp/sd-ev timeout 900 "$here/check" $q > /tmp/sd-$id.$q.log 2>&1; rc=$?
    echo "$id $q: rc=$rc $(( $(date +%s) - t ))s $(grep -c '^VIOLATION' /tmp/sd-$id.$q.log) $(grep -B2 '^VIOLATION' /tmp/sd-$id.$q.log | head -1 | cut -c1-160)"
  done
  rm -rf "$d"
done
