#!/bin/bash
# Confirms planted changes: tools/planttest.sh ID...   (each in a scratch copy of /repo)
# demo on the clean tree must exit 0; with the patch: builds, stable tests pass, demo exits nonzero.
# SKIPTESTS=1 leaves the test suite out.
here=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=/tmp/pl-$id
  s=$here/seeded/$id
  rm -rf "$d"; cp -a /repo "$d"
  mkdir -p /tmp/pld-$id; cp "$s"/demo* /tmp/pld-$id/
  (cd "$d" && timeout 300 bash /tmp/pld-$id/demo.sh >/tmp/pl-$id.clean.log 2>&1); a=$?
  git -C "$d" apply "$s/patch.diff" || { echo "$id: patch does not apply"; continue; }
  sed "s#/repo#$d#g" /opt/vp/build.sh > /tmp/pl-$id.build.sh
  bash /tmp/pl-$id.build.sh >/tmp/pl-$id.build.log 2>&1; b=$?
  (cd "$d" && timeout 300 bash /tmp/pld-$id/demo.sh >/tmp/pl-$id.demo.log 2>&1); c=$?
  t=skipped
  if [ -z "$SKIPTESTS" ]; then
    sed "s#/repo#$d#g" /opt/vp/test.sh > /tmp/pl-$id.test.sh
    bash /tmp/pl-$id.test.sh /tmp/pl-$id.json >/tmp/pl-$id.test.log 2>&1
    t=$(python3 - /tmp/pl-$id.json <<'P'
import json,sys
def names(o):
    return o
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
bp=b.get('stable',b.get('passed',b)); rp=set(r.get('passed',r.get('pass',[])))
m=[x for x in bp if x not in rp]
print("tests-ok" if not m else "tests-FAIL %d %s"%(len(m),m[:3]))
P
)
  fi
  echo "$id: clean=$a build=$b demo=$c $t"
  rm -rf "$d" /tmp/pld-$id /tmp/pl-$id.build.sh /tmp/pl-$id.test.sh
done
