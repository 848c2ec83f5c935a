#!/bin/bash
# usage: trybugs.sh ID... : runs the property's quick check against each planted change, in a scratch copy of /repo
H=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('$H/seeded/$id/meta.json'))['property'])")
  W=/tmp/try_$id; rm -rf "$W"; cp -a /repo "$W"; git -C "$W" apply "$H/seeded/$id/patch.diff" || echo "PATCH FAILS"
  s=$(date +%s); SYMX_REPO=$W "$H/check" "$P" ${TIER:-quick} > /tmp/try_$id.txt 2>&1; rc=$?
  echo "$id $P rc=$rc $(( $(date +%s) - s ))s $(grep -a -m1 '^VIOLATION' /tmp/try_$id.txt) $(grep -a -m1 '^# ' /tmp/try_$id.txt | cut -c1-200)"
  rm -rf "$W"
done
