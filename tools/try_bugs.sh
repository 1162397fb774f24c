#!/bin/bash
# try_bugs.sh [ID ...]: runs the property's quick check on a scratch copy of /repo with each planted change
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(/usr/bin/python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/tryXXXX); cp -a /repo "$w/repo"; git -C "$w/repo" apply "$PWD/seeded/$d/patch.diff" || echo BAD
  s=$(date +%s); out=$(TEALISH_REPO=$w/repo ./run.py $p quick 2>&1); rc=$?
  echo "$d $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 VIOLATION | cut -c1-200)"
  rm -rf "$w"
done
