#!/bin/bash
# try_seeded.sh [ID...]  run each planted bug's own check (quick) against it
here="$(cd "$(dirname "$0")/.." && pwd)"; cd "$here"
for b in "${@:-$(ls seeded)}"; do for b in $b; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply "$here/seeded/$b/patch.diff" || { echo "$b DOES NOT APPLY"; continue; }
  s=$(date +%s); out=$(bash run.sh ${CHECK:-$p} quick 2>&1); rc=$?; e=$(date +%s)
  git -C /repo checkout -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=${CHECK:-$p} " <<<"$out"; then echo "$b ${CHECK:-$p} caught $((e-s))s"; else echo "$b ${CHECK:-$p} MISSED rc=$rc $((e-s))s"; fi
done; done
