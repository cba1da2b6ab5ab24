#!/bin/bash
# run.sh ID quick|thorough   check one property against /repo's working tree
# run.sh replay FILE         judge a replay file again
# run.sh build               build only (setup)
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
cd "$here/harness" || exit 2
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
name="$id"
case "$id" in replay|build) name=tool ;; esac
out="$here/.build/$name"
mkdir -p "$out"
go build -o "$out/harness" . || { echo "cannot build the harness with /repo" >&2; exit 2; }
if [ "$id" = C03 ] || [ "$id" = build ]; then
  go build -race -o "$out/harness.race" . || { echo "cannot build the race-detector harness" >&2; exit 2; }
fi
rm -f "$out/harness.fuzz"
case "$id" in
C03|C23|build|replay) ;; # C03 judges in processes of its own, C23's inputs are too large
*)
  if [ "$tier" = thorough ]; then
    go test -c -fuzz=FuzzProp -o "$out/harness.fuzz" . || { echo "cannot build the fuzz target" >&2; exit 2; }
  fi ;;
esac
[ "$id" = build ] && exit 0
if [ "$id" = replay ]; then
  exec "$out/harness" replay "$2"
fi
exec "$out/harness" run "$id" "$tier"
