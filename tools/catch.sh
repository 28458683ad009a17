#!/bin/bash
# catch.sh [-a] [id...]: runs the check of its property (-a: all checks) against each planted change
V=$(cd "$(dirname "$0")/.." && pwd)
all=; [ "$1" = -a ] && { all=1; shift; }
ids=${*:-$(ls "$V/seeded")}
for id in $ids; do
  p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$V/seeded/$id/meta.json")
  w=$(mktemp -d /tmp/catch.XXXXXX); cp -a /repo/. "$w"; git -C "$w" checkout -q -- .
  git -C "$w" apply "$V/seeded/$id/patch.diff" || { echo "$id: does not apply"; rm -rf "$w"; continue; }
  list=$p; [ -n "$all" ] && list=$(python3 -c 'import json,sys; print(" ".join(c["property"] for c in json.load(open(sys.argv[1]))["checks"]))' "$V/MANIFEST.json")
  for c in $list; do
    s=$(date +%s)
    out=$(VERIF_REPO=$w timeout 900 "$V/check.sh" $c quick 2>&1); rc=$?
    if [ $rc = 1 ]; then r=CAUGHT; elif [ $rc = 0 ]; then r=missed; else r="rc=$rc"; fi
    [ -z "$all" ] || [ $rc != 0 ] && printf '%-20s %s %s (%ds) %s\n' $id $c "$r" $(( $(date +%s)-s )) "$(echo "$out" | grep -v '^C..:\|^C.. quick\|^VIOL' | head -1 | cut -c1-150)"
    [ -z "$all" ] && [ $rc = 0 ] && printf '%-20s %s %s\n' $id $c "$r"
  done
  rm -rf "$w"
done
