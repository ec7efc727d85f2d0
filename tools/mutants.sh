#!/bin/bash
# run a property's quick check against each seeded change (in scratch copies); usage: mutants.sh [substring] [jobs]
V=$(cd "$(dirname "$0")/.." && pwd)
for d in "$V"/seeded/*$1*/; do
  id=$(basename "$d"); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/mut.XXXXXX); cp -a /repo "$w/repo"; git -C "$w/repo" apply "$d/patch.diff" || echo "NOAPPLY $id"
  s=$(date +%s); out=$(cd "$V" && VERIF_REPO="$w/repo" ./check $p quick 2>&1); rc=$?; e=$(date +%s)
  echo "$id $p rc=$rc $((e-s))s $(echo "$out" | grep -m1 'violated:' | cut -c1-150)"
  [ $rc -ne 1 ] && echo "$out" | head -5
  rm -rf "${w:?}"
done
