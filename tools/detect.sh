#!/bin/bash
# Development tool: detect.sh BUG [PROPERTY]: does the check report the planted bug? (runs in a scratch copy)
root=$(cd "$(dirname "$0")/.." && pwd)
b=$root/seeded/$1
p=${2:-$(python3 -c "import json,sys;print(json.load(open('$b/meta.json'))['property'])")}
D=$(mktemp -d /tmp/detect.XXXXXX)
trap 'rm -rf "$D"' EXIT
cp -a /repo "$D/repo"; git -C "$D/repo" apply "$b/patch.diff" || { echo "$1: patch does not apply"; exit 2; }
mkdir "$D/v"; cp -a "$root/bin" "$root/vh" "$root/specs" "$root/known_findings.json" "$D/v/"
VERIF_REPO=$D/repo "$D/v/bin/check" "$p" > "$D/out" 2>&1; rc=$?
echo "$1 $p rc=$rc $(grep -c '^  ' "$D/out") :: $(grep '^  ' "$D/out" | head -1 | cut -c1-200)"
[ $rc = 1 ] || tail -3 "$D/out"
