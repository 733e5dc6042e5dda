#!/bin/bash
# try_seed.sh ID [PROPERTY]: runs the check of the property against a copy of
# /repo with the planted bug.
V=$(cd "$(dirname "$0")/.." && pwd)
P=${2:-$(python3 -c "import json,sys;print(json.load(open('$V/seeded/$1/meta.json'))['property'])")}
W=$(mktemp -d /tmp/nbtry.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo/src /repo/third-party "$W/"
(cd "$W" && git apply --unsafe-paths --directory="$W" "$V/seeded/$1/patch.diff" 2>/dev/null || patch -s -p1 < "$V/seeded/$1/patch.diff") || exit 3
NBV_EVIDENCE=$W NBV_REPO=$W timeout 900 python3 "$V/check.py" "$P" > "$W/out" 2>&1
rc=$?
echo "$1 $P exit=$rc $(grep -v '^note' "$W/out" | tail -2 | head -1 | cut -c1-220)"
exit $rc
