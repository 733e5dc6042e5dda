#!/bin/bash
# run_tests_in.sh DIR: builds a scratch copy DIR of /repo and runs the
# repository's tests there; prints the tests of BASELINE.json that do not pass.
dir=$(realpath "$1"); w=$(mktemp -d)
for f in build.sh test.sh; do sed "s#/repo#$dir#g; s#/opt/vp/build.sh#$w/build.sh#g" /opt/vp/$f > "$w/$f"; done
bash "$w/build.sh" > "$w/build.log" 2>&1 || { echo "BUILD FAILED"; tail -5 "$w/build.log"; rm -rf "$w"; exit 2; }
bash "$w/test.sh" "$w/out.json" > "$w/log" 2>&1
python3 - "$w/out.json" <<'PY'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
ids=b if isinstance(b,list) else b.get('tests') or b.get('passed') or b.get('stable')
bad=[t for t in ids if t not in set(o['passed'])]
print("stable tests:",len(ids),"not passing:",len(bad))
for t in bad: print("  ",t)
sys.exit(1 if bad else 0)
PY
rc=$?; [ -n "$KEEP" ] && cp "$w/log" "$KEEP"; rm -rf "$w"; exit $rc
