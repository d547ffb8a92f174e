#!/bin/bash
# seedtest.sh ID [notest]: confirm one planted change in a scratch copy of /repo (build, tests, demo with and without)
set -u
ID=$1; D=/verif/seeded/$ID; S=/tmp/seed_$ID
rm -rf "/tmp/seed_$ID"; mkdir -p "$S"; cp -a /repo/. "$S/"; mkdir "$S.vp"; 
sed "s#^REPO=/repo#REPO=$S#" /opt/vp/build.sh > "$S.vp/build.sh"
cd "$S" && git checkout -q -- . 
bash "$S.vp/build.sh" > "$S.vp/b0.log" 2>&1 || { echo "$ID clean build failed"; }
cp -r "$D" "$S.vp/demo"; rm -f "$S.vp/demo/patch.diff" "$S.vp/demo/meta.json"
timeout 300 bash "$S.vp/demo/demo.sh" > "$S.vp/d0.log" 2>&1; d0=$?
git apply "$D/patch.diff" || { echo "$ID patch does not apply"; rm -rf "/tmp/seed_$ID" "/tmp/seed_$ID.vp"; exit 1; }
bash "$S.vp/build.sh" > "$S.vp/b1.log" 2>&1; b=$?
timeout 300 bash "$S.vp/demo/demo.sh" > "$S.vp/d1.log" 2>&1; d1=$?
t=skipped
if [ "${2:-}" != notest ]; then
  mkdir -p "$S.vp/r"; python3 /opt/vp/run_tests.py "$S/_build/src" "$S.vp/r" > "$S.vp/lines" 2>&1
  t=$(python3 - "$S.vp/lines" <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json')); want=set(base.get('passed') or base.get('stable') or base)
got={l[5:].strip() for l in open(sys.argv[1]) if l.startswith('PASS ')}
print("missing", len(want-got), sorted(want-got)[:5])
P
)
fi
echo "$ID build=$b demo_clean=$d0 demo_patched=$d1 tests: $t"
tail -2 "$S.vp/d1.log"
[ $d0 = 0 ] || tail -5 "$S.vp/d0.log"
rm -rf "/tmp/seed_$ID" "/tmp/seed_$ID.vp"
