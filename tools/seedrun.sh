#!/bin/bash
# seedrun.sh ID [PROP...]: run checks against one planted change (applied to /repo, undone afterwards)
ID=$1; shift; D=/verif/seeded/$ID
P=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
cd /verif; [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
git -C /repo apply "$D/patch.diff" || exit 1
for p in $P; do
  o=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 check.py $p --quick 2>&1); r=$?
  echo "$ID $p rc=$r $(echo "$o" | grep -v '^VIOLATION' | head -1 | cut -c1-200)"
done
git -C /repo checkout -- .
