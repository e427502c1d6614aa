#!/bin/bash
# Runs the check of each planted bug against /repo with the bug applied: catch.sh ID...   (development only)
for id in "$@"; do
    D=/verif/seeded/$id
    p=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
    [ -z "$(git -C /repo status --short)" ] || { echo "/repo not clean"; exit 1; }
    git -C /repo apply $D/patch.diff || continue
    s=$(date +%s)
    timeout 900 /verif/run.sh ${P:-$p} quick >/tmp/catch.$id.log 2>&1; rc=$?
    git -C /repo checkout -q -- .
    echo "$id ${P:-$p} rc=$rc $(($(date +%s)-s))s $(grep -c '^VIOLATION' /tmp/catch.$id.log) violations"
done
