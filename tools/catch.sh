#!/bin/bash
# Run each seeded bug's own check (or the checks named in CHECKS) against it, in /repo itself, and undo it.
# usage: catch.sh ID...   (all of /verif/seeded without)
cd /verif || exit 1
for s in ${@:-$(ls seeded)}; do
    git -C /repo checkout -q -- .
    git -C /repo apply "/verif/seeded/$s/patch.diff" || { echo "$s: does not apply"; continue; }
    for p in ${CHECKS:-$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")}; do
        t=$SECONDS
        VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py "$p" quick > "/tmp/catch-$s-$p.log" 2>&1
        rc=$?
        echo "$s $p rc=$rc $((SECONDS-t))s $(grep -m1 '^VIOLATION' "/tmp/catch-$s-$p.log")"
    done
    git -C /repo checkout -q -- .
done
