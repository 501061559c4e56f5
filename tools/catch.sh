#!/bin/bash
# catch.sh ID [CHECK...]: applies seeded/ID to /repo, runs its property's check (or the named ones), undoes it.
id=$1; shift
C="$*"; [ -n "$C" ] || C=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
cd /verif
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 2; }
git -C /repo apply /verif/seeded/$id/patch.diff || exit 2
for c in $C; do echo "== $id under $c"; timeout 900 python3 check.py $c 2>&1 | tail -4 | cut -c1-400; done
git -C /repo checkout -q -- .
git -C /repo status --short
