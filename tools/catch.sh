#!/bin/bash
# development helper: catch.sh SEED [PROP]  -- apply a planted bug to /repo, run a check, undo
id=$1; prop=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$id/patch.diff || exit 3
out=$(timeout 900 python3 /verif/check.py $prop quick 2>&1); rc=$?
git -C /repo checkout -- .
echo "$id $prop rc=$rc"; echo "$out" | cut -c1-300 | tail -${3:-6}
