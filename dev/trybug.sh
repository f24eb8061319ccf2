#!/bin/bash
# apply a planted bug to /repo, run its property's check, undo
for id in "$@"; do
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || continue
(cd /verif && timeout 900 python3 check.py $p | grep -v "^ " | cut -c1-200 | tail -4); echo "$id rc=$?"
git -C /repo checkout -- .
done
