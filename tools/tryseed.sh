#!/bin/bash
# tryseed.sh ID...: runs the property's check with the change applied.
for id in "$@"; do
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || exit 1
( cd /verif; t0=$(date +%s); python3 check.py $p > /tmp/try.out 2>&1; echo "$id $p exit $? $(( $(date +%s)-t0 ))s: $(grep VIOLATION /tmp/try.out)" )
git -C /repo checkout -- .
done
