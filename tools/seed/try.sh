#!/bin/bash
# try.sh ID...: run the check of the property of each planted bug
for id in "$@"; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
 out=$(cd /verif && bin/check $p --tier quick 2>&1); rc=$?
 git -C /repo checkout -q -- .
 echo "$id $p rc=$rc $(echo "$out" | grep -m1 '^VIOLATION' | cut -c1-200)"
 if [ $rc = 2 ]; then echo "$out" | tail -5; fi
done
