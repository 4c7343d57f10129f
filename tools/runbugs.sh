#!/bin/bash
# runbugs.sh [ID...]: apply each planted bug to /repo, run its property's check, undo.
cd /verif
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
	p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
	git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
	s=$(date +%s); bash check.sh $p quick >/tmp/runbug.out 2>&1; rc=$?
	git -C /repo checkout -- .
	echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/runbug.out)"
done
