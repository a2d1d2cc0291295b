#!/bin/bash
# catch.sh [ID...]: runs the check of each planted bug's property with the bug applied to /repo.
cd "$(dirname "$0")/.." || exit 3
ids=("$@"); [ $# = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
	p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
	git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
	s=$SECONDS
	out=$(bash check.sh "$p" quick 2>&1); rc=$?
	git -C /repo checkout -- .
	echo "$id $p rc=$rc $((SECONDS-s))s $(echo "$out" | grep -m1 VIOLATION)"
done
