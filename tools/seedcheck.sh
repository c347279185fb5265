#!/bin/bash
# seedcheck.sh ID...: applies each planted change to /repo, runs the check of its property, undoes it
cd /verif
for id in "$@"; do
	p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
	[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
	git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
	s=$(date +%s)
	VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick ./check.sh $p >/tmp/sc.$id.out 2>&1; rc=$?
	git -C /repo checkout -q -- .
	echo "$id: $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 -E '^VIOLATION' /tmp/sc.$id.out)"
done
