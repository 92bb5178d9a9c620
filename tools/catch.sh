#!/bin/bash
# catch.sh ID...   run the check of each planted bug's property against it
cd /verif
for id in "$@"; do
	p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' seeded/$id/meta.json)
	git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
	out=$(./run.sh ${CHECK:-$p} ${TIER:-quick} 2>&1); code=$?
	git -C /repo checkout -q -- .
	if [ $code = 1 ] && grep -q "VIOLATION property=${CHECK:-$p} " <<<"$out"; then echo "$id caught by ${CHECK:-$p}: $(head -1 <<<"$out" | cut -c1-200)"; else echo "$id MISSED by ${CHECK:-$p} (exit $code): $(tail -1 <<<"$out" | cut -c1-200)"; fi
done
