#!/bin/bash
# seedrun.sh [ID...]: runs the check of each planted bug's property against a scratch copy of /repo with the bug applied.
cd /verif || exit 1
ids=${*:-$(ls seeded)}
for id in $ids; do
	p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
	w=$(mktemp -d /tmp/seedrun.XXXXXX)
	cp -a /repo "$w/repo"
	git -C "$w/repo" apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; rm -rf "$w"; continue; }
	t0=$(date +%s)
	VERIF_REPO="$w/repo" ./check "$p" >"/tmp/seedrun-$id.log" 2>&1
	rc=$?
	rm -rf "$w"
	echo "$id $p rc=$rc $(($(date +%s) - t0))s $(grep -m1 -o 'VIOLATION property=[A-Z0-9]*' "/tmp/seedrun-$id.log")"
done
