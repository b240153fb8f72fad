#!/bin/bash
# catch.sh ID... : runs the quick check of the property of each planted bug on a scratch copy of /repo with that bug (VERIF_REPO)
for id in "$@"; do
	S=$(mktemp -d /tmp/catch.XXXX); git clone -q /repo $S/repo
	p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
	git -C $S/repo apply /verif/seeded/$id/patch.diff || echo "does not apply"
	t=$(date +%s)
	VERIF_REPO=$S/repo VERIF_EVIDENCE=$S python3 /verif/run.py $p quick > $S/log 2>&1; rc=$?
	echo "$id $p rc=$rc $(( $(date +%s) - t ))s $(grep -m1 VIOLATION $S/log | cut -c1-200)"
	[ $rc = 1 ] || tail -5 $S/log
	rm -rf "$S"
done
