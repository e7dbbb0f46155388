#!/bin/bash
# tryseed.sh SEED_ID...: does the check of its property catch each planted bug? (in a scratch copy)
for id in "$@"; do
	S=/verif/seeded/$id
	D=$(mktemp -d /tmp/try-XXXXXX)
	cp -a /repo/PTN_Engine "$D"/
	(cd "$D" && git init -q . && git apply --whitespace=nowarn "$S/patch.diff") || { echo "$id does not apply"; find "$D" -delete; continue; }
	p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
	t=$SECONDS
	o=$(VP_REPO=$D timeout 900 python3 /verif/tools/run_check.py $p 2>&1 | tail -4)
	if echo "$o" | grep -q "^VIOLATION property=$p"; then r=CAUGHT; else r=MISSED; fi
	echo "$id $p $r $((SECONDS-t))s $(echo "$o" | head -1 | cut -c1-160)"
	find "$D" -delete
done
