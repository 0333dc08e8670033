#!/bin/bash
# seedcheck.sh [-t TIER] [-p PROPERTY] SEED...: runs the check of the property each seeded bug breaks against a scratch copy
# of /repo with the bug applied; prints CAUGHT or MISSED.
tier=quick; prop=
while getopts t:p: o; do case $o in t) tier=$OPTARG;; p) prop=$OPTARG;; esac; done
shift $((OPTIND-1))
verif=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p /tmp/seedwork
for id in "$@"; do
	d=$verif/seeded/$id
	p=${prop:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
	w=/tmp/seedwork/run-$id
	rm -rf "$w"; cp -a /repo "$w"
	(cd "$w" && git apply "$d/patch.diff") || { echo "$id: PATCH DOES NOT APPLY"; continue; }
	out=$(LLX_REPO=$w timeout 900 "$verif/bin/check.sh" "$p" "$tier" 2>&1); rc=$?
	if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" <<< "$out"; then echo "$id: CAUGHT by $p: $(grep -A3 ^VIOLATION <<< "$out" | head -4 | cut -c1-300 | tr '\n' ' ')"
	else echo "$id: MISSED by $p (rc=$rc) $(tail -2 <<< "$out" | cut -c1-300)"; fi
	rm -rf "$w"
done
