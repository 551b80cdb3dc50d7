#!/bin/bash
# detect.sh [ID...]: apply each planted bug to a scratch copy and run the check of its property on it
cd /verif && ./check.sh --build
ids="$*"; [ -n "$ids" ] || ids=$(ls seeded)
one() {
	id=$1; p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
	w=$(mktemp -d /tmp/det.XXXX); cp -a /repo "$w/repo"; git -C "$w/repo" apply "/verif/seeded/$id/patch.diff" || { echo "$id APPLY"; rm -rf "$w"; return; }
	mkdir "$w/out"; cp known-findings.txt "$w/out/"
	s=$(date +%s); bin/rsa check "$p" -tier quick -repo "$w/repo" -out "$w/out" > "$w/log" 2>&1; rc=$?
	v=$(grep -m1 VIOLATION "$w/log" | cut -c1-150)
	n=$(grep -c VIOLATION "$w/log")
	if [ $rc = 1 ] && grep -q "VIOLATION property=$p" "$w/log"; then r=CAUGHT; else r="MISSED rc=$rc"; fi
	echo "$id [$p] $r n=$n $(( $(date +%s)-s ))s"
	rm -rf "$w"
}
export -f one
printf '%s\n' $ids | xargs -P 2 -I{} bash -c 'one {}'
