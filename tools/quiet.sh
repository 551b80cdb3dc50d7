#!/bin/bash
# quiet.sh [ID...]: run every check on each refactoring (refactor/ID.diff); CHECKS="C01 ..." limits the checks
cd /verif && ./check.sh --build
ids="$*"; [ -n "$ids" ] || ids=$(ls refactor | sed 's/\.diff$//')
checks=${CHECKS:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}
for id in $ids; do
	w=$(mktemp -d /tmp/qui.XXXX); cp -a /repo "$w/repo"; git -C "$w/repo" apply "/verif/refactor/$id.diff" || { echo "$id APPLY"; rm -rf "$w"; continue; }
	mkdir "$w/out"; cp known-findings.txt "$w/out/"
	s=$(date +%s)
	for p in $checks; do
		timeout 900 bin/rsa check "$p" -tier quick -repo "$w/repo" -out "$w/out" > "$w/log" 2>&1; rc=$?
		u=$(grep -o '[0-9]* undecided' "$w/log" | head -1)
		if [ $rc != 0 ] || [ "$u" != "0 undecided" ]; then
			echo "$id $p rc=$rc $u $(grep -m1 VIOLATION "$w/log" | cut -c1-200)"
			python3 - "$w/out/evidence/$p.json" <<'P'
import json,sys
try:
    d=json.load(open(sys.argv[1]))
    def find(x):
        if isinstance(x,dict):
            for k,v in x.items():
                if 'undecided' in k and isinstance(v,list): print('   ', v[:2])
                else: find(v)
    find(d)
except Exception as e: print('   ',e)
P
		fi
	done
	echo "$id done $(( $(date +%s)-s ))s"
	rm -rf "$w"
done
