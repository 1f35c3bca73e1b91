#!/bin/bash
# Developer helper (no check uses it): runs the check of each planted bug against a patched copy of /repo.
# usage: seeded.sh [-a] [NAME...]      -a: all checks against each bug
cd "$(dirname "$0")/.." || exit 2
all=; [ "$1" = -a ] && { all=1; shift; }
[ $# -gt 0 ] || set -- $(ls seeded)
one() {
	n=$1; d=$(mktemp -d /tmp/seeded.XXXXXX); cp -a /repo "$d/repo"; git -C "$d/repo" apply "$PWD/seeded/$n/patch.diff" || { echo "$n: does not apply"; rm -rf "$d"; return; }
	own=$(python3 -c "import json,sys;print(json.load(open('seeded/$n/meta.json'))['property'])")
	for p in $( [ -n "$2" ] && seq -f 'P%02g' 19 || echo $own ); do
		s=$(date +%s); VP_REPO=$d/repo VP_NOEVIDENCE=1 VERIF_SEED=${VERIF_SEED:-1} python3 tools/check.py $p >"$d/out" 2>&1; rc=$?
		[ $rc = 0 ] && [ $p != $own ] && continue
		echo "$n ($own) check $p: exit $rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION "$d/out" | cut -c1-200)"
	done
	rm -rf "$d"
}
for n; do one "$n" $all; done
