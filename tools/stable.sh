#!/bin/bash
# Runs the repository's tests and compares with the stable baseline (developer helper).
o=$(mktemp); bash /opt/vp/test.sh $o >/dev/null 2>&1
python3 - $o <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); d=json.load(open(sys.argv[1]))
m=b-set(d['passed']); print('stable',len(b),'missing',sorted(m)); sys.exit(1 if m else 0)
P
r=$?; rm -f "$o"; exit $r
