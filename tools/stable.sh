#!/bin/bash
# development helper: rebuild /repo and compare the stable tests with the baseline
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo BUILD FAILED; exit 1; }
O=$(mktemp); bash /opt/vp/test.sh $O >/dev/null 2>&1
python3 - $O <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(sys.argv[1])); m=b-set(o['passed'])
print('stable tests missing:',len(m), list(m)[:3]); sys.exit(1 if m else 0)
P
r=$?; rm -f $O; exit $r
