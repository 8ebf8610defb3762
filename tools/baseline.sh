#!/bin/bash
# build /repo and compare with the stable tests
OUT=${OUT:-/tmp/o.json}
bash /opt/vp/build.sh >$OUT.log 2>&1 || { echo BUILD FAILED; tail -5 $OUT.log; exit 1; }
bash /opt/vp/test.sh $OUT >/dev/null 2>&1
OUT=$OUT python3 -c "
import json,os
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open(os.environ['OUT']))['passed'])
print('missing', sorted(b-o)[:5], len(b&o), 'pass')"
