#!/bin/bash
# developer helper: full build + stable tests of /repo (or a copy is not supported by /opt/vp); prints missing stable tests
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json > /tmp/t.log 2>&1
python3 - <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/out.json'))['passed'])
m=sorted(b-o); print('stable missing:',len(m), m[:10]); sys.exit(bool(m))
P
