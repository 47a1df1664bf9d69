#!/bin/bash
# run the stable tests of /repo's working tree and list those that fail
bash /opt/vp/build.sh >/tmp/ts.log 2>&1 || { tail -20 /tmp/ts.log; exit 1; }
bash /opt/vp/test.sh /tmp/ts.json >/tmp/ts.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('/tmp/ts.json'))
p=set(t['passed']); m=[x for x in b if x not in p]
print('stable',len(b),'missing',m)
P
