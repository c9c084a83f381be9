#!/bin/bash
# Runs the repository's own tests on the current tree and compares with the baseline.
bash /opt/vp/test.sh /tmp/repotest.json > /tmp/repotest.log 2>&1
python3 - <<'P'
import json
r=json.load(open('/tmp/repotest.json'));b=json.load(open('/opt/vp/BASELINE.json'))
want=set(b.get('stable',b.get('passed',[])) if isinstance(b,dict) else b)
print(len(r['passed']),'passed; missing:',sorted(want-set(r['passed'])))
P
