#!/bin/bash
# development helper: stable tests that no longer pass on /repo's working tree
bash /opt/vp/test.sh /tmp/suite.json >/tmp/suite.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=set(json.load(open('/tmp/suite.json'))['passed'])
m=[x for x in b if x not in o]
print(len(o),'passed; stable tests lost:',len(m)); print('\n'.join(m[:20]))
P
