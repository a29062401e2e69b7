#!/bin/bash
# Runs the test suite of /repo and says which of the stable tests fail.
bash /opt/vp/test.sh /tmp/stable_out.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=set(json.load(open('/tmp/stable_out.json'))['passed'])
bad=[x for x in b if x not in t]
print(len(b), 'stable,', len(bad), 'failing', bad[:10])
P
