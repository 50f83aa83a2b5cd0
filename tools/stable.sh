#!/bin/bash
# rebuild /repo and report stable tests that no longer pass
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo build failed; tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/tmp/t.log 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
print('stable tests failing:', sorted(set(b['stable'])-set(o['passed'])))"
