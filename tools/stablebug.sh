#!/bin/bash
# tools/stablebug.sh <id>...: run the repository's stable tests with a planted bug, in a copy of /repo at /tmp/stab
if [ ! -d /tmp/stab ]; then mkdir /tmp/stab; git -C /repo archive HEAD | tar x -C /tmp/stab; (cd /tmp/stab; git init -q; git add -A; git -c user.name=x -c user.email=x@x commit -qm x); fi
for s in build test; do sed 's#/repo#/tmp/stab#g; s#/opt/vp/build.sh#/tmp/stab.build.sh#g' /opt/vp/$s.sh > /tmp/stab.$s.sh; done
cd /tmp/stab
for i in "$@"; do
  git checkout -q -- .
  git apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  bash /tmp/stab.test.sh /tmp/stab.json >/tmp/stab.log 2>&1
  python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/stab.json'))
print('$i stable tests failing:', sorted(set(b['stable'])-set(o['passed'])))"
  git checkout -q -- .
done
