#!/bin/bash
# seedtest.sh ID [CHECK...]: confirms a planted bug (builds, tests pass, demo fails with it and passes without)
# and runs the named checks against it. Works in /repo and undoes the change.
id=$1; shift
d=/verif/seeded/$id
cd /repo || exit 1
git diff --quiet || { echo "/repo is not clean"; exit 1; }
if [ -z "$NOCLEAN" ]; then bash /opt/vp/build.sh >/tmp/seed.build 2>&1; timeout 300 bash $d/demo.sh >/tmp/seed.demo 2>&1; echo "demo on clean tree: $?"; fi
git apply $d/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || echo "build failed"
bash /opt/vp/test.sh /tmp/seed.json 2>&1 >/tmp/seed.test | tail -1; tail -1 /tmp/seed.test
timeout 300 bash $d/demo.sh >/tmp/seed.demo2 2>&1; echo "demo with the bug: $?"
cd /verif
for c in "$@"; do
  timeout 900 ./check $c >/tmp/seed.check 2>&1; echo "$c: rc=$? $(grep -c "^VIOLATION property=$c" /tmp/seed.check) $(tail -1 /tmp/seed.check | cut -c1-150)"
done
git -C /repo checkout -- .
python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));r=json.load(open('/tmp/seed.json'));print('stable tests failing:',[x for x in b['stable'] if x not in r['passed']])"
