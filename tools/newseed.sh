#!/bin/bash
# newseed.sh ID PROP KIT(field|none): makes /verif/seeded/ID from the current diff of /repo and confirms it, then undoes the diff.
# expects /verif/seeded/ID/{demo.sh,demo.cpp} and meta.json to exist
id=$1; d=/verif/seeded/$id
git -C /repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no diff"; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "build failed"
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1; python3 -c "
import json;d=json.load(open('/tmp/o.json'));print('tests', len(d['passed']), d['failed'])"
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo.out 2>&1); echo "patched demo rc=$?"; head -c 300 /tmp/demo.out
git -C /repo checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo.out 2>&1); echo "clean demo rc=$?"; head -c 300 /tmp/demo.out
git -C /repo status --short | head -3
