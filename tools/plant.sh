#!/bin/bash
# tools/plant.sh ID : the edit is in /tmp/w (scratch copy of /repo); demo.* and meta.json are in /verif/seeded/ID.
# Confirms: builds, stable tests pass, demo fails with the change and passes without. Writes patch.diff.
id=$1; d=/verif/seeded/$id; cd /tmp/w || exit 1
[ "$2" = "-r" ] && git apply $d/patch.diff
git diff > /tmp/vpw/p.diff; [ -s /tmp/vpw/p.diff ] || { echo "no change"; exit 1; }
bash /tmp/vpw/test.sh /tmp/vpw/o.json >/tmp/vpw/t.log 2>&1
python3 - <<'P' || { git -C /tmp/w checkout -q -- .; exit 1; }
import json,sys
t=json.load(open('/tmp/vpw/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
miss=[x for x in b['stable'] if x not in set(t['passed'])]
print('missing',len(miss),miss[:4]); sys.exit(1 if miss else 0)
P
(cd /tmp/w && timeout 300 bash $d/demo.sh) >/tmp/vpw/d1.log 2>&1; a=$?
git checkout -q -- . ; bash /tmp/vpw/build.sh >/dev/null 2>&1
(cd /tmp/w && timeout 300 bash $d/demo.sh) >/tmp/vpw/d0.log 2>&1; b=$?
echo "$id demo with=$a without=$b"; tail -2 /tmp/vpw/d1.log; [ $b != 0 ] && tail -5 /tmp/vpw/d0.log
[ $a != 0 ] && [ $b = 0 ] && cp /tmp/vpw/p.diff $d/patch.diff && echo "kept $id"
