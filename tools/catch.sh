#!/bin/bash
# tools/catch.sh ID... : apply each planted bug to /repo, run its property's check, undo; records the outcome in tools/caught.json
for id in "$@"; do d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff || { echo "$id does not apply"; continue; }
(cd /verif && timeout 900 node check.mjs $p >/tmp/catch.log 2>&1); rc=$?
git -C /repo checkout -q -- .
python3 - $id $p $rc <<'P'
import json,sys,re
i,p,rc=sys.argv[1:]
f='/verif/tools/caught.json'
try: c=json.load(open(f))
except Exception: c={}
l=open('/tmp/catch.log').read()
m=re.search(r'failed obligation: (\[[^\]]*\] [^:]*)',l)
c[i]=(f"{p} {m.group(1) if m else ''}"+(" (no input)" if 'no-failing-input' in l else "")) if rc=='1' else f"missed (rc={rc})"
json.dump(dict(sorted(c.items())),open(f,'w'),indent=1)
P
echo "$id $p rc=$rc $(grep -h '^failed\|^VIOLATION' /tmp/catch.log | cut -c1-200 | tr '\n' ' ')"; done
