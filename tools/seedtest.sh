#!/bin/bash
# seedtest.sh ID [nocheck|notest]: dev tool. Confirms a planted bug in a scratch copy (bind-mounted over /repo in a private mount namespace)
# and runs the property's check against it. Needs the right to unshare -Urm.
id=$1; opt=$2
S=/tmp/sc/$id
if [ -z "$INNS" ]; then
  mkdir -p $S/repo $S/verif
  rsync -a --delete /repo/ $S/repo/ 2>/dev/null || { rm -rf "/tmp/sc/$id/repo"; cp -a /repo $S/repo; }
  if [ "$opt" != nocheck ]; then rm -rf "/tmp/sc/$id/verif"; cp -a /verif $S/verif; rm -rf "/tmp/sc/$id/verif/seeded"; fi
  cp -a /verif/seeded/$id $S/seed
  INNS=1 unshare -Urm bash "$0" "$@"
  rm -rf "/tmp/sc/$id"
  exit
fi
mount --bind $S/repo /repo
[ "$opt" != nocheck ] && mount --bind $S/verif /verif
cd /repo
D=/tmp/sc/$id/demo; mkdir -p $D; cp $S/seed/* $D/; rm -f $D/*.diff $D/meta.json
git -C /repo checkout -q -- . 
if [ "$opt" != notest ]; then
bash /opt/vp/build.sh >/tmp/sc/$id/b0.log 2>&1 || echo "$id BUILD0 FAIL"
bash $D/demo.sh >/tmp/sc/$id/d0.log 2>&1; echo "$id demo clean rc=$?"
fi
git -C /repo apply $S/seed/patch.diff || { echo "$id APPLY FAIL"; exit 1; }
if [ "$opt" != notest ]; then
bash /opt/vp/build.sh >/tmp/sc/$id/b1.log 2>&1 || { echo "$id BUILD1 FAIL"; tail -20 /tmp/sc/$id/b1.log; }
bash $D/demo.sh >/tmp/sc/$id/d1.log 2>&1; echo "$id demo patched rc=$?"; tail -3 /tmp/sc/$id/d1.log
bash /opt/vp/test.sh /tmp/sc/$id/t.json >/tmp/sc/$id/t.log 2>&1
python3 - <<P
import json
s=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('/tmp/sc/$id/t.json'))['passed']
m=set(s)-set(t); print('$id stable tests lost:', len(m), sorted(m)[:5])
P
fi
if [ "$opt" != nocheck ]; then
p=$(python3 -c "import json;print(json.load(open('$S/seed/meta.json'))['property'])")
s=$(date +%s)
python3 /verif/tools/check.py $p >/tmp/sc/$id/c.log 2>&1; echo "$id check $p rc=$? $(( $(date +%s)-s ))s"; grep -a -m3 VIOLATION /tmp/sc/$id/c.log || tail -3 /tmp/sc/$id/c.log
fi
