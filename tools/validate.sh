#!/bin/bash
# validate.sh <id>...: for each planted change: in a private mount namespace with a scratch copy of /repo bound over /repo,
# check demo.sh exits 0 unpatched, patch applies, builds, stable tests pass, demo.sh fails.
V=$(cd "$(dirname "$0")/.." && pwd)
if [ "$VP_NS" != 1 ]; then
  for id in "$@"; do VP_NS=1 unshare -mn bash "$0" "$id"; done; exit
fi
id=$1; S=/tmp/seedval-$id
ip link set lo up 2>/dev/null
rm -rf "/tmp/seedval-$id"; cp -a /repo "$S"; mkdir -p /tmp/seeddemo-$id; cp -r $V/seeded/$id/. /tmp/seeddemo-$id
rm -f /tmp/seeddemo-$id/patch.diff /tmp/seeddemo-$id/meta.json
mount --bind "$S" /repo
cd /repo && git checkout -q -- . 
bash /opt/vp/build.sh > /tmp/seedval-$id.log 2>&1
d0=0; timeout 300 bash /tmp/seeddemo-$id/demo.sh > /tmp/seedval-$id.d0 2>&1 || d0=$?
git apply $V/seeded/$id/patch.diff || echo "$id: patch does not apply"
if bash /opt/vp/build.sh >> /tmp/seedval-$id.log 2>&1; then
  t=$(bash /opt/vp/test.sh /tmp/seedval-$id.json 2>&1 | grep passed, | tail -1)
  ok=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seedval-$id.json'))
base=b.get('stable') or b.get('passed') or b.get('tests') or b
miss=[x for x in base if x not in r['passed']]
print('stable-ok' if not miss else 'STABLE-FAIL %s' % miss[:5])
P
)
  d1=0; timeout 300 bash /tmp/seeddemo-$id/demo.sh > /tmp/seedval-$id.d1 2>&1 || d1=$?
else t="BUILD FAILED"; fi
echo "$id: demo-unpatched=$d0 tests: $t $ok demo-patched=$d1"
[ $d0 != 0 ] && head -5 /tmp/seedval-$id.d0; [ "$d1" = 4 -o "$d1" = 0 ] && head -5 /tmp/seedval-$id.d1
cd /; umount /repo; rm -rf "/tmp/seedval-$id" "/tmp/seeddemo-$id"
