#!/bin/bash
# seedconfirm.sh <id>...: confirms planted bugs in scratch copies bind-mounted over /repo: applies, builds, stable tests pass, demo passes without and fails with it.
for ID in "$@"; do
S=/verif/seeded/$ID
W=/tmp/vfconf_$ID; rm -rf "$W"; cp -a /repo "$W"
D=/tmp/vfdemo_$ID; rm -rf "$D"; cp -a "$S" "$D"; rm -f "$D"/*.diff "$D"/meta.json
unshare -Urm bash -c "mount --bind $W /repo; cd /repo
bash /opt/vp/build.sh >/tmp/vfconf_$ID.log 2>&1 || echo CLEAN BUILD FAILED
bash $D/demo.sh >/tmp/vfconf_$ID.demo0 2>&1; a=\$?
git apply $S/patch.diff || echo APPLY FAILED
bash /opt/vp/test.sh /tmp/vfconf_$ID.json >>/tmp/vfconf_$ID.log 2>&1
bash $D/demo.sh >/tmp/vfconf_$ID.demo1 2>&1; b=\$?
echo \"$ID demo clean=\$a patched=\$b tests: \$(/usr/bin/python3 -c \"
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/vfconf_$ID.json'))
def names(x):
    return set(x if isinstance(x,list) else x.keys())
st=set(b.get('stable') or b.get('passed') or b.get('tests') or [])
ok=set(r['passed'])
print('missing', len(st-ok), sorted(st-ok)[:3], 'of', len(st))\")\""
rm -rf "$W" "$D"
done
