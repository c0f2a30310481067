#!/bin/bash
# Development: validates a planted bug. seed.sh ID [nocheck] -- everything happens on a bind-mounted copy of /repo.
id=$1; S=/verif/seeded/$id; W=/tmp/seedwt_$id; prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
rm -rf "$W" ; cp -a /repo "$W"
(cd "$W" && git apply "$S/patch.diff") || { echo "$id: patch does not apply"; rm -rf "$W"; exit 1; }
D=$(mktemp -d); cp "$S"/* "$D"/; rm -f "$D"/*.diff "$D"/meta.json
if [ "$2" != nobuild ]; then
  (cd /repo && timeout 300 bash "$D/demo.sh" > /tmp/seed_$id.demo0 2>&1); echo "$id demo unchanged rc=$?"
  unshare -Urm bash -c "mount --bind $W /repo && cd /repo && bash /opt/vp/test.sh /tmp/seed_$id.json > /tmp/seed_$id.build 2>&1; cd /repo; timeout 300 bash $D/demo.sh > /tmp/seed_$id.demo1 2>&1; echo $id demo patched rc=\$?"
  python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/seed_$id.json'))
print('$id tests: stable missing', len(b-set(o['passed'])), sorted(b-set(o['passed']))[:5])
P
fi
if [ "$2" != nocheck ]; then
  cp -a /verif/build /tmp/seedbld_$id 2>/dev/null
  unshare -Urm bash -c "mount --bind $W /repo && cd /verif && VF_BUILD=/tmp/seedbld_$id VF_EV=/tmp/seedbld_$id/ev python3 run.py $prop ${3:-quick} > /tmp/seed_$id.check 2>&1; echo $id check rc=\$?"
  grep -a VIOLATION -B1 /tmp/seed_$id.check | head -4 | cut -c1-300
  rm -rf /tmp/seedbld_$id
fi
rm -rf "$W" "$D"
