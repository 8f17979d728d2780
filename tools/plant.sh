#!/bin/bash
# plant.sh ID [check]: validates /verif/seeded/ID (patch applies to a copy of /repo, builds, tests pass, demo passes
# before and fails after); with "check", also runs the check of its property on the patched copy.
# Works on a copy of /repo bind-mounted over /repo in a private mount namespace.
ID=$1
W=/tmp/wt-$ID
rm -rf "$W"; cp -a /repo "$W"
unshare -m bash -c '
mount --bind "'$W'" /repo
S=/tmp/seed-'$ID'; rm -rf $S; mkdir $S; cp -r /verif/seeded/'$ID'/. $S; rm -f $S/*.diff $S/meta.json
cd /repo
bash /opt/vp/build.sh >/tmp/plant-'$ID'.log 2>&1
bash $S/demo.sh; echo "demo on clean tree: $?"
git apply /verif/seeded/'$ID'/patch.diff || exit 1
bash /opt/vp/test.sh /tmp/plant-'$ID'.json >>/tmp/plant-'$ID'.log 2>&1
python3 -c "
import json; o=json.load(open(\"/tmp/plant-'$ID'.json\")); b=json.load(open(\"/opt/vp/BASELINE.json\"))
t=b if isinstance(b,list) else b[\"stable\"]
print(\"tests:\",len(o[\"passed\"]),\"passed\",len(o[\"failed\"]),\"failed; missing\",[x for x in t if x not in o[\"passed\"]][:5])"
bash $S/demo.sh | tail -5; echo "demo with the patch: ${PIPESTATUS[0]}"
if [ "'$2'" = check ]; then
  P=$(python3 -c "import json;print(json.load(open(\"/verif/seeded/'$ID'/meta.json\"))[\"property\"])")
  cd /verif; SIM_BUILD=/tmp/plant-build-'$ID' python3 tools/check.py $P | tail -4; echo "check $P: ${PIPESTATUS[0]}"
fi
rm -rf $S'
rm -rf "$W" /tmp/plant-build-$ID
