#!/bin/bash
# catch.sh ID...: run the check of each seeded bug's property on a patched scratch copy of /repo
for id in "$@"; do
W=$(mktemp -d /tmp/catch-XXXX); cp -a /repo $W/repo; (cd $W/repo && git apply /verif/seeded/$id/patch.diff) || echo "$id does not apply"
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
mkdir $W/build; for x in /verif/build/astdump* /verif/build/irdump*; do [ -f $x ] && ln -s $x $W/build/; done
VERIF_REPO=$W/repo VERIF_BUILD=$W/build VERIF_EVID=$W/ev timeout 900 python3 /verif/check.py $P >$W/o 2>&1; rc=$?
echo "$id $P rc=$rc $(grep -m1 -B1 VIOLATION $W/o | head -1 | cut -c1-150)"
rm -rf "$W"
done
