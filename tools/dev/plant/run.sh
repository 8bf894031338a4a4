#!/bin/bash
# run.sh ID [PROPS]: run the checks against a planted bug
id=$1; shift
d=/tmp/pr/$id; mkdir -p /tmp/pr; rm -rf "$d"; git clone -q /repo $d && git -C $d apply ${SEED:-/verif/seeded}/$id/patch.diff || exit 1
props=${@:-P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 S13 S14 S15 S16 S17 S18 S19 P20 R21 R22 R23 R24 R25 L26 X27 I28}
echo "== $id $(python3 -c "import json;print(json.load(open('$(echo ${SEED:-/verif/seeded})/$id/meta.json'))['property'])")"
QUIETOK=1 CUT=110 /verif/tools/against.sh $d $props
rm -rf "$d"
