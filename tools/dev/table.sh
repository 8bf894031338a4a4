#!/bin/bash
# all checks at a tenth of the budget against each planted bug
ALL=$(cat /tmp/allprops)
for d in /verif/seeded/*/; do id=$(basename $d)
 grep -q "^== $id$" /tmp/table.txt 2>/dev/null && continue
 rm -rf /tmp/tbl; cp -a /repo /tmp/tbl; git -C /tmp/tbl apply $d/patch.diff || { echo "BAD $id" >> /tmp/table.txt; continue; }
 out=$(VERIF_DIV=10 QUIETOK=1 CUT=10 nice -n 10 /verif/tools/against.sh /tmp/tbl $ALL 2>&1)
 { echo "== $id"; echo "$out"; echo "-- end"; } >> /tmp/table.txt
done
rm -rf /tmp/tbl
