#!/bin/bash
# apply each planted bug to a copy of /repo and run its property's check on the copy; print what it said
cd "$(dirname "$0")/.."
for d in seeded/*/; do id=$(basename $d); [ $# -gt 0 ] && [[ ! " $* " == *" $id "* ]] && continue
 rm -rf /tmp/rs_$id; cp -a /repo /tmp/rs_$id; git -C /tmp/rs_$id apply $PWD/$d/patch.diff || echo APPLY
 p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 out=$(PROADV_REPO=/tmp/rs_$id python3-vt check.py $p --tier quick 2>&1); rc=$?
 echo "$id $p rc=$rc $(echo "$out" | grep -v ^VIOL | head -1 | cut -c1-150)"; rm -rf /tmp/rs_$id
done
