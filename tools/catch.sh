#!/bin/bash
# tools/catch.sh CHECK ID...: runs the quick check against planted changes, in /repo itself, which is restored afterwards.
C=$1; shift
for ID in "$@"; do
    git -C /repo apply /verif/seeded/$ID/patch.diff || exit 2
    timeout 900 python3 /verif/check.py $C quick > /tmp/catch-$C-$ID.log 2>&1; RC=$?
    git -C /repo checkout -q -- .
    echo "$ID by $C: rc=$RC $(grep -m1 VIOLATION /tmp/catch-$C-$ID.log) $(grep -m1 -i 'class\|detail' /tmp/catch-$C-$ID.log | cut -c1-200)"
done
