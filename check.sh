#!/bin/bash
# check.sh <property>: build from /repo's working tree, monitor, judge.
# Exit 0 held, 1 violated (with a VIOLATION line), 2 no answer.
id=$1
export VERIF_ROOT=/verif VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
mkdir -p /verif/build /verif/evidence
rm -f "/verif/evidence/$id.json"
if ! /verif/bld.sh >"/verif/build/build.$id.log" 2>&1; then
    tail -30 "/verif/build/build.$id.log"; echo "$id: the harness does not build"; exit 2
fi
. /verif/env.sh
cd /verif
case $id in
    C08|C12|C22|C27) python3 "/verif/scripts/$id.py"; rc=$? ;;
    C23) if ! /verif/bldsan.sh address >/verif/build/build.asan.log 2>&1; then
             tail -30 /verif/build/build.asan.log; echo "$id: the AddressSanitizer build fails"; exit 2
         fi
         MON_ASAN=/verif/build/address/x86_64-unknown-linux-gnu/release/monitor /verif/build/target/release/monitor C23; rc=$? ;;
    # the fitting library prints warnings
    *) /verif/build/target/release/monitor "$id" | grep -v '^Caution'; rc=${PIPESTATUS[0]} ;;
esac
if [ $rc -ge 128 ]; then
    # killed by a signal: the code under test crashed the process
    mkdir -p /verif/build/replay
    echo "{\"property\": \"$id\", \"seed\": $VERIF_SEED, \"violations\": [{\"site\": \"crash\", \"detail\": \"monitor killed by signal $((rc-128))\"}], \"replay\": \"VERIF_SEED=$VERIF_SEED ./check.sh $id\"}" > "/verif/build/replay/$id.json"
    if [ $rc -eq 137 ] || [ $rc -eq 143 ]; then echo "$id: killed"; exit 2; fi
    echo "VIOLATION property=$id replay=/verif/build/replay/$id.json"; exit 1
fi
[ $rc -eq 0 ] || [ $rc -eq 1 ] || rc=2
exit $rc
