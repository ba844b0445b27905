#!/bin/bash
# run the quick checks of the given properties (default: all with a spec), print one line each
cd /verif
ids="$@"; [ -z "$ids" ] && ids=$(ls specs | sed -n 's/^c\([0-9][0-9]\).py$/C\1/p')
for p in $ids; do timeout 900 python3-vt -B -m pydv.check $p --tier ${TIER:-quick} > /tmp/reg_$p.log 2>&1; echo "$p rc=$? $(grep -a "$p ${TIER:-quick}:" /tmp/reg_$p.log | cut -c1-200)"; grep -a "VIOLATION\|not proved:" /tmp/reg_$p.log | cut -c1-250; done
