#!/bin/bash
# build once, run checks quick
cd /verif; bash b.sh 2>&1 | head -${LINES_:-40}; [ ${PIPESTATUS[0]} = 0 ] || exit 3
for i in "$@"; do /usr/bin/time -f "%es" env VERIF_ROOT=/verif target/release/dbcmc check $i ${T:-quick} 2>&1 | tail -${N:-15} | cut -c1-330; done
