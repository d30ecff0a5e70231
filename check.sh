#!/bin/bash
# check.sh <ID> [quick|thorough]   decide one property
# check.sh replay <file>           re-run one recorded counterexample
cd "$(dirname "$0")" || exit 3
export VERIF_ROOT="$PWD"
bash ./b.sh || { echo "the checker does not build against /repo"; exit 3; }
bin="$PWD/target/release/dbcmc"
if [ "$1" = replay ]; then exec "$bin" replay "$2"; fi
exec "$bin" check "$1" "${2:-quick}"
