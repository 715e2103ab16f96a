#!/bin/bash
# check.sh PROPERTY [quick|thorough]   Rebuilds the simulator with /repo's working tree and runs one property's check.
# Exit 0: held. Exit 1: VIOLATION line. Anything else: the check itself failed.
cd "$(dirname "$0")/sim" || exit 2
V=$(cd .. && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
bash "$V/build.sh" || exit 2
exec ./target/release/simctl check --prop "$prop" --tier "$tier" --seed "${VERIF_SEED:-1}" --verif "$V"
