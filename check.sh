#!/bin/bash
# check.sh <property> [quick|thorough]: builds the simulator against /repo's working tree and runs
# the check. Exit 0: held on everything explored; 1: VIOLATION line printed; anything else: trouble.
cd "$(dirname "$0")" || exit 3
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
mkdir -p target
bash ./build.sh >target/build-$$.log 2>&1 || {

    tail -40 target/build-$$.log 2>/dev/null
    echo "check.sh: the simulator does not build against /repo's working tree" >&2
    exit 3
}
/bin/rm -f "target/build-$$.log"
exec ./target/x86_64-unknown-linux-gnu/debug/fsim check "$prop" "$tier"
