#!/bin/bash
# ./check.sh <property>: rebuild from /repo's working tree and run one check.
# Exit 0: holds; 1: broken (with a VIOLATION line); 2: the check itself failed.
cd "$(dirname "$0")" || exit 2
. ./build.sh
id=$1
unset GV_CLI GV_FUZZ GV_CASES
build gv || exit 2
if [ "$id" = C19 ] || [ "$id" = C26 ] || [ "$id" = C30 ]; then
    build cli || exit 2
    export GV_CLI=$root/target/cli/debug/gift
fi
if [ "$VERIF_TIER" = thorough ] && [ -z "$GV_CLI" ]; then
    build fuzz || exit 2
    export GV_FUZZ=$root/target/fuzz/x86_64-unknown-linux-gnu/release/tape
fi
export GV_ROOT=$root
"$root/target/gv/release/gv" check "$id"
rc=$?
[ $rc -le 2 ] || rc=2
exit $rc
