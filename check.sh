#!/bin/bash
# check.sh ID [quick|thorough]: rebuilds the simulator from /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
id=$1 tier=${2:-${VERIF_TIER:-quick}}
bin=simcheck
[ "$id" = C11 ] && bin=simsan
if ! ./build.sh > build.log 2>&1; then
    cat build.log >&2
    echo "check.sh: cannot build" >&2
    exit 2
fi
exec ./build/$bin --check "$id" --tier "$tier" --seed "${VERIF_SEED:-1}"
