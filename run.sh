#!/bin/bash
# run.sh <property id> [--replay FILE]: builds the harness of a property from
# /repo's working tree and runs its check. Exit 0 held, 1 violated, else no answer.
id=$1
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
. "$here/build.sh" || exit 3
crate=$(crate_of "$id") || { echo "unknown property $id" >&2; exit 3; }
build "$crate" || { echo "the harness of $id does not build against /repo" >&2; exit 3; }
"$CARGO_TARGET_DIR/debug/h-$crate" "$@"
rc=$?
if [ $rc = 134 ] || [ $rc = 139 ]; then # the code under test crashed the process
    mkdir -p "$here/replays"
    printf '{"property":"%s","failure":"process ended by signal %s","how":"VERIF_SEED=%s VERIF_TIER=%s %s %s"}\n' \
        "$id" $((rc - 128)) "${VERIF_SEED:-1}" "${VERIF_TIER:-quick}" "$0" "$id" > "$here/replays/$id-crash.json"
    echo "VIOLATION property=$id replay=$here/replays/$id-crash.json"
    exit 1
fi
exit $rc
