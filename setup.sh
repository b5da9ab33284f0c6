#!/bin/bash
# Builds every harness crate once.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/build.sh"
rc=0
for c in runner sdk e2e circuits recproofs; do build $c || rc=1; done
exit $rc
