#!/bin/bash
# run.sh Cxx [args]: builds from /repo's working tree and runs one check.
V=$(cd "$(dirname "$0")" && pwd)
bash "$V/build.sh" || exit 3
export RUST_BACKTRACE=0
exec "$V/build/explorer" "$@" --verif "$V"
