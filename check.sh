#!/bin/bash
# ./check.sh <property> [options of "dst check"]: build from /repo's working tree, then search.
cd "$(dirname "$0")" || exit 2
export DST_HOME="$PWD"
./dst/build.sh || { echo "build failed" >&2; exit 2; }
exec ./dst/target/x86_64-unknown-linux-gnu/debug/dst check "$@"
