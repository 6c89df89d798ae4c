#!/bin/bash
# replay.sh FILE: build from /repo's working tree and execute one replay file.
# Exit 1 and the VIOLATION line if it still fails, 0 if it does not.
f=$(realpath "$1") || exit 2
cd "$(dirname "$0")" || exit 2
bash ./build.sh || exit 2
exec ./sim/target-rel/release/palmsim replay --file "$f" \
    --dbg "$PWD/sim/target/simdbg/palmsim" --rel "$PWD/sim/target-rel/release/palmsim" --sim "$PWD/sim"
