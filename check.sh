#!/bin/bash
# check.sh PROPERTY [more palmsim check options]: build from /repo's working tree and run the
# property's campaign. Exit 0: held; 1: VIOLATION line printed; 2: no answer.
cd "$(dirname "$0")" || exit 2
bash ./build.sh || exit 2
p=$1; shift
exec ./sim/target-rel/release/palmsim check --prop "$p" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" \
    --dbg "$PWD/sim/target/simdbg/palmsim" --rel "$PWD/sim/target-rel/release/palmsim" --out "$PWD" "$@"
