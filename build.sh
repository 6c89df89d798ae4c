#!/bin/bash
# Builds the simulator with /repo's working tree inside: with debug assertions and overflow
# checks, without, and for the interpreter (Miri), which the checks can do without.
# Offline; writes only below /verif/sim.
cd "$(dirname "$0")/sim" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PATH="/usr/local/bin:/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTFLAGS
cargo build --offline --locked --quiet --profile simdbg --target-dir target >target.log 2>&1 & a=$!
cargo build --offline --locked --quiet --release --target-dir target-rel >target-rel.log 2>&1 & b=$!
(
    mkdir -p target-miri && rm -f target-miri/ready && cd miri || exit
    export RUSTFLAGS=-Awarnings MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-disable-validation"
    timeout 240 cargo +nightly miri run --offline --locked --quiet --target-dir ../target-miri -- smoke 2>/dev/null |
        grep -qx SMOKE || exit
    { echo "$(rustc +nightly --print sysroot)/bin/miri"; cargo +nightly miri setup --print-sysroot; } >../target-miri/ready.new &&
        mv ../target-miri/ready.new ../target-miri/ready
) >target-miri.log 2>&1 & c=$!
wait $a; ra=$?
wait $b; rb=$?
wait $c
if [ $ra -ne 0 ] || [ $rb -ne 0 ]; then
    echo "build failed" >&2
    grep -h -A12 '^error' target.log target-rel.log >&2
    exit 2
fi
