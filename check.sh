#!/bin/bash
# check.sh ID quick|thorough: builds the explorer against /repo's working tree and runs one check.
set -u
cd "$(dirname "$0")" || exit 2
export MC_ROOT=$PWD CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
id=$1 tier=${2:-quick}
log=$(mktemp)
trap 'rm -f "$log"' EXIT
bin=mc/target/release/mc
build=()
if [ "$id" = C23 ]; then
    # atomic accesses of the crate are yield points of the scheduler
    export RUSTC_WRAPPER=$PWD/mc/instrument.sh
    build=(--features atomics --target-dir mc/target/atomics)
    bin=mc/target/atomics/release/mc
fi
if ! cargo build --release --offline --manifest-path mc/Cargo.toml "${build[@]}" >"$log" 2>&1; then
    tail -40 "$log"
    echo "the explorer does not build"
    exit 2
fi
ulimit -v 28000000
"$bin" run "$id" "$tier"
