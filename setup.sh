#!/bin/bash
# Builds the explorer, and its other configurations (for C24), against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
cargo build --release --offline --manifest-path mc/Cargo.toml || exit 1
RUSTC_WRAPPER=$PWD/mc/instrument.sh cargo build --release --offline --manifest-path mc/Cargo.toml --features atomics --target-dir mc/target/atomics || exit 1
i=0
for f in "" dbg ser dbg,ser; do
    cargo build --release --offline --manifest-path mc/Cargo.toml --no-default-features --features "$f" --target-dir "mc/target/cfg-$i" || echo "configuration '$f' does not build"
    i=$((i + 1))
done
off=(--config profile.release.package.webrtc-sdp.overflow-checks=false --config profile.release.package.webrtc-sdp.debug-assertions=false)
for f in "" dbg,ser; do
    cargo build "${off[@]}" --release --offline --manifest-path mc/Cargo.toml --no-default-features --features "$f" --target-dir "mc/target/cfg-$i" || echo "configuration '$f' without checks does not build"
    i=$((i + 1))
done
exit 0
