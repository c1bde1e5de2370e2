#!/bin/bash
# Builds the library of the harness once, to show that the toolchain and the crates it needs are there. Every check
# builds what it needs from /repo's current tree by itself.
set -eu
cd "$(dirname "$0")/mc"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
RUSTFLAGS="--cap-lints=allow" cargo build --offline --locked --release --lib --target-dir target
mkdir -p ../evidence ../replays
