#!/bin/bash
# Builds the harness crates once (dependencies for Kani and for native replay),
# so that the checks only recompile what changed in /repo.
cd "$(dirname "$0")" || exit 1
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTUP_TOOLCHAIN CARGO_TARGET_DIR
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
exec python3 check.py --setup
