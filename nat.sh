#!/bin/bash
# developer: type-check the harnesses natively
cd /verif/h/$1/replay && RUSTUP_TOOLCHAIN=1.85.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTFLAGS='--cfg measured_verif' cargo build --target-dir /verif/target/replay-$1 2>&1 | grep -E -A9 '^error' | head -${2:-40}
