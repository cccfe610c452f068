#!/bin/bash
# developer shortcut: ./kani.sh <crate dir> <harness> [extra args]
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTUP_TOOLCHAIN
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
c=$1; h=$2; shift 2
ulimit -v 8000000;cd /verif/h/$c && exec cargo kani --target-dir /verif/target/kani-$c -Z stubbing -Z unstable-options --no-overflow-checks --no-memory-safety-checks --no-assertion-reach-checks --harness "$h" "$@" $([ $c = core ] || echo --cbmc-args --max-field-sensitivity-array-size 200)
