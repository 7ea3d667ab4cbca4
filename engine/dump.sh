#!/bin/bash
# usage: dump.sh OUT [features]
set -e
cd /verif/harness
SR=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SR/lib
export RUSTC_WRAPPER=/verif/driver/target/release/mirdump MIRDUMP_OUT=$1
export RUSTFLAGS="-Zalways-encode-mir -Coverflow-checks=on -Zmir-opt-level=0 -Cdebug-assertions=off"
touch src/lib.rs
cargo +nightly check --offline --target-dir /tmp/hdump ${2:+--features $2} 2>&1 | tail -30
