#!/bin/bash
# Builds the compiler driver and the analyser from the committed sources.
set -e
cd "$(dirname "$0")/.."
unset RUSTC RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR
(cd driver && cargo +nightly build --offline -q)
(cd engine && cargo build --release --offline -q)
test -x driver/target/debug/pgnv-driver
test -x engine/target/release/pgnv
