#!/bin/bash
# check.sh ID quick|thorough: analyses /repo's current tree for one property.
cd "$(dirname "$0")/.." || exit 2
V=$(pwd)
ID=$1
TIER=${2:-quick}
if [ ! -x driver/target/debug/pgnv-driver ] || [ ! -x engine/target/release/pgnv ]; then
  bash bin/setup.sh >&2 || { echo "cannot build the analyser" >&2; exit 2; }
fi
unset RUSTC RUSTFLAGS CARGO_TARGET_DIR
S=$(mktemp -d /tmp/pgnv.XXXXXX) || exit 2
trap 'rm -rf "$S"' EXIT
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
dump() { # FILE FEATURES
  ( cd harness && RUSTC_WRAPPER=$V/driver/target/debug/pgnv-driver PGNV_OUT=$1 \
    cargo +nightly check --offline -q --target-dir "$S/t" $2 ) >"$S/log" 2>&1
  if [ ! -s "$1" ]; then
    echo "the program under analysis does not compile:" >&2
    tail -40 "$S/log" >&2
    exit 2
  fi
}
dump "$S/le.json" ""
BE=""
case $ID in C09|C08|C25|C30) dump "$S/be.json" "--features be"; BE="--dump-be $S/be.json";; esac
mkdir -p evidence replay
engine/target/release/pgnv check "$ID" --dump "$S/le.json" $BE --tier "$TIER" \
  --evidence "evidence/$ID.json" --known known-findings.txt --replay "$V/replay/$ID.json"
R=$?
exit $R
