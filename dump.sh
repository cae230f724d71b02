#!/bin/bash
# Dump the MIR of the probe crate (and facts about rstar) built from /repo's working tree into $1.
set -e
OUT=$1
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
if [ ! -x $here/driver/target/release/mirdump ] || [ -n "$(find $here/driver/src -newer $here/driver/target/release/mirdump)" ]; then
  (cd $here/driver && cargo +nightly build --release --offline -q)
fi
mkdir -p "$OUT"
rm -rf "$OUT/target" "$OUT/probe.json" "$OUT/rstar.json"
cd $here/probe
MIRDUMP_OUT=$OUT RUSTC_WRAPPER=$here/driver/target/release/mirdump RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings" \
  cargo +nightly check --offline -q --target-dir "$OUT/target"
rm -rf "$OUT/target"
test -s "$OUT/probe.json"
