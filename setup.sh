#!/bin/bash
# Build the MIR driver.
set -e
cd "$(dirname "$0")/driver"
export CARGO_NET_OFFLINE=true
cargo +nightly build --release --offline -q
