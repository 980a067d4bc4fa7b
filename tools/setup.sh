#!/bin/bash
# prebuilds the dependencies of the contracts crate (native and Kani)
cd "$(dirname "$0")/.." && python3 tools/workspace.py || exit 1
export CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg rinex_verif"
cd contracts
cargo build --profile search --target-dir ../.build/native --features p01 >/dev/null 2>&1
cargo kani --target-dir ../.build/target --features p02 -Z unstable-options -Z stubbing -Z function-contracts --exact --harness p02::p02_flag_1 >/dev/null 2>&1
exit 0
