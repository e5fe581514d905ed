#!/bin/bash
# Builds the MIR dumper from the committed files (the checks rebuild it themselves if it is missing).
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER RUSTFLAGS
SYS=$(rustc --print sysroot)
export LD_LIBRARY_PATH="$SYS/lib${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}"
cargo build --offline -q --manifest-path "$HERE/driver/Cargo.toml" --target-dir "$HERE/driver/target"
python3 -c 'import json'
