#!/bin/bash
# Builds the dumper (if needed) and dumps the MIR of /repo's crates, always from the current tree.
# usage: dump.sh OUTDIR
set -e
OUT=${1:?}
HERE=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER RUSTFLAGS
SYS=$(rustc --print sysroot)
export LD_LIBRARY_PATH="$SYS/lib${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}"
DT=${VP_DRIVER_TARGET:-$HERE/driver/target}
cargo build --offline -q --manifest-path "$HERE/driver/Cargo.toml" --target-dir "$DT"
W=$(mktemp -d /tmp/vp-dump.XXXXXX)
trap 'rm -rf "${W:?}"' EXIT
# Lints of the analysed crates are not what is decided here.
export RUSTFLAGS="--cap-lints=allow"
try() {
  rm -rf "${OUT:?}"; mkdir -p "$OUT"
  VP_OUT="$OUT" VP_CRATES=tpm2,tpm2_rs_marshalable,tpm2_rs_base,tpm2_client,tpm2_impl,vp_probe \
  RUSTC_WRAPPER="$DT/debug/vp-mir-dump" \
    cargo check --offline -q --manifest-path "$HERE/probe/Cargo.toml" --target-dir "$W/t" --lib \
      --no-default-features --features "$1"
}
try user,server,client && exit 0
# Part of the probe does not compile against this tree: analyse what can be, and say so by failing.
for F in server,client user,client user,server client server user; do
  rm -rf "${W:?}/t"
  if try "$F" >"$W/log" 2>&1; then echo "probe compiled with $F only"; exit 1; fi
done
exit 1
