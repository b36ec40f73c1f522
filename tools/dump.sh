#!/bin/bash
# Builds the MIR extractor and dumps the MIR of /repo's current tree.
# usage: dump.sh OUTDIR
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"
OUT="$1"; mkdir -p "$OUT"
export HOME="${HOME:-/root}"
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WORKSPACE_WRAPPER= RUSTFLAGS=
export LIBCLANG_PATH=/usr/lib/llvm-14/lib
export CARGO_INCREMENTAL=0
B="${FUNSPACE_VERIF_BUILD:-$V/build}"
mkdir -p "$B"
SYS="$(rustc --print sysroot)"
export LD_LIBRARY_PATH="$SYS/lib${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}"
( cd "$V/driver" && RUSTC_WRAPPER= CARGO_TARGET_DIR="$B/driver" cargo build --offline -q )
# the witness crate is copied so that its Cargo.lock can be the project's own
W="$B/witness-src"; mkdir -p "$W/src"
cp "$V/witness/Cargo.toml" "$W/Cargo.toml"
cp "$V/witness/src/"*.rs "$W/src/"
cp "$V/witness/Cargo.lock" "$W/Cargo.lock"
rm -f "$OUT/witness.json" "$OUT/funspace.json" "$OUT/state.json"
# force the two analysed crates to be recompiled (cargo's freshness cache would skip the wrapper)
rm -rf "$B/w/debug/.fingerprint/funspace-"* "$B/w/debug/.fingerprint/witness-"* "$B/w/debug/build/funspace" "$B/w/debug/build/witness"
cd "$W"
MIRDUMP_OUT="$OUT" RUSTC_WRAPPER="$B/driver/debug/mirdump" CARGO_TARGET_DIR="$B/w" \
  cargo check --offline --locked -q
test -s "$OUT/witness.json" && test -s "$OUT/funspace.json" && test -s "$OUT/state.json"
