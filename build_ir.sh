#!/bin/bash
# usage: build_ir.sh OUTDIR [all|ir|irr|native]  -- builds the harness against /repo's working tree:
#   OUTDIR/harness.ll   whole-program LLVM IR (debug profile, assertions and overflow checks on)
#   OUTDIR/harness-r.ll  (irr) the same without debug assertions and overflow checks
#   OUTDIR/replay-debug, OUTDIR/replay-release   native replay binaries
# HARNESS_FEATURES: cargo features of the harness (big-endian-varlen, serde)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$1; what=${2:-all}
mkdir -p "$out"
. /opt/vp/env.sh
cd "$here/harness"
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
export CARGO_TARGET_DIR=$out/target
feat=()
[ -n "$HARNESS_FEATURES" ] && feat=(--features "$HARNESS_FEATURES")
build_ll() {
  rm -f "$CARGO_TARGET_DIR"/debug/deps/*.bc "$CARGO_TARGET_DIR"/debug/deps/libharness*
  CARGO_PROFILE_DEV_LTO=fat "$CARGO" rustc --offline -q --lib "${feat[@]}" --crate-type staticlib -- -C save-temps 2>"$out/cargo.log" || { cat "$out/cargo.log" >&2; exit 1; }
  bc=$(ls "$CARGO_TARGET_DIR"/debug/deps/harness-*lto.input.bc | head -1)
  api=$(cat src/*.rs | grep -o 'extern "C" fn check_[a-z0-9_]*' | sed 's/.* //' | sort -u | paste -sd,)
  /usr/bin/opt -passes='internalize,globaldce,strip-dead-prototypes' -internalize-public-api-list="$api" --strip-debug "$bc" -o "$1.bc"
  /usr/bin/llvm-dis "$1.bc" -o "$1.ll"
  rm -f "$CARGO_TARGET_DIR"/debug/deps/*.bc "$1.bc" "$CARGO_TARGET_DIR"/debug/deps/*.o
}
if [ "$what" = all ] || [ "$what" = ir ]; then
  build_ll "$out/harness"
fi
if [ "$what" = all ] || [ "$what" = irr ]; then
  export CARGO_TARGET_DIR=$out/rtarget
  CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false CARGO_PROFILE_DEV_OVERFLOW_CHECKS=false build_ll "$out/harness-r"
fi
if [ "$what" = all ] || [ "$what" = native ]; then
  export CARGO_TARGET_DIR=$out/ntarget
  "$CARGO" build --offline -q "${feat[@]}" --bin replay 2>"$out/cargo.log" || { cat "$out/cargo.log" >&2; exit 1; }
  "$CARGO" build --offline -q --release "${feat[@]}" --bin replay 2>"$out/cargo.log" || { cat "$out/cargo.log" >&2; exit 1; }
  cp "$out/ntarget/debug/replay" "$out/replay-debug"
  cp "$out/ntarget/release/replay" "$out/replay-release"
fi
