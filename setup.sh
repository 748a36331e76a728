#!/bin/bash
# builds the symbolic executor (std-only Rust, no dependencies)
set -e
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/symex"
env -u RUSTUP_TOOLCHAIN -u RUSTFLAGS PATH=/root/.cargo/bin:$PATH HOME=/root CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/symex/target" cargo build --release --offline -q
