#!/bin/bash
# builds the extractor and warms the native build (every check also builds what it needs itself)
cd "$(dirname "$0")/.." || exit 1
export CARGO_NET_OFFLINE=true
unset CARGO_RESOLVER_LOCKFILE_PATH RUSTFLAGS
CARGO_TARGET_DIR=$PWD/.build/vx cargo build --manifest-path vx/Cargo.toml || exit 1
CARGO_TARGET_DIR=$PWD/.build/native cargo build --release --manifest-path native/Cargo.toml --features "qoi farbfeld ppm png inflate jpeg bmp hdr psd jxl image procs" || exit 1
CARGO_TARGET_DIR=$PWD/.build/native cargo build --release --manifest-path native/Cargo.toml --features jpegs || exit 1
CARGO_TARGET_DIR=$PWD/.build/nostd cargo build --release --manifest-path nostd/Cargo.toml || exit 1
exit 0
