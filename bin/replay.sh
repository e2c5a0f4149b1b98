#!/bin/bash
# re-executes a witness written by a check against /repo's current tree
cd "$(dirname "$0")/../native" || exit 2
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=../.build/native cargo build -q --release --features "qoi farbfeld ppm png inflate jpeg bmp hdr psd jxl image procs" || exit 2
exec ../.build/native/release/zv replay "$1"
