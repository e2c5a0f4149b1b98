#!/bin/bash
# cwd: the repository. Builds main.rs against it in a scratch directory and runs it.
H=$(cd "$(dirname "$0")" && pwd); R=$PWD; S=$(mktemp -d) || exit 0
trap 'rm -rf "$S"' EXIT
unset CARGO_RESOLVER_LOCKFILE_PATH RUSTFLAGS; export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$S/target
cp "$H/main.rs" "$S/main.rs"; sed "s#@REPO@#$R#" "$H/Cargo.toml.in" > "$S/Cargo.toml"
cd "$S" && cargo build -q 2>build.err || { tail -20 build.err; echo "demo does not build"; exit 3; }
timeout 120 "$S/target/debug/demo"
