#!/bin/bash
# Builds the small program beside this file against the crate in the current directory and runs it.
# It keeps everything in a scratch directory of its own.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:/usr/local/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'find "$t" -delete' EXIT
mkdir -p "$t/src"
cp "$here"/*.rs "$t/src/"
patch=
if [ -d "$here/rocksdb_stub" ]; then
    cp -r "$here/rocksdb_stub" "$t/rocksdb"
    patch=$'[patch.crates-io]\nrocksdb = { path = "rocksdb" }'
fi
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
starling = { path = "$repo", features = [@FEATURES@] }
@DEPS@
[workspace]
$patch
EOF
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cd "$t" || exit 99
CARGO_TARGET_DIR="$t/target" cargo build --offline -q 2> build.log || { cat build.log; echo "demo does not build"; exit 98; }
timeout 120 "$t/target/debug/demo"
