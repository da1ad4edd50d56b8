#!/bin/bash
# Builds the demonstration against the tree in the current directory and runs it.
# Everything it writes is inside a scratch directory which it removes.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 99
trap 'rm -rf -- "$work"' EXIT
cp -r "$here/demo" "$work/demo" && cp -r "$here/stubs" "$work/stubs" || exit 99
for f in "$work"/demo/Cargo.toml "$work"/demo/build.rs; do [ ! -f "$f" ] || sed -i "s|@REPO@|$repo|" "$f"; done
cd "$work/demo" || exit 99
export CARGO_TARGET_DIR="$work/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.81.0
unset RUSTFLAGS CARGO_BUILD_TARGET
cargo build --offline -q 2>"$work/build.log" || { tail -30 "$work/build.log"; exit 98; }
timeout 60 "$work/target/debug/demo"
