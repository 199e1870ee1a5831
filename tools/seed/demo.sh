#!/bin/bash
# run in the repository; 0: the behaviour is there, otherwise it is not
here=$(cd "$(dirname "$0")" && pwd) || exit 9
repo=$PWD
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
tmp=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 9
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$here/k.rs" "$tmp/src/"
sed "s|@REPO@|$repo|" "$here/Cargo.toml.in" > "$tmp/Cargo.toml"
cp "$here/Cargo.lock" "$tmp/Cargo.lock"
export CARGO_TARGET_DIR="$tmp/target"
cd "$tmp" || exit 9
cargo build -q --offline || exit 8
timeout 120 "$tmp/target/debug/demo"
rc=$?
[ $rc = 0 ] && echo "demo: holds" || echo "demo: BROKEN ($rc)"
exit $rc
