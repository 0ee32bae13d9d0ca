#!/bin/bash
# Builds demo.rs against the crates of the current directory (a rust-atelier tree) in a scratch
# folder and runs it: exit 0 when the property holds there.
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_HUSKY_DONT_INSTALL_HOOKS=1 RUSTFLAGS=-Awarnings
here=$(cd "$(dirname "$0")" && pwd)
tree=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" "$t/scratch"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$here/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[profile.dev]
debug = 0
[dependencies]
T
for c in $(grep -oE 'atelier_[a-z]+' "$t/src/main.rs" | sort -u); do
  echo "$c = { path = \"$tree/atelier-${c#atelier_}\" }" >> "$t/Cargo.toml"
done
cd "$t" || exit 3
export CARGO_TARGET_DIR="$t/target"
cargo build --offline -q 2> "$t/log" || { tail -20 "$t/log"; exit 4; }
cd "$t/scratch" && timeout 60 "$t/target/debug/demo"
