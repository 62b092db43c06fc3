#!/bin/bash
# cwd /repo; builds demo.rs (beside this file) against the crate in /repo and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" "$w/run" && cp "$here/demo.rs" "$w/src/main.rs" && cp /repo/Cargo.lock "$w/Cargo.lock" || exit 3
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ppt-rs = { path = "/repo"FEATURES }
zip = "0.6"
[profile.dev]
debug = false
T
cargo build --offline --quiet --manifest-path "$w/Cargo.toml" --target-dir "$w/t" || exit 3
cd "$w/run" && TMPDIR="$w/run" timeout 60 "$w/t/debug/demo"
