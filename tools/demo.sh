#!/bin/bash
# Demonstrates one planted bug: exit 0 where the property holds, nonzero where it is broken.
# Run with the tree of the repository as the current directory.
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
export HOME="${HOME:-/root}" PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
T="$(mktemp -d /tmp/demo.XXXXXX)" || exit 9
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
cp "$D/kit.rs" "$T/src/kit.rs"
cp "$D/demo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
futures-signals = { path = "$R" }
discard = "1"
futures-core = "0.3"
[profile.dev]
opt-level = 1
debug = 0
[workspace]
EOF
cd "$T" || exit 9
export RUSTFLAGS="-A mismatched_lifetime_syntaxes" CARGO_TARGET_DIR="$T/target"
cargo build --offline -q || exit 8
timeout 120 "$T/target/debug/demo"
