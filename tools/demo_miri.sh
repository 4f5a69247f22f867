#!/bin/bash
# Runs demo.rs under Miri with many seeds (data races, weak memory). cwd: the repository.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="$PWD"
W="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$W"' EXIT
mkdir "$W/src"
cp "$HERE/demo.rs" "$W/src/main.rs"
cp "$HERE/kit.rs" "$W/src/kit.rs"
cp "$HERE/demo.lock" "$W/Cargo.lock" 2>/dev/null
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
futures-signals = { path = "$REPO" }
futures-core = "0.3"
discard = "1"
[workspace]
T
export HOME="${HOME:-/root}" PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export CARGO_NET_OFFLINE=true RUSTFLAGS="-A warnings --cap-lints warn" CARGO_TARGET_DIR="$W/target"
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-many-seeds=0..${SEEDS:-96} -Zmiri-preemption-rate=0.2"
cd "$W" || exit 3
timeout 280 cargo +nightly miri run --offline > "$W/log" 2>&1
rc=$?
grep -q "could not compile" "$W/log" && rc=8
grep -v "^Trying seed\|^warning" "$W/log" | tail -30
exit $rc
