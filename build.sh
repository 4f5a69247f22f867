#!/bin/bash
# Builds the simulated std and the harness against /repo's current working tree.
# Usage: build.sh   (prints the path of the binary on success)
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTFLAGS CARGO_INCREMENTAL CARGO_TARGET_DIR
OUT="$VERIF/build"
mkdir -p "$OUT"
(
  flock 9
  HASH=$(sha256sum "$VERIF/sim/std/lib.rs" | cut -c1-16)
  # The simulated std: with reference counts as scheduling points (arc), and without (plain).
  for KIND in arc plain; do
    STD="$OUT/std-$KIND-$HASH"
    if [ ! -f "$STD/libfutures_signals_sim_std.rlib" ]; then
      mkdir -p "$STD"
      if [ $KIND = arc ]; then
        RUSTC_BOOTSTRAP=1 rustc --edition 2021 -C opt-level=2 -C debuginfo=1 --crate-type rlib --cfg sim_arc \
          --crate-name futures_signals_sim_std "$VERIF/sim/std/lib.rs" --out-dir "$STD" 1>&2 || true
      else
        rustc --edition 2021 -C opt-level=2 -C debuginfo=1 --crate-type rlib \
          --crate-name futures_signals_sim_std "$VERIF/sim/std/lib.rs" --out-dir "$STD" 1>&2 || exit 3
      fi
    fi
  done
  # Freshness by content, not by mtime.
  NOW=$(cd /repo && find Cargo.toml src "$VERIF/sim" -type f -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32)
  if [ "$NOW" != "$(cat "$OUT/content" 2>/dev/null)" ]; then
    rm -rf "$OUT"/target/release/.fingerprint/futures-signals-* "$OUT"/target/release/.fingerprint/dst-*
  fi
  # Weak memory is simulated only if the library synchronises with what the simulation knows.
  FOREIGN=
  if sed 's,//.*,,' /repo/src/atomic.rs /repo/src/future.rs /repo/src/internal.rs /repo/src/signal/*.rs 2>/dev/null |
      grep -Eq 'AtomicWaker|Abortable|AbortHandle|\b(mpsc|oneshot|Once|OnceLock|OnceCell|LazyLock|Barrier|parking_lot|crossbeam|arc_swap|spin)\b|\bcore::(sync|cell)|alloc::sync|futures_util::lock|futures_channel|::lock::Mutex|\basm!'; then
    FOREIGN="--cfg dst_foreign_sync"
    echo "build: foreign synchronisation, weak memory is not simulated" 1>&2
  fi
  cd "$VERIF/sim/harness" || exit 3
  compile() {
    RUSTFLAGS="--cfg futures_signals_sim $2 $FOREIGN --extern futures_signals_sim_std=$OUT/std-$1-$HASH/libfutures_signals_sim_std.rlib -L $OUT/std-$1-$HASH -A mismatched_lifetime_syntaxes --cap-lints warn" \
    CARGO_TARGET_DIR="$OUT/target" cargo build --release --offline --locked -q 1>&2
  }
  # A library which uses Arc in a way the simulated one does not support is built with the real one.
  compile arc "--cfg futures_signals_sim_arc" || { echo "build: the simulated Arc does not fit, using the real one" 1>&2; compile plain ""; } || exit 3
  echo "$NOW" > "$OUT/content"
) 9>"$OUT/lock" || exit 3
echo "$OUT/target/release/dst"
