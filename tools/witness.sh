#!/bin/bash
# usage: witness.sh MODE TARGET_DIR     MODE: lint | lintmin (no features) | good | bad
# Compiles the lifetime witnesses against /repo's working tree; JSON diagnostics on stdout.
V="$(cd "$(dirname "$0")/.." && pwd)"
NIGHTLY=$(rustup toolchain list 2>/dev/null | grep -o '^nightly[^ ]*' | head -1)
NIGHTLY=${NIGHTLY:-nightly}
export LD_LIBRARY_PATH="$(rustc +$NIGHTLY --print sysroot)/lib"
if [ ! -x "$V/build/exporter/debug/mirexport" ] || [ "$V/exporter/src/main.rs" -nt "$V/build/exporter/debug/mirexport" ]; then
  (cd "$V/exporter" && CARGO_TARGET_DIR="$V/build/exporter" cargo +$NIGHTLY build --offline -q) >&2 || exit 3
fi
TGT="$2"
fresh() { cargo +$NIGHTLY clean --offline -q -p der-parser -p der-oid-macro --target-dir "$TGT" 2>/dev/null >&2; }
cd "$V/witness" || exit 3
export CARGO_TARGET_DIR="$TGT" RUSTC_WRAPPER="$V/build/exporter/debug/mirexport"
CARGO="cargo +$NIGHTLY check --offline --color never --message-format json"
case "$1" in
  lint) fresh; MIREXPORT_FORBID=der_parser,der_oid_macro $CARGO ;;
  lintmin) fresh; MIREXPORT_FORBID=der_parser,der_oid_macro $CARGO --no-default-features ;;
  good) touch src/lib.rs; $CARGO ;;
  bad) touch src/lib.rs; $CARGO --features bad ;;
  probe) mkdir -p "$V/build/probe"; MIREXPORT_FORBID=unsafe_probe $RUSTC_WRAPPER $(rustup which rustc --toolchain $NIGHTLY) --crate-name unsafe_probe --edition 2021 --crate-type lib --emit=metadata --error-format json --out-dir "$V/build/probe" unsafe_probe.rs 2>&1 | sed 's/^/PROBE /' ;;
esac
