#!/bin/bash
# Export the monomorphic MIR of the harness (which instantiates der-parser's public API) from /repo's working tree.
# usage: export.sh OUT.json [TARGET_DIR [oid]]      (oid: every function of der-oid-macro instead)
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"
OUT="$1"
TGT="${2:-$V/build/target}"
NIGHTLY=$(rustup toolchain list 2>/dev/null | grep -o '^nightly[^ ]*' | head -1)
NIGHTLY=${NIGHTLY:-nightly}
export LD_LIBRARY_PATH="$(rustc +$NIGHTLY --print sysroot)/lib"
if [ ! -x "$V/build/exporter/debug/mirexport" ] || [ "$V/exporter/src/main.rs" -nt "$V/build/exporter/debug/mirexport" ]; then
  (cd "$V/exporter" && CARGO_TARGET_DIR="$V/build/exporter" cargo +$NIGHTLY build --offline -q) >&2
fi
: > "$OUT"
CRATE=harness
if [ "$3" = oid ]; then
  cd "$V/oidharness"
  CRATE=der_oid_macro
  export MIREXPORT_ALL=1
else
  cd "$V/harness"
  touch src/lib.rs
fi
cargo +$NIGHTLY clean --offline -q -p der-parser -p der-oid-macro --target-dir "$TGT" 2>/dev/null >&2 || cargo +$NIGHTLY clean --offline -q -p der-parser --target-dir "$TGT" 2>/dev/null >&2 || cargo +$NIGHTLY clean --offline -q -p der-oid-macro --target-dir "$TGT" 2>/dev/null >&2 || true
MIREXPORT_CRATE=$CRATE MIREXPORT_OUT="$OUT" CARGO_TARGET_DIR="$TGT" \
  RUSTC_WRAPPER="$V/build/exporter/debug/mirexport" \
  RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=on -Coverflow-checks=on" \
  cargo +$NIGHTLY check --offline --color never >&2
test -s "$OUT"
