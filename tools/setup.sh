#!/bin/bash
# Builds the exporter and warms the build directory (everything offline); every check can also do this by itself.
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p "$V/build"
bash "$V/tools/export.sh" "$V/build/setup.json"
bash "$V/tools/export.sh" "$V/build/setup.json" "$V/build/target" oid
rm -f "$V/build/setup.json"
bash "$V/tools/witness.sh" lint "$V/build/wtarget" > /dev/null || true
bash "$V/tools/witness.sh" lintmin "$V/build/wtarget" > /dev/null || true
python3 -m compileall -q "$V/engine" "$V/rules" || true
