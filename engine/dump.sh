#!/bin/bash
# usage: dump.sh OUT.json [cargo args]   (analyses /repo's current working tree; builds nothing inside it)
# Dependency metadata is reused from build/tgt; the crate itself is always re-analysed from source.
set -e
OUT=$1; shift
HERE=$(cd "$(dirname "$0")/.." && pwd)
export PATH=$PATH:/root/.cargo/bin
SR=$(rustc +nightly --print sysroot)
TGT=$HERE/build/tgt
mkdir -p "$TGT"
exec 9>"$HERE/build/lock"
flock 9
find "$TGT" -depth -type d -regex ".*/\(cmaes\|cmaes-[0-9a-f]*\)" -exec rm -rf {} + 2>/dev/null || true
rm -f "$OUT"
cd "${REPO:-/repo}"
MIRDUMP_OUT=$OUT MIRDUMP_CRATE=cmaes LD_LIBRARY_PATH=$SR/lib RUSTC_WORKSPACE_WRAPPER=$HERE/build/drv/release/mirdump \
  CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=$TGT cargo +nightly check --offline --locked --lib "$@" >"$HERE/build/log" 2>&1 || { cat "$HERE/build/log" >&2; exit 3; }
[ -s "$OUT" ] || { echo "no dump written" >&2; cat "$HERE/build/log" >&2; exit 3; }
