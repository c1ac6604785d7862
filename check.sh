#!/bin/bash
# usage: check.sh build | check.sh <property> [options]
# Builds the harness against /repo's current working tree, then decides one property.
# exit 0 held, 1 violation (VIOLATION line printed), anything else: no verdict.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export RUSTFLAGS="--cfg onion_verif --cap-lints allow"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$here/target"
# C03 and C22 decide refusals: those have to hold without debug assertions too.
profile=release
case "$*" in *C22*|*C03*) profile=plain ;; esac
build() {
  local log
  log="$(mktemp)"
  if ! cargo build --profile "$1" --offline --locked --manifest-path "$here/harness/Cargo.toml" >"$log" 2>&1; then
    grep -E '^(error|warning: unused)' -A6 "$log" | head -60 >&2
    tail -5 "$log" >&2
    rm -f "$log"
    echo "harness does not build against /repo" >&2
    exit 2
  fi
  rm -f "$log"
}
build "$profile"
if [ "${1:-}" = build ]; then
  build plain
  exit 0
fi
exec "$here/target/$profile/onion-verif" "$@"
