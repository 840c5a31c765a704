#!/bin/bash
# check.sh PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]
# Builds the harness against /repo's current tree and runs one property's check.
set -u
ROOT=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_ROOT=$ROOT CARGO_TARGET_DIR=$ROOT/target CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p "$ROOT/target" "$ROOT/evidence"
build() {
  # the sources the harness compiles in, by content: copies do not keep modification times in order
  local now stamp=$ROOT/target/repo.sum
  now=$(cd /repo && find programs/mango-v4 programs/margin-trade lib bin -type f \( -name '*.rs' -o -name Cargo.toml \) -print0 \
        | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
    for d in "$ROOT"/target/*/.fingerprint; do
      [ -d "$d" ] || continue
      find "$d" -maxdepth 1 \( -name 'mango-v4-*' -o -name 'margin-trade-*' -o -name 'checked_math-*' -o -name 'sim-*' -o -name 'pieces-*' \) -exec rm -rf {} +
    done
  fi
  (cd "$ROOT/harness" && cargo build --offline --quiet -p sim --bin check) >"$ROOT/target/build.log" 2>&1 || return 1
  echo "$now" >"$stamp"
}
(
  flock 9
  build
) 9>"$ROOT/target/.build.lock"
if [ $? -ne 0 ]; then
  echo "the harness does not build against /repo" >&2
  grep -E '^error' -A8 "$ROOT/target/build.log" | head -60 >&2
  exit 2
fi
[ "${1:-}" = --build-only ] && exit 0
exec "$ROOT/target/debug/check" "$@"
