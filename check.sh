#!/bin/bash
# Build the simulator against /repo's current working tree and run one command of it:
#   check.sh check <property> [--tier quick|thorough] [--seed N]
#   check.sh replay <file>  |  check.sh list  |  check.sh build
# Exit codes: 0 the property held, 1 a violation was found, 2 no answer (build or harness error).
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export DST_HOME="$here"
export CARGO_TARGET_DIR="$here/sim/target"
export RUSTC_WRAPPER="$here/sim/rustc-wrap.sh"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUST_BACKTRACE CARGO_BUILD_TARGET
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.dst-lock"
flock 9
# cargo goes by modification times; go by content as well
sum="$(cd /repo && find src Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs -d '\n' sha256sum | sha256sum)"
if [ "$sum" != "$(cat "$CARGO_TARGET_DIR/.repo-sum" 2>/dev/null)" ]; then
  rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/fem_2d-* "$CARGO_TARGET_DIR"/debug/.fingerprint/work-*
fi
log="$CARGO_TARGET_DIR/build.log"
if ! (cd "$here/sim" && cargo build --offline --quiet --bin dst) >"$log" 2>&1; then
  echo "build failed:"; grep -E -A8 '^error' "$log" | head -60
  exit 2
fi
printf '%s' "$sum" >"$CARGO_TARGET_DIR/.repo-sum"
flock -u 9
exec 9>&-
[ "$1" = build ] && exit 0
exec "$CARGO_TARGET_DIR/debug/dst" "$@"
