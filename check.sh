#!/bin/bash
# check.sh build | check PROPERTY [thorough] | replay FILE [verbose]
# Builds the simulator with /repo's current working tree and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.92.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS="--cfg scc_sim --cap-lints allow"
export CARGO_TARGET_DIR="$here/dst/target"
unset CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG CARGO_BUILD_RUSTFLAGS
# In the second build a tree node has room for four entries instead of fourteen.
log="$(mktemp -d)"
small() {
  cd "$here/dst" &&
  RUSTFLAGS="$RUSTFLAGS --cfg scc_sim_small" CARGO_TARGET_DIR="$CARGO_TARGET_DIR/small" \
  cargo build --release --offline --locked --bin dst >"$log/small" 2>&1
}
small &
if ! (cd "$here/dst" && cargo build --release --offline --locked) >"$log/plain" 2>&1 || ! wait $!; then
  wait
  tail -n 40 "$log"/*
  rm -rf -- "$log"
  echo "ERROR: the simulator does not build" >&2
  exit 2
fi
rm -rf -- "$log"
[ "${1:-build}" = build ] && exit 0
export VERIF_ROOT="$here"
exec "$here/dst/target/release/dst" "$@"
