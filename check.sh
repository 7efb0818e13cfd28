#!/bin/bash
# check.sh <property id>: build the harness against /repo's working tree and run one check.
# Exit 0: held on everything explored; exit 1 with a VIOLATION line: violated; other: no answer.
export VERIF_ROOT="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
cd "$VERIF_ROOT/harness" || exit 3
export CARGO_TARGET_DIR="$VERIF_ROOT/target" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 CARGO_NET_OFFLINE=true TZ=UTC
unset RUSTFLAGS
mkdir -p "$VERIF_ROOT/evidence" "$VERIF_ROOT/target"
# the build script of the crate rewrites src/generated only below OUT_DIR; nothing in /repo changes
if ! cargo build --offline >"$VERIF_ROOT/target/build-${1:-setup}.log" 2>&1; then
  # one retry: a build interrupted for lack of memory is not an answer about the code
  if ! CARGO_BUILD_JOBS=2 cargo build --offline >"$VERIF_ROOT/target/build-${1:-setup}.log" 2>&1; then
    tail -40 "$VERIF_ROOT/target/build-${1:-setup}.log"; echo "NOTE: the harness does not build against this tree; no verdict"; exit 3
  fi
fi
[ -z "$1" ] && exit 0
ulimit -v 25165824 2>/dev/null
exec "$VERIF_ROOT/target/debug/vharness" check "$1"
