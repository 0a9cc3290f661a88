#!/bin/bash
# check.sh build | check.sh ID : builds the model checker against /repo's working tree, then runs one check.
# Exit 0: held on everything explored; 1: VIOLATION printed; 2: the check could not be run.
set -u
cd "$(dirname "$0")" || exit 2
export MC_DIR="$PWD" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
build() {
  local want have
  # cargo decides by modification times, which copies and checkouts do not keep in order: decide by content
  want=$( { find /repo/src /repo/Cargo.toml mc/src mc/stubs mc/Cargo.toml mc/Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum; rustc --version; } | sha256sum | cut -d' ' -f1)
  have=$(cat mc/target/built 2>/dev/null)
  if [ "$want" = "$have" ] && [ -x mc/target/release/mc ]; then return 0; fi
  if [ -d mc/target/release ]; then (cd mc && cargo clean --release --offline -p ressa -p mc >/dev/null 2>&1); fi
  mkdir -p mc/target && rm -f "$PWD/mc/target/built"
  if ! (cd mc && cargo build --release --offline >target/build.log 2>&1); then tail -60 mc/target/build.log >&2; echo "the model checker does not build against /repo" >&2; return 1; fi
  echo "$want" > mc/target/built
}
exec 9>/tmp/.mc-build.lock && flock 9
build || exit 2
exec 9>&-
[ "${1:-}" = build ] && exit 0
exec mc/target/release/mc check "$1"
