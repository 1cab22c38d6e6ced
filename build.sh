#!/bin/bash
# Usage: build.sh [CRATE...]   Builds the checkers (all of them by default), offline.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
[ $# = 0 ] && set -- core sched cli interval index
for c in "$@"; do
  if [ "$c" = sched ]; then
    # Every atomic operation becomes a call into the scheduler's runtime.
    (cd sched && CARGO_TARGET_DIR="$PWD/../target/sched" \
      RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0" \
      cargo +nightly build --release --offline --target x86_64-unknown-linux-gnu) || exit 1
  else
    (cd "$c" && cargo +stable build --release --offline) || exit 1
  fi
done
