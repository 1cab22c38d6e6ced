#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough]
# Builds what decides the property from /repo's working tree and runs it.
# Exit status: 0 it holds on everything explored, 1 violation, 2 no answer.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
id=$1
tier=${2:-${VERIF_TIER:-quick}}
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
case $id in
C04 | C14) parts=sched ;;
C10 | C11) parts="core sched" ;;
C16 | C17 | C18 | C19) parts=cli ;;
C20 | C21 | C22) parts=interval ;;
C23) parts=index ;;
C*) parts=core ;;
*) echo "unknown property: $id" >&2; exit 2 ;;
esac
binary() {
  case $1 in
  sched) echo target/sched/x86_64-unknown-linux-gnu/release/schedcheck ;;
  cli) echo target/release/clicheck ;;
  interval) echo target/interval/release/ivcheck ;;
  index) echo target/index/release/idxcheck ;;
  *) echo target/release/corecheck ;;
  esac
}
mkdir -p out
for crate in $parts; do
  log=out/build-$crate.log
  if ! ./build.sh "$crate" >"$log" 2>&1; then
    echo "the build failed:" >&2
    tail -n 60 "$log" >&2
    exit 2
  fi
done
# Everything the code under test may touch lies in a directory that is removed at the end.
base=/dev/shm
[ -d $base ] && [ -w $base ] || base=/tmp
MC_SCRATCH=$(mktemp -d "$base/plotline-mc.XXXXXXXX") || exit 2
export MC_SCRATCH
trap 'rm -rf -- "$MC_SCRATCH"' EXIT
# A property with several parts: the evidence of the earlier ones is added to that of the last.
earlier=
for crate in $parts; do
  "$(binary "$crate")" "$id" "$tier" || exit
  if [ -n "$earlier" ]; then
    python3 merge.py "$earlier" "evidence/$id.json" || exit 2
  fi
  earlier=out/evidence-$id.json
  cp "evidence/$id.json" "$earlier" || exit 2
done
